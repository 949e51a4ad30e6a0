<?php
/* stable_compare is one total order: against the documented order (Model::cmp), and as algebra on triples; sorting and the sorted collections follow it. */
// names that begin alike, and that differ from Obj only later
final class Ob { }
final class ObA { }
final class ObjA { }
enum ObjB { case X; case Y; }
function sgn(int $x): int { return $x <=> 0; }
function near(Rng $r, mixed $v): mixed { // a value close to $v in the order
    if (is_int($v)) { return $r->pick([$v, (float)$v, $v === PHP_INT_MAX ? $v : $v + 1, $v === PHP_INT_MIN ? $v : $v - 1, (string)$v, [$v]]); }
    if (is_float($v)) {
        if (is_nan($v)) { return $r->pick([NAN, INF, PHP_INT_MAX, '', -NAN]); }
        $bits = unpack('J', pack('E', $v))[1];
        $nx = unpack('E', pack('J', $bits + $r->int(-1, 1)))[1];
        return $r->pick([$v, -$v, $nx, abs($v) < 9e18 ? (int)$v : PHP_INT_MAX, [$v], (string)$v]);
    }
    if (is_string($v)) { return $r->pick([$v, $v . "\0", substr($v, 0, -1), $v . 'a', strrev($v), $v === '' ? "\0" : chr((ord($v[0]) + 1) & 255) . substr($v, 1), is_numeric($v) ? $v + 0 : $v]); }
    if (is_array($v)) {
        $w = $v;
        switch ($r->int(0, 6)) {
            case 0: return $w;
            case 1: $w[] = null; return $w;
            case 2: array_pop($w); return $w;
            case 3: return array_reverse($w, true);
            case 4: foreach ($w as $k => $x) { $w[$k] = near($r, $x); break; } return $w;
            case 5: $o = []; foreach ($w as $k => $x) { $o[is_int($k) ? "k$k" : 7] = $x; } return $o;
            default: foreach ($w as $k => &$x) { if (is_array($x)) { $x = near($r, $x); } } unset($x); return $w;
        }
    }
    if (is_bool($v) || $v === null) { return $r->pick([null, false, true, 0, 1, '']); }
    return match ($r->int(0, 8)) { 0 => $v, 1 => new Obj(), 2 => (object)[], 3 => new Ob(), 4 => new ObA(), 5 => new ObjA(), 6 => ObjB::X, 7 => ObjB::Y, default => fn() => 1 };
}
function run_case(int $case, Rng $r, string $tier): void {
    static $res = null;
    if ($res === null) { $res = []; for ($i = 0; $i < 4; $i++) { $res[] = fopen('php://memory', 'r'); } }
    $g = new Gen($r);
    $kind = $r->pick(['mixed', 'mixed', 'numeric', 'numstr', 'string', 'array', 'float', 'obj', 'edge', 'scalar']);
    $pool = [];
    for ($i = $r->int(4, 14); $i > 0; $i--) {
        $pool[] = $v = $pool && $r->chance(1, 2) ? near($r, $r->pick($pool)) : $g->fresh($kind);
        if ($r->chance(1, 12)) { $pool[] = $r->pick($res); }
        if ($r->chance(1, 12)) { $d = $r->int(1, 60); $x = $v; while ($d-- > 0) { $x = [$x]; } $pool[] = $x; }
    }
    $n = count($pool);
    $c = [];
    foreach ($pool as $i => $a) {
        foreach ($pool as $j => $b) {
            Rec::op('stable_compare', $i <= $j ? 'stable_compare(' . Rep::show($a) . ', ' . Rep::show($b) . ')' : '');
            $x = Teds\stable_compare($a, $b);
            $c[$i][$j] = sgn($x);
            $want = Model::cmp($a, $b);
            check(sgn($x) === $want, 'stable_compare:order', fn() => 'stable_compare(' . Rep::show($a) . ', ' . Rep::show($b) . ") = $x, documented order says $want");
            check(($x === 0) === Teds\strict_equals($a, $b), 'stable_compare:equality', fn() => 'stable_compare(' . Rep::show($a) . ', ' . Rep::show($b) . ") = $x but strict_equals says " . Rep::show(Teds\strict_equals($a, $b)));
            if ($i < $j) { Rec::state(Rep::of($a) . '|' . Rep::of($b)); }
        }
    }
    // references are looked through, also inside arrays
    $a = $pool[0]; $ra = [&$a]; $b = $pool[1] ?? null; $rb = [&$b];
    $x = sgn(Teds\stable_compare($ra, $rb));
    check($x === sgn(Teds\stable_compare([$a], [$b])), 'stable_compare:references', fn() => 'order of [&a],[&b] differs from [a],[b] for ' . Rep::show($a) . ', ' . Rep::show($b));
    for ($i = 0; $i < $n; $i++) {
        check($c[$i][$i] === 0, 'stable_compare:reflexive', fn() => Rep::show($pool[$i]) . ' differs from itself');
        for ($j = 0; $j < $n; $j++) {
            check($c[$i][$j] === -$c[$j][$i], 'stable_compare:antisymmetric', fn() => Rep::show($pool[$i]) . ' / ' . Rep::show($pool[$j]));
            for ($k = 0; $k < $n; $k++) {
                check(!($c[$i][$j] <= 0 && $c[$j][$k] <= 0) || $c[$i][$k] <= 0, 'stable_compare:transitive', fn() => Rep::show($pool[$i]) . ' <= ' . Rep::show($pool[$j]) . ' <= ' . Rep::show($pool[$k]) . ' but not first <= last');
            }
        }
    }
    Rec::count('triples checked for transitivity', $n ** 3);
    // sorting with it is independent of the input order
    $s1 = $pool; usort($s1, 'Teds\stable_compare');
    $s2 = $r->shuffle($pool); usort($s2, 'Teds\stable_compare');
    $nn = fn(array $l) => array_map([Model::class, 'norm'], $l);
    check($nn($s1) === $nn($s2), 'stable_compare:sort', fn() => 'sorting depends on the input order: ' . Rep::show($s1) . ' / ' . Rep::show($s2));
    $uniq = [];
    foreach ($s1 as $v) { $uniq[Model::norm($v)] ??= Model::norm($v); }
    foreach (['StrictSortedVectorSet', 'StrictTreeSet'] as $cls) {
        $set = new ("Teds\\$cls")($r->shuffle($pool));
        check($nn($set->values()) === array_values($uniq), "stable_compare:$cls", fn() => "$cls is not in stable_compare order: " . Rep::show($set->values()) . ' / ' . Rep::show(array_values($s1)));
    }
    $map = new (\Teds\StrictSortedVectorMap::class)();
    $tree = new \Teds\StrictTreeMap();
    foreach ($r->shuffle($pool) as $v) { $map[$v] = 1; $tree[$v] = 1; }
    check($nn($map->keys()) === array_values($uniq) && $nn($tree->keys()) === array_values($uniq), 'stable_compare:map', fn() => 'keys of a sorted map are not in stable_compare order: ' . Rep::show($map->keys()) . ' ' . Rep::show($tree->keys()));
    $h = new \Teds\StrictMinHeap($r->shuffle($pool)); $out = [];
    while (!$h->isEmpty()) { $out[] = $h->extract(); }
    check($nn($out) === $nn($s1), 'stable_compare:heap', fn() => 'heap order ' . Rep::show($out) . ' / ' . Rep::show($s1));
}
