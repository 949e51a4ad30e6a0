<?php
/* strict_equals is === (with NAN equal to itself), strict_hash respects it, and the hash collections use exactly that equality. */
function rebuild(Rng $r, mixed $v): mixed { // an equal value built another way
    if (is_string($v)) { $s = ''; for ($i = 0; $i < strlen($v); $i++) { $s .= $v[$i]; } return $s; }
    if (is_float($v)) { return is_nan($v) ? $r->pick([NAN, -NAN, INF - INF, acos(8)]) : ($v == 0.0 ? $r->pick([0.0, -0.0]) : $v); }
    if (is_array($v)) {
        $a = [];
        if ($r->bool()) { $a['dead'] = 1; unset($a['dead']); } // hash instead of packed layout
        foreach ($v as $k => $x) { $a[$k] = rebuild($r, $x); if ($r->chance(1, 4)) { $h[] = &$a[$k]; } }
        return $a;
    }
    return $v;
}
function vary(Rng $r, mixed $v): mixed { // a value that looks alike
    if (is_array($v)) {
        switch ($r->int(0, 5)) {
            case 0: return array_reverse($v, true);
            case 1: foreach ($v as $k => $x) { $v[$k] = vary($r, $x); if ($r->bool()) { break; } } return $v;
            case 2: $v[] = null; return $v;
            case 3: array_pop($v); return $v;
            case 4: return array_values($v);
            default: $o = []; foreach ($v as $k => $x) { $o[is_int($k) ? (string)"k$k" : 0] = $x; } return $o;
        }
    }
    if (is_int($v)) { return $r->pick([(float)$v, (string)$v, (bool)$v, $v ^ 1, [$v]]); }
    if (is_float($v)) { return $r->pick([(string)$v, -$v, abs($v) < 1e18 ? (int)$v : null, [$v], $v * (1 + 2 ** -52)]); }
    if (is_string($v)) { return $r->pick([is_numeric($v) ? $v + 0 : $v . "\0", $v . ' ', strtoupper($v), [$v], substr($v, 1)]); }
    if (is_object($v)) { return $v instanceof \Closure || $v instanceof \UnitEnum ? new Obj() : clone $v; }
    return $r->pick([null, false, true, 0, '', []]);
}
/** === except that NAN equals NAN at every array level */
function equal(mixed $a, mixed $b): bool {
    if (is_float($a) && is_float($b)) { return $a === $b || (is_nan($a) && is_nan($b)); }
    if (is_array($a) && is_array($b)) {
        if (count($a) !== count($b) || array_keys($a) !== array_keys($b)) { return false; }
        foreach ($a as $k => $x) { if (!equal($x, $b[$k])) { return false; } }
        return true;
    }
    return $a === $b;
}
function run_case(int $case, Rng $r, string $tier): void {
    static $res = null;
    if ($res === null) { $res = []; for ($i = 0; $i < 4; $i++) { $res[] = fopen('php://memory', 'r'); } }
    $g = new Gen($r);
    $kind = $r->pick(['mixed', 'mixed', 'numeric', 'numstr', 'string', 'array', 'array', 'float', 'obj', 'edge', 'scalar']);
    $pool = [];
    for ($i = $r->int(4, 16); $i > 0; $i--) {
        $pool[] = !$pool || $r->chance(1, 2) ? $g->fresh($kind) : ($r->bool() ? rebuild($r, $r->pick($pool)) : vary($r, $r->pick($pool)));
        if ($r->chance(1, 12)) { $pool[] = $r->pick($res); }
    }
    $hash = [];
    foreach ($pool as $i => $a) {
        $before = Rep::of($a);
        $h = Teds\strict_hash($a);
        Rec::op('strict_hash', 'strict_hash(' . Rep::show($a) . ')');
        $hash[$i] = $h;
        check($h === Teds\strict_hash($a), 'strict_hash:unstable', fn() => 'two hashes of ' . Rep::show($a));
        check($h === Teds\strict_hash(rebuild($r, $a)), 'strict_hash:equal-values', fn() => 'an equal copy of ' . Rep::show($a) . ' hashes differently');
        $copy = $a; $ref = &$copy;
        check($h === Teds\strict_hash($ref), 'strict_hash:reference', fn() => 'hash of ' . Rep::show($a) . ' through a reference differs');
        check(Rep::of($a) === $before, 'strict_hash:changes-value', fn() => 'hashing changed ' . Rep::show($a));
        if (is_array($a)) { check(@count($a, COUNT_RECURSIVE) === countAll($a), 'strict_hash:leaves-marks', fn() => 'after hashing, ' . Rep::show($a) . ' is treated as recursive'); }
        unset($ref, $copy);
    }
    $classes = [];
    foreach ($pool as $i => $a) {
        foreach ($pool as $j => $b) {
            Rec::op('strict_equals', $i <= $j ? 'strict_equals(' . Rep::show($a) . ', ' . Rep::show($b) . ')' : '');
            $eq = Teds\strict_equals($a, $b);
            $want = equal($a, $b);
            check($eq === $want, 'strict_equals:result', fn() => 'strict_equals(' . Rep::show($a) . ', ' . Rep::show($b) . ') = ' . Rep::show($eq));
            if ($want) { check($hash[$i] === $hash[$j], 'strict_hash:equal-values', fn() => Rep::show($a) . ' and ' . Rep::show($b) . ' are equal but hash differently'); Rec::count('equal pairs'); }
            elseif (is_object($a) && is_object($b)) { check($hash[$i] !== $hash[$j], 'strict_hash:objects', fn() => 'two objects have the same hash'); }
            if ($i < $j) { Rec::state(Rep::of($a) . '|' . Rep::of($b)); }
        }
        foreach ($classes as $rep) { if (equal($rep, $a)) { continue 2; } }
        $classes[] = $a;
    }
    // the collections keep exactly the first of each class of equal values, in order
    checkSame(Teds\unique_values($pool), $classes, 'strict_equals:unique_values', 'unique_values of an array');
    checkSame(Teds\unique_values(new \ArrayIterator($pool)), $classes, 'strict_equals:unique_values', 'unique_values of a Traversable');
    $set = new \Teds\StrictHashSet($pool);
    checkSame($set->values(), $classes, 'strict_equals:StrictHashSet', 'StrictHashSet');
    $m = new \Teds\StrictHashMap();
    foreach ($pool as $i => $v) { $m[$v] = $i; }
    checkSame($m->keys(), $classes, 'strict_equals:StrictHashMap', 'keys of StrictHashMap');
    foreach ($pool as $i => $v) {
        $last = $i;
        foreach ($pool as $j => $w) { if ($j > $last && equal($v, $w)) { $last = $j; } }
        check($set->contains(rebuild($r, $v)) && $m[rebuild($r, $v)] === $last, 'strict_equals:lookup', fn() => 'lookup of ' . Rep::show($v));
        $w = vary($r, $v);
        $in = false;
        foreach ($classes as $rep) { if (equal($rep, $w)) { $in = true; } }
        check($set->contains($w) === $in && $m->containsKey($w) === $in, 'strict_equals:lookup', fn() => 'lookup of the different value ' . Rep::show($w) . ' in ' . Rep::show($classes));
    }
    // arrays that contain themselves: hashing terminates, is repeatable, and leaves the array usable
    if ($r->chance(1, 4)) {
        $rec = $pool; $rec[] = &$rec; $d = [$rec]; $shown = md5(print_r($rec, true) . print_r($d, true));
        $h = Teds\strict_hash($rec); $h2 = Teds\strict_hash($d);
        Rec::op('strict_hash(recursive)', 'strict_hash(recursive array)');
        check(Teds\strict_hash($rec) === $h && Teds\strict_hash($d) === $h2, 'strict_hash:recursive', 'hash of a recursive array is not repeatable');
        check(md5(print_r($rec, true) . print_r($d, true)) === $shown, 'strict_hash:leaves-marks', 'a recursive array is shown differently after hashing');
        $l = array_pop($rec);
        unset($l);
        checkSame(count($rec), count($pool), 'strict_hash:recursive', 'size of the array after hashing');
    }
    // is_same_array_handle: reflexive, symmetric, implies identity
    $x = $r->pick($pool); $y = $r->pick($pool);
    if (is_array($x) && is_array($y)) {
        $s = Teds\is_same_array_handle($x, $y);
        $z = $x;
        check($s === Teds\is_same_array_handle($y, $x) && Teds\is_same_array_handle($x, $z) && (!$s || equal($x, $y)), 'is_same_array_handle', 'is_same_array_handle is not an equivalence within ===');
        $z[] = 1;
        check(!Teds\is_same_array_handle($x, $z), 'is_same_array_handle', 'a modified copy has the same handle');
        Rec::op('is_same_array_handle');
    }
}
function countAll(array $a): int { $n = count($a); foreach ($a as $x) { if (is_array($x)) { $n += countAll($x); } } return $n; }
