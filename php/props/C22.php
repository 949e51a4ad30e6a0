<?php
/* binary_search against the documented answer, computed by a linear scan, on every layout a sorted PHP array can have. */
function run_case(int $case, Rng $r, string $tier): void {
    $g = new Gen($r);
    $n = $r->chance(1, 4) ? $r->int(20, 200) : $r->size(80);
    $useKey = $r->chance(1, 3);
    $cmpKind = $r->int(0, 3); // 0: default order, 1: stable_compare, 2: descending ints, 3: compare by a field
    $vals = [];
    $kind = match ($cmpKind) { 0 => $r->pick(['tiny', 'int', 'strings']), 1 => $r->pick(['mixed', 'string', 'numeric', 'int']), default => 'int' };
    $gen = fn() => $kind === 'strings' ? chr($r->int(97, 110)) . chr($r->int(97, 110)) : $g->val($kind);
    for ($i = 0; $i < $n; $i++) { $vals[] = $gen(); }
    $cmp = match ($cmpKind) {
        0 => fn($a, $b) => $a <=> $b,
        1 => 'Teds\stable_compare',
        2 => fn($a, $b) => $b <=> $a,
        3 => fn($a, $b) => intdiv($a, 7) <=> intdiv($b, 7),
    };
    $calls = 0;
    $counting = function ($a, $b) use ($cmp, &$calls) { $calls++; return $cmp($a, $b) * 3; };
    $arr = [];
    if ($useKey) {
        $keys = [];
        foreach ($vals as $v) { if (is_int($v) || is_string($v)) { $keys[] = $v; } }
        foreach ($keys as $k) { $arr[$k] = $g->val('mixed'); }
        uksort($arr, fn($a, $b) => $cmp($a, $b));
    } else {
        usort($vals, fn($a, $b) => $cmp($a, $b));
        switch ($r->int(0, 4)) {
            case 0: $arr = $vals; break;
            case 1: foreach ($vals as $i => $v) { $arr["k$i"] = $v; } break;
            case 2: foreach ($vals as $i => $v) { $arr[$i * 3 - 5] = $v; } break;
            case 3: foreach ($vals as $i => $v) { $arr[$i] = $v; if ($i % 3 === 1) { $refs[] = &$arr[$i]; } } break;
            case 4: foreach ($vals as $i => $v) { $arr[count($vals) - $i] = $v; } break;
        }
    }
    // holes: removing entries keeps the order
    $holes = 0; $slots = count($arr);
    if ($r->chance(2, 3)) {
        $how = $r->int(0, 7); $ks = array_keys($arr); $m = count($ks);
        $from = $m ? $r->int(0, $m - 1) : 0; $to = $from + $r->int(0, $m); $left = 0; $on = false; $mean = $r->int(1, 12);
        foreach ($ks as $i => $k) {
            $cut = match ($how) { 0 => $r->chance(1, 3), 1 => $i < $m / 2, 2 => $i >= $m / 2, 3 => $i > 0 && $i < $m - 1,
                4, 5 => $i >= $from && $i < $to && $i < $m - 1, // one run of holes, the last entry stays
                default => (function () use (&$left, &$on, $mean, $r) { if ($left-- <= 0) { $left = $r->int(0, $mean); $on = !$on; } return $on; })() }; // runs of random lengths

            if ($cut) { unset($arr[$k]); $holes++; }
        }
    }
    $arr = $g->shared($arr);
    Rec::count('holes in searched arrays', $holes);
    for ($t = $r->int(1, 8); $t > 0; $t--) {
        $src = $useKey ? array_keys($arr) : array_values($arr);
        $target = $src && $r->chance(1, 2) ? $r->pick($src) : $gen();
        if ($useKey && !is_int($target) && !is_string($target)) { continue; }
        if (is_int($target) && $r->chance(1, 3) && $target < PHP_INT_MAX && $cmpKind !== 1) { $target++; }
        // expected
        $eq = []; $below = null;
        foreach ($arr as $k => $v) {
            $c = $cmp($target, $useKey ? $k : $v);
            if ($c == 0) { $eq[] = $k; } elseif ($c > 0) { $below = $k; }
        }
        $before = Rep::of($arr);
        $calls = 0;
        $use = $cmpKind !== 0 || $r->bool();
        Rec::op('binary_search', 'binary_search(' . Rep::show($arr) . ', ' . Rep::show($target) . ($use ? ", order $cmpKind" : '') . ($useKey ? ', useKey' : '') . ')');
        $got = outcome(fn() => Teds\binary_search($arr, $target, $use ? $counting : null, $useKey));
        check($got[0] === 'ret' && is_array($got[1]) && array_keys($got[1]) === ['found', 'key', 'value'], 'binary_search:shape', fn() => 'gave ' . Rep::show($got));
        $res = $got[1];
        if ($eq) {
            check($res['found'] === true && in_array($res['key'], $eq, true), 'binary_search:found', fn() => 'target ' . Rep::show($target) . ' is at ' . Rep::show($eq) . ', got ' . Rep::show($res));
        } else {
            checkSame([$res['found'], $res['key']], [false, $below], 'binary_search:not-found', 'search for ' . Rep::show($target) . ' in ' . Rep::show($arr));
        }
        if ($use) {
            $most = (int)ceil(log($slots + 1, 2)) + 1;
            check($calls <= $most, 'binary_search:comparisons', fn() => "$calls comparisons for $slots entries, $most suffice");
            Rec::count('comparisons made by searches', $calls);
        }
        checkSame($res['value'], $res['key'] === null ? null : $arr[$res['key']], 'binary_search:value', 'value at the key found');
        check(Rep::of($arr) === $before, 'binary_search:input', 'the array changed');
        Rec::state($before . '|' . Rep::of($target) . "|$cmpKind");
    }
    // a comparer that throws, or lies: the exception comes out, nothing else happens
    if ($arr && $r->chance(1, 4)) {
        $k = $r->int(1, 3);
        $got = outcome(fn() => Teds\binary_search($arr, 1, function ($a, $b) use (&$k) { if (--$k === 0) { throw new \DomainException(); } return 1; }, $useKey));
        check($got[0] === 'throw' ? $got[1] === \DomainException::class : $k > 0, 'binary_search:throwing', fn() => 'throwing comparer gave ' . Rep::show($got));
        $liar = outcome(fn() => Teds\binary_search($arr, new Obj(), fn($a, $b) => $r->pick([1, -1, 0, '5', null, true, -2.5]), $useKey));
        check($liar[0] === 'ret' && ($liar[1]['key'] === null || Rep::same($liar[1]['value'], $arr[$liar[1]['key']])), 'binary_search:inconsistent', fn() => 'inconsistent comparer gave ' . Rep::show($liar));
        Rec::op('binary_search(hostile comparer)');
    }
}
