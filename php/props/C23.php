<?php
/* A failed operation leaves the collection as it was. */
function iters_snap(array $iters): string {
    $s = '';
    foreach ($iters as $it) { $s .= $it->valid() ? Rep::of($it->key()) . '=>' . Rep::of($it->current()) . ';' : 'end;'; }
    return $s;
}
function run_case(int $case, Rng $r, string $tier): void {
    $g = new Gen($r);
    $cls = Beast::ALL[$case % count(Beast::ALL)];
    $b = new Beast($cls, $g);
    $b->grow($r->int(0, 20));
    $o = $b->o;
    $iters = [];
    if ($o instanceof \IteratorAggregate) {
        for ($i = $r->int(0, 3); $i > 0; $i--) { $it = $o->getIterator(); $it->rewind(); for ($j = $r->int(0, count($o) + 1); $j > 0 && $it->valid(); $j--) { $it->next(); } $iters[] = $it; }
    }
    $b->odd = 9;
    $calls = 0;
    $b->hook = function (string $w) use ($r, &$calls) { $calls++; if ($r->chance(1, 3)) { throw new Boom("injected in a $w"); } };
    $ops = $b->ops();
    $ops = array_merge($ops, array_values(array_filter(Beast::MUTATORS, fn($m) => in_array($m, $ops, true))));
    for ($i = $r->int(10, 40); $i > 0; $i--) {
        if ($r->chance(1, 8)) { $b->odd = 2; $h = $b->hook; $b->hook = null; $b->grow($r->int(0, 3)); $b->odd = 9; $b->hook = $h; continue; }
        $m = $r->pick($ops);
        if (in_array($m, ['@foreach', '@each', '@iter'], true) && $b->fam === 'heap') { continue; }
        [$desc, $f] = $b->prepare($m);
        $before = Beast::snap($o); $ib = iters_snap($iters); $copy = null;
        $cap = method_exists($o, 'capacity') ? $o->capacity() : 0;
        $multi = in_array($m, ['push', 'pushFront', 'unshift', 'insert', 'pushInts', 'pushBits'], true);
        if ($multi && !str_starts_with($cls, 'Empty')) { $copy = clone $o; }
        Rec::op("$cls::$m", $desc);
        $got = outcome($f);
        if ($got[0] === 'ret') { continue; }
        Rec::count('failed operations observed');
        Rec::count('failed with ' . $got[1]);
        $after = Beast::snap($o);
        if ($after !== $before && $multi && $copy !== null) {
            // several values: the valid ones before the offending one may have been stored
            check(prefix_stored($copy, $m, $desc, $f, $after), "$cls::$m:state-after-failure", fn() => "$desc threw {$got[1]} and changed it from $before to $after");
            Rec::count('several values: a prefix was stored');
            $iters = [];
        } else {
            check($after === $before, "$cls::$m:state-after-failure", fn() => "$desc threw {$got[1]} and changed it from $before to $after");
            $ia = iters_snap($iters);
            check($ia === $ib, "$cls::$m:iterators-after-failure", fn() => "$desc threw {$got[1]} and moved its iterators from $ib to $ia on $before");
        }
        Rec::state("$cls $m {$got[1]} " . count($o));
        Beast::consistent($o, "$desc threw");
    }
}
/** Does some strict prefix of the values, applied to the copy, give the state seen? The arguments are recovered from the closure. */
function prefix_stored(object $copy, string $m, string $desc, \Closure $f, string $after): bool {
    $args = (new \ReflectionFunction($f))->getStaticVariables()['args'];
    $fixed = $m === 'insert' ? 1 : 0;
    for ($n = count($args) - 1; $n > $fixed; $n--) {
        $c = clone $copy;
        $t = outcome(fn() => weak_call($c, $m, array_slice($args, 0, $n)));
        if ($t[0] === 'ret' && Beast::snap($c) === $after) { return true; }
    }
    return false;
}
