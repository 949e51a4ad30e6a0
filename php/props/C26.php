<?php
/* All views agree, and every return value has its declared type. */
function run_case(int $case, Rng $r, string $tier): void {
    $g = new Gen($r);
    $b = new Beast(Beast::ALL[$case % count(Beast::ALL)], $g);
    Beast::consistent($b->o, 'construction');
    $b->grow($r->int(0, 25));
    Beast::consistent($b->o, 'a random history');
    Rec::state($b->cls . Beast::snap($b->o));
    $ops = $b->ops();
    for ($i = $r->int(4, 18); $i > 0; $i--) {
        $m = $r->pick($ops);
        [$desc, $f, $rm] = $b->prepare($m) + [2 => null];
        Rec::op("{$b->cls}::$m", $desc);
        $got = outcome($f);
        if ($got[0] === 'ret' && $rm !== null) {
            $t = $rm->getReturnType() ?? $rm->getTentativeReturnType();
            check(TypeMonitor::ok($t, $got[1]), "{$b->cls}::$m:return-type", fn() => "$desc returned " . Rep::show($got[1]) . ", declared $t");
            Rec::count('return values matched against the declared type');
            if ($rm->isStatic() && is_object($got[1]) && $got[1] instanceof \Teds\Collection) {
                check($got[1]::class === $b->o::class, "{$b->cls}::$m:class", "$desc returned a " . $got[1]::class);
                Beast::consistent($got[1], $desc);
            }
        }
        if ($got[0] === 'ret' && is_object($got[1]) && in_array($m, ['map', 'filter', '@clone'], true)) { Beast::consistent($got[1], $desc); }
        Beast::consistent($b->o, $desc);
        Rec::state($b->cls . $m . $got[0] . get_debug_type($got[1]) . count($b->o));
    }
    if ($b->cls === 'LowMemoryVector' || $b->fam === 'heap' && false) { return; }
    // debug output and var_export announce as many entries as there are
    ob_start(); var_dump($b->o); $d = ob_get_clean();
    if (!str_starts_with($b->cls, 'Empty')) { check((bool)preg_match('/^object\(Teds.\w+\)#\d+ \((\d+)\)/', $d, $mm) && (int)$mm[1] === count($b->o), "{$b->cls}:views-disagree", fn() => 'var_dump shows ' . substr($d, 0, 60) . ' for ' . count($b->o) . ' entries'); }
    // contracts of the interfaces
    foreach (['seq' => \Teds\Sequence::class, 'map' => \Teds\Map::class, 'set' => \Teds\Set::class] as $f => $i) { check(($b->fam === $f) === $b->o instanceof $i, "{$b->cls}:interface", "implements $i"); }
    check($b->o instanceof \Teds\Collection && $b->o instanceof \Countable && $b->o instanceof \Traversable, "{$b->cls}:interface", 'Collection');
}
