<?php
function run_case(int $case, Rng $r, string $tier): void {
    if ($case % 10 === 3) { Big::sweep(['StrictHashMap', 'StrictHashSet'][intdiv($case, 10) % 2], $case % 40 === 3 ? $r->int(400, 3000) : intdiv($case, 20), $r); return; }
    if ($case % 250 === 11) { Big::dict(['StrictHashMap', 'StrictHashSet'][intdiv($case, 250) % 2], $r); return; }
    if ($case % 12 === 5) { (new DictSubject($r->pick(['StrictHashMap', 'StrictHashSet']), new Gen($r), null, 0))->edge($tier === 'quick' ? 7 : 9); return; }
    $s = new DictSubject($r->pick(['StrictHashMap', 'StrictHashSet']), new Gen($r));
    for ($i = 0, $n = $r->int(4, 40); $i < $n; $i++) { $s->step(); }
}
