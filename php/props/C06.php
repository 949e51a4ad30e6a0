<?php
function run_case(int $case, Rng $r, string $tier): void {
    if ($case % 10 === 3) { Big::sweep(['IntVector'][intdiv($case, 10) % 1], $case % 40 === 3 ? $r->int(400, 3000) : intdiv($case, 10), $r); return; }
    if ($case % 250 === 11) { Big::seq('IntVector', $r); return; }
    $s = new SeqSubject('IntVector', new Gen($r));
    for ($i = 0, $n = $r->int(5, 60); $i < $n; $i++) { $s->step(); }
}
