<?php
function run_case(int $case, Rng $r, string $tier): void {
    if ($case % 500 === 11) { Big::pairs('CachedIterable', $r); return; }
    $s = new CachedSubject(new Gen($r));
    for ($i = 0, $n = $r->int(2, 30); $i < $n; $i++) { $s->step(); }
    Rec::count('elements taken from sources', $s->log->produced);
}
