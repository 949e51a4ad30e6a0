<?php
function run_case(int $case, Rng $r, string $tier): void {
    if ($case % 10 === 3) { Big::sweep(['StrictMinHeap', 'StrictMaxHeap'][intdiv($case, 10) % 2], $case % 40 === 3 ? $r->int(400, 3000) : intdiv($case, 20), $r); return; }
    if ($case % 250 === 11) { Big::heap(['StrictMinHeap', 'StrictMaxHeap'][intdiv($case, 250) % 2], $r); return; }
    $s = new HeapSubject($r->pick(['StrictMinHeap', 'StrictMaxHeap']), new Gen($r));
    for ($i = 0, $n = $r->int(4, 40); $i < $n; $i++) { $s->step(); }
}
