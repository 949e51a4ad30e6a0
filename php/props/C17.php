<?php
function run_case(int $case, Rng $r, string $tier): void {
    if ($case % 10 === 3) { Big::sweep(['MutableIterable', 'ImmutableIterable'][intdiv($case, 10) % 2], $case % 40 === 3 ? $r->int(400, 3000) : intdiv($case, 20), $r); return; }
    if ($case % 250 === 11) { Big::pairs(['ImmutableIterable', 'MutableIterable'][intdiv($case, 250) % 2], $r); return; }
    $s = new PairsSubject($r->pick(['ImmutableIterable', 'MutableIterable', 'MutableIterable', 'MutableIterable']), new Gen($r));
    for ($i = 0, $n = $s->cls === 'ImmutableIterable' ? $r->int(1, 6) : $r->int(4, 45); $i < $n; $i++) { $s->step(); }
    $s->verify(true);
}
