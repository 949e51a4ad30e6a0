<?php
function run_case(int $case, Rng $r, string $tier): void {
    if ($case % 10 === 3) { Big::sweep(['SortedIntVectorSet', 'ImmutableSortedIntSet', 'ImmutableSortedStringSet'][intdiv($case, 10) % 3], $case % 40 === 3 ? $r->int(400, 3000) : intdiv($case, 30), $r); return; }
    if ($case % 250 === 11) { Big::dict(['SortedIntVectorSet', 'ImmutableSortedIntSet', 'ImmutableSortedStringSet'][intdiv($case, 250) % 3], $r); return; }
    if ($case % 12 === 5) { (new DictSubject('SortedIntVectorSet', new Gen($r), null, 0))->edge($tier === 'quick' ? 7 : 9); return; }
    $s = new DictSubject($r->pick(['SortedIntVectorSet', 'ImmutableSortedIntSet', 'ImmutableSortedStringSet']), new Gen($r));
    for ($i = 0, $n = $r->int(4, 40); $i < $n; $i++) { $s->step(); }
}
