<?php
/* Memory safety under re-entrant programs. */
function run_case(int $case, Rng $r, string $tier): void {
    static $installed = false;
    if (!$installed) {
        $installed = true;
        $prev = set_error_handler(null);
        set_error_handler(function (...$a) use ($prev) { $prev(...$a); World::poke('error handler'); return true; });
    }
    $only = $case % 4 === 0 ? null : Beast::REAL[intdiv($case, 4) % count(Beast::REAL)];
    $w = new World((string)$r->int(0, PHP_INT_MAX), $only);
    $w->run($r->int(5, 60));
    $w->verify();
    Rec::count('re-entrant operations', $w->reentries);
    $w->end($r->bool());
    if ($r->chance(1, 4)) { gc_collect_cycles(); }
    Rec::$checks++;
}
