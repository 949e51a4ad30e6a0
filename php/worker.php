<?php
declare(strict_types=1);
/* Runs cases [from,to) of one property. Every case is a function of (property, seed, case number) only. */
[, $prop, $seed, $tier, $from, $to, $out] = $argv;
$verbose = (bool)getenv('VERBOSE');
error_reporting(E_ALL);
foreach (['core', 'gen', 'weak', 'seq', 'dict', 'misc', 'zoo', 'wild', 'big'] as $f) { if (is_file(__DIR__ . "/lib/$f.php")) { require __DIR__ . "/lib/$f.php"; } }
set_error_handler(static function (int $no, string $msg) { Rec::count('php diagnostics: ' . substr(preg_replace(['/\'[^\']*\'/', '/property \w+::.*is/s', '/constant \w.*/s', '/-?[0-9][0-9.e+\-E]*/'], ["'..'", 'property .. is', 'constant ..', 'N'], $msg), 0, 70)); return true; });
require __DIR__ . "/props/$prop.php";
Rec::$verbose = $verbose;
$progress = fopen("$out.progress", 'w');
$viol = [];
$done = 0;
$start = hrtime(true);
for ($case = (int)$from; $case < (int)$to; $case++) {
    fseek($progress, 0); fwrite($progress, sprintf('%12d', $case)); fflush($progress);
    Rec::$trace = [];
    Rec::$case = $case;
    if ($verbose) { fwrite(STDERR, "case $case\n"); }
    $rng = new Rng("$prop/$seed/$case");
    try {
        run_case($case, $rng, $tier);
        $done++;
    } catch (Violation $e) {
        $viol[] = ['case' => $case, 'key' => $e->key, 'msg' => $e->getMessage(), 'trace' => Rec::$trace];
    } catch (\Throwable $e) {
        $viol[] = ['case' => $case, 'key' => 'unexpected ' . $e::class, 'msg' => $e::class . ': ' . $e->getMessage() . ' at ' . basename($e->getFile()) . ':' . $e->getLine(), 'trace' => Rec::$trace];
    }
    if (function_exists('vmon_check') && ($case & 7) === 0) { vmon_check(); }
    Rec::sample();
    if (count($viol) >= 5) { break; }
}
if (function_exists('vmon_check')) { vmon_check(); }
$blocks = function_exists('vmon_cov_dump') ? vmon_cov_dump("$out.cov") : 0;
file_put_contents("$out.states", implode('', array_map('strval', array_keys(Rec::$states))));
file_put_contents("$out.json", json_encode(['done' => $done, 'violations' => $viol, 'soft' => array_values(Rec::$soft), 'ops' => Rec::$ops, 'counts' => Rec::$counts, 'events' => Rec::$events,
    'checks' => Rec::$checks, 'samples' => Rec::$samples, 'vmon' => function_exists('vmon_stats') ? vmon_stats() : [], 'ms' => (int)((hrtime(true) - $start) / 1e6)],
    JSON_INVALID_UTF8_SUBSTITUTE | JSON_PARTIAL_OUTPUT_ON_ERROR));
