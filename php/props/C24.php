<?php
/* Running out of memory at any point ends cleanly. An operation is run in forked children, with its 1st, 2nd, ... allocation
   failing the way memory_limit makes it fail: fatal error, shutdown functions (which still see the collections), release of
   everything. The sanitizers and the heap monitor watch the child to its last instruction. */
final class Fault {
    public static array $subjects = [];
    public static int $parent = 0;
    public static string $file = '';
    /** run by PHP in the child after the fatal error: user code that still uses the collections */
    public static function shutdown(): void {
        if (getmypid() === self::$parent) { return; }
        vmon_fail_after(0);
        foreach (self::$subjects as $o) { self::probe($o); }
        self::$subjects = [];
        echo 'SHUTDOWN-COMPLETE';
    }
    public static function probe(object $o): void {
        $try = function (\Closure $f) { try { $f(); } catch (\Throwable) { } };
        $try(fn() => count($o)); $try(fn() => $o->values()); $try(fn() => (array)$o); $try(fn() => $o->toArray()); $try(fn() => $o->contains(1));
        if (!($o instanceof \Iterator)) { $try(fn() => clone $o); } // PHP 8.3.6 itself goes wrong when an InternalIterator is cloned
        if ($o instanceof \Iterator) { $try(function () use ($o) { $o->key(); $o->current(); $o->next(); $o->valid(); }); return; }
        if ($o instanceof \IteratorAggregate && !($o instanceof \Teds\StrictMinHeap || $o instanceof \Teds\StrictMaxHeap)) { $try(function () use ($o) { $n = 0; foreach ($o as $k => $v) { if (++$n > 100) { break; } } }); }
        if ($o instanceof \Teds\Sequence) { $try(fn() => $o->push(true)); $try(fn() => $o->push(5)); $try(fn() => $o->push(1 << 40)); $try(fn() => $o[0]); $try(fn() => $o->pop()); $try(fn() => $o->indexOf(5)); }
        elseif ($o instanceof \Teds\Map) { $try(function () use ($o) { $o[7] = 8; }); $try(function () use ($o) { unset($o[7]); }); $try(fn() => $o->keys()); }
        elseif (method_exists($o, 'add')) { $try(fn() => $o->add(7)); $try(fn() => $o->remove(7)); $try(fn() => $o->extract()); }
        elseif (method_exists($o, 'push')) { $try(fn() => $o->push(7, 8)); $try(fn() => $o->pop()); }
        elseif (method_exists($o, 'keyAt')) { $try(fn() => $o->keyAt(0)); $try(fn() => $o->valueAt(count($o) - 1)); }
        if (method_exists($o, 'clear')) { $try(fn() => $o->clear()); $try(fn() => count($o)); }
    }
    /** Runs $f in a child. 'done': it finished; 'fatal': PHP's fatal error and a clean shutdown; anything else is an outcome to report. */
    public static function run(\Closure $f, int $failAt): array {
        $pid = pcntl_fork();
        if ($pid < 0) { throw new \Exception('fork failed'); }
        if ($pid === 0) {
            try {
                vmon_child(self::$file);
                set_error_handler(null);
                vmon_fail_after($failAt);
                $x = $f();
                vmon_fail_after(0);
                $n = self::$subjects ? 1 : 0;
            } catch (\Throwable $e) { vmon_fail_after(0); $x = null; vmon_exit(3); }
            vmon_exit($x === 'wrong' ? 4 : 0);
        }
        pcntl_waitpid($pid, $status);
        $log = (string)@file_get_contents(self::$file);
        if (pcntl_wifsignaled($status)) { return ['signal ' . pcntl_wtermsig($status), $log]; }
        $rc = pcntl_wexitstatus($status);
        if ($rc === 255 && str_contains($log, 'SHUTDOWN-COMPLETE')) { return ['fatal', $log]; }
        return [match ($rc) { 0 => 'done', 3 => 'thrown', 4 => 'wrong', 97 => 'heap monitor report', 98 => 'sanitizer report', default => "exit $rc" }, $log];
    }
}
function describe(string $log): string {
    if (preg_match('/VMON-REPORT: (\S+)/', $log, $m)) { $k = $m[1]; } elseif (preg_match('/AddressSanitizer:? (\S+)/', $log, $m)) { $k = $m[1]; } elseif (preg_match('/runtime error: ([^\n]{0,80})/', $log, $m)) { $k = preg_replace('/0x[0-9a-f]+|-?\d+/', 'N', $m[1]); } else { $k = 'died'; }
    return $k . (preg_match('/ in (teds_\w+|zim_\w+) |teds\.so\((\w+)\+/', $log, $m) ? ' in ' . ($m[1] ?: $m[2]) : '');
}
/** what is tried: [label, closure]; built beforehand, so that only the operation allocates */
function operation(Beast $b, Rng $r): array {
    $cls = $b->cls; $fq = $b->fq; $o = $b->o;
    $pairs = $b->fam === 'map' || $b->fam === 'pairs';
    switch ($r->int(0, 11)) {
        case 0: try { $s = serialize($o); } catch (\Exception) { $s = serialize([]); } return ['unserialize', fn() => unserialize($s)];
        case 1: $a = $pairs ? $o->toPairs() : $o->values(); return $pairs ? ($r->bool() ? ['fromPairs', fn() => $fq::fromPairs($a)] : ['new from generator', fn() => new $fq(Beast::gen($a))]) : ($b->fam === 'heap' ? ['__set_state', fn() => $fq::__set_state($a)] : ['new from array', fn() => new $fq($a)]);
        case 2: $a = $pairs ? $o->toPairs() : $o->values(); return ['__set_state', fn() => $fq::__set_state($a)];
        case 3: if ($b->fam === 'heap') { return ['clone', fn() => clone $o]; } $a = $o->values(); return ['new from generator', $pairs ? fn() => new $fq((function () use ($a) { yield from $a; })()) : fn() => new $fq((function () use ($a) { yield from $a; })())];
        case 4: return ['clone', fn() => clone $o];
        case 5: case 6: case 7: case 8:
            $ms = array_values(array_filter(Beast::MUTATORS, fn($m) => $m[0] === '@' ? $o instanceof \ArrayAccess : method_exists($o, $m)));
            if ($ms && !in_array($cls, Beast::IMMUTABLE, true)) { // several in a row, so that it grows
                $gs = array_values(array_intersect($ms, ['insert', 'push', 'pushFront', 'unshift', '@append', 'add', '@set', '@offsetSet', 'setSize'])); // those that may need room
                $m = $gs && $r->chance(2, 3) ? $r->pick($gs) : $r->pick($ms); $fs = []; for ($i = $r->pick([1, 1, 5, 40]); $i > 0; $i--) { $fs[] = $b->prepare($m)[1]; }
                return ["$m x" . count($fs), function () use ($fs) { foreach ($fs as $f) { try { $f(); } catch (\Exception | \Error) { } } }];
            }
            // no break
        default:
            $ops = array_values(array_diff($b->ops(), ['@dump', '__construct'])); $m = $r->pick($ops);
            [$d, $f] = $b->prepare($m);
            return [$m, $f];
    }
}
function absurd(Rng $r, int $case): void {
    $sizes = [1 << 24, 1 << 28, (1 << 28) + 1, 1 << 29, 1 << 30, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 3, (1 << 33) + 1, (1 << 35) + 8, 1 << 58, (1 << 58) + 2, (1 << 59) + 1, 1 << 60, (1 << 60) + 1, (1 << 60) - 1, (1 << 61) + 8, (1 << 62) + 4, PHP_INT_MAX - 7, PHP_INT_MAX - 1, PHP_INT_MAX];
    [$cls, $m] = $r->pick([['Vector', 'setSize'], ['Vector', 'reserve'], ['BitVector', 'setSize'], ['MutableIterable', 'setSize'], ['Vector', 'setSize value']]);
    $g = new Gen($r); $b = new Beast($cls, $g, null, $r->int(0, 20)); $b->grow($r->int(0, 6)); $o = $b->o;
    $n = $r->pick($sizes); if ($r->chance(1, 3)) { $n = (int)min(PHP_INT_MAX, $n + $r->int(0, 70)); }
    $had = count($o);
    Fault::$subjects = [$o];
    vmon_limit(200 << 20);
    $f = function () use ($o, $m, $n, $had) {
        $before = vmon_bytes();
        if ($m === 'reserve') { $o->reserve($n); if ($o->capacity() < $n || vmon_bytes() - $before < $n * 8) { return 'wrong'; } return null; }
        if ($m === 'setSize value') { $o->setSize($n, 5); } else { $o->setSize($n); }
        return count($o) !== $n || vmon_bytes() - $before < intdiv($n, 16) ? 'wrong' : null;
    };
    Rec::op("$cls::$m absurd", "$cls of $had: $m($n)");
    [$res, $log] = Fault::run($f, 0);
    vmon_limit(0);
    Rec::count("absurd sizes: $res");
    Rec::state("$cls $m $n $had");
    check(in_array($res, ['done', 'thrown', 'fatal'], true), "$cls:$m:absurd size", fn() => "$cls of $had: $m($n) gave $res: " . describe($log) . "\n" . substr($log, 0, 3000));
    Fault::$subjects = [];
}
function run_case(int $case, Rng $r, string $tier): void {
    static $ready = false;
    if (!$ready) {
        $ready = true; Fault::$parent = getmypid(); Fault::$file = tempnam(sys_get_temp_dir(), 'vf');
        register_shutdown_function([Fault::class, 'shutdown']);
        $file = Fault::$file; $p = Fault::$parent; register_shutdown_function(function () use ($file, $p) { if (getmypid() === $p) { @unlink($file); } });
    }
    if ($case % 12 === 11) { absurd($r, $case); return; }
    $g = new Gen($r);
    $b = new Beast(Beast::REAL[$case % count(Beast::REAL)], $g, null, $r->bool() ? null : $r->int(0, 6));
    $b->odd = 1; $b->oddKind = $r->pick(['mixed', 'scalar']);
    $b->grow($r->int(0, 12));
    [$label, $f] = operation($b, $r);
    $o = $b->o;
    Fault::$subjects = [$o];
    if ($o instanceof \IteratorAggregate) { $it = $o->getIterator(); if ($it instanceof \Iterator) { try { $it->rewind(); } catch (\Exception) { } Fault::$subjects[] = $it; } }
    $n0 = count($o);
    $max = $tier === 'thorough' ? 120 : 40; $at = 0; $tries = 0; $injected = 0;
    while (true) {
        $at += $at < 10 ? 1 : $r->int(1, 1 + intdiv($at, 6));
        if (++$tries > $max) { break; }
        [$res, $log] = Fault::run($f, $at);
        Rec::op("{$b->cls} $label", "$label on {$b->cls} of $n0 with allocation $at failing: $res");
        if ($res === 'done' || $res === 'thrown') { Rec::count('operations that completed once no allocation failed'); break; }
        check($res === 'fatal', "{$b->cls}:$label:" . preg_replace('/ x\d+$/', '', $res), fn() => "$label on {$b->cls} of $n0 with allocation $at failing: $res: " . describe($log) . "\n" . substr($log, 0, 4000));
        $injected++;
        Rec::state("{$b->cls} $label $at $n0");
    }
    Rec::count('allocation failures injected', $injected);
    Fault::$subjects = [];
}
