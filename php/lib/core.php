<?php
declare(strict_types=1);
/* Core of the monitors: PRNG, canonical value representation, event recorder, violation reporting. */

final class Violation extends \Exception {
    public string $key;
    public function __construct(string $key, string $msg) { parent::__construct($msg); $this->key = $key; }
}

final class Rng {
    private \Random\Randomizer $r;
    public function __construct(string $seed) {
        $this->r = new \Random\Randomizer(new \Random\Engine\Xoshiro256StarStar(hash('sha256', $seed, true)));
    }
    public function int(int $lo, int $hi): int { return $lo >= $hi ? $lo : $this->r->getInt($lo, $hi); }
    public function bool(): bool { return (bool)$this->r->getInt(0, 1); }
    public function chance(int $n, int $d): bool { return $this->r->getInt(1, $d) <= $n; }
    /** @template T @param list<T> $a @return T */
    public function pick(array $a): mixed { return $a[$this->r->getInt(0, count($a) - 1)]; }
    public function shuffle(array $a): array { return $a ? $this->r->shuffleArray($a) : $a; }
    public function bytes(int $n): string { return $n > 0 ? $this->r->getBytes($n) : ''; }
    /** weighted pick: list of [weight, value] */
    public function weighted(array $w): mixed {
        $t = 0;
        foreach ($w as $x) { $t += $x[0]; }
        $k = $this->r->getInt(1, $t);
        foreach ($w as $x) { $k -= $x[0]; if ($k <= 0) { return $x[1]; } }
        return end($w)[1];
    }
    /** size with a bias to small values and powers of two boundaries */
    public function size(int $max): int {
        $k = $this->int(0, 9);
        if ($k < 5) { return $this->int(0, min(6, $max)); }
        if ($k < 8) { return $this->int(0, min(20, $max)); }
        if ($k < 9) { return min($max, max(0, (1 << $this->int(0, 7)) + $this->int(-1, 1))); }
        return $this->int(0, $max);
    }
}

/** Canonical, injective-enough text of a value. Floats bitwise (all NaNs alike), objects by identity. */
final class Rep {
    public static function of(mixed $v, int $depth = 0): string {
        switch (true) {
            case is_int($v): return 'i' . $v;
            case $v === null: return 'N';
            case is_bool($v): return $v ? 'T' : 'F';
            case is_float($v): return is_nan($v) ? 'dNAN' : 'd' . bin2hex(pack('E', $v));
            case is_string($v): return strlen($v) <= 40 ? 's' . strlen($v) . ':' . $v : 'S' . strlen($v) . ':' . hash('xxh64', $v);
            case is_array($v):
                if ($depth > 12) { return 'a*deep*'; }
                $s = 'a' . count($v) . '[';
                foreach ($v as $k => $e) { $s .= (is_int($k) ? $k : "'" . $k . "'") . '=' . self::of($e, $depth + 1) . ','; }
                return $s . ']';
            case is_object($v): return 'o#' . spl_object_id($v) . ':' . $v::class;
            default: return 'r#' . get_resource_id($v);
        }
    }
    public static function list(array $a): string {
        $s = '';
        foreach ($a as $v) { $s .= self::of($v) . ','; }
        return $s;
    }
    public static function pairs(array $ps): string {
        $s = '';
        foreach ($ps as $p) { $s .= self::of($p[0]) . '>' . self::of($p[1]) . ','; }
        return $s;
    }
    public static function same(mixed $a, mixed $b): bool { return self::of($a) === self::of($b); }
    /** short printable form for traces */
    public static function show(mixed $v): string {
        $s = self::of($v);
        $s = preg_replace_callback('/[^\x20-\x7e]/', fn($m) => sprintf('\\x%02x', ord($m[0])), $s);
        return strlen($s) > 120 ? substr($s, 0, 117) . '...' : $s;
    }
    public static function showArgs(array $a): string { return implode(', ', array_map([self::class, 'show'], $a)); }
}

/** What the monitors observed in this process. */
final class Rec {
    public static array $ops = [];
    public static array $counts = [];
    public static array $states = [];
    public static int $events = 0;
    public static int $checks = 0;
    public static array $trace = [];
    public static array $samples = [];
    public static bool $verbose = false;
    public static int $cap = 400000;
    /** violations that do not end the case: key => [count, message, case, trace] */
    public static array $soft = [];
    public static int $case = 0;
    /** nothing is recorded (while a repetition is measured) */
    public static bool $mute = false;

    /** Report a violation and go on with the case (used where a listed finding would otherwise hide what follows). */
    public static function soft(string $key, string $msg): void {
        if (isset(self::$soft[$key])) { self::$soft[$key]['n']++; return; }
        self::$soft[$key] = ['n' => 1, 'key' => $key, 'msg' => $msg, 'case' => self::$case, 'trace' => self::$trace];
    }

    public static function op(string $name, string $desc = ''): void {
        if (self::$mute) { return; }
        self::$ops[$name] = (self::$ops[$name] ?? 0) + 1;
        self::$events++;
        if ($desc !== '') { self::note($desc); }
    }
    public static function note(string $desc): void {
        if (self::$mute) { return; }
        if (count(self::$trace) < 4000) { self::$trace[] = $desc; }
        if (self::$verbose) { fwrite(STDERR, '  ' . $desc . "\n"); }
    }
    public static function count(string $name, int $n = 1): void { if (self::$mute) { return; } self::$counts[$name] = (self::$counts[$name] ?? 0) + $n; }
    public static function max(string $name, int $n): void { self::$counts[$name] = max(self::$counts[$name] ?? 0, $n); }
    public static function state(string $s): void {
        if (!self::$mute && count(self::$states) < self::$cap) { self::$states[substr(hash('xxh64', $s, true), 0, 8)] = true; }
    }
    public static function sample(): void {
        if (count(self::$samples) < 2) {
            $t = self::$trace;
            if (count($t) > 14) { $t = array_merge(array_slice($t, 0, 10), ['... ' . (count($t) - 10) . ' more events']); }
            self::$samples[] = implode(' ; ', $t);
        }
    }
}

function fail(string $key, string $msg): never { throw new Violation($key, $msg); }
function check(bool $ok, string $key, string|\Closure $msg): void {
    Rec::$checks++;
    if (!$ok) { throw new Violation($key, is_string($msg) ? $msg : $msg()); }
}
function checkSame(mixed $got, mixed $want, string $key, string $what): void {
    Rec::$checks++;
    if (($bad = \vmon_wellformed($got)) !== null) { throw new Violation('malformed-result', "$what: $bad"); }
    $g = Rep::of($got); $w = Rep::of($want);
    if ($g !== $w) { throw new Violation($key, "$what: got " . Rep::show($got) . ' want ' . Rep::show($want)); }
}

/** Outcome of running code: ['ret', value] or ['throw', class]. */
function outcome(\Closure $f): array {
    try {
        $r = ['ret', $f()];
        if (($bad = \vmon_wellformed($r[1])) !== null) { throw new Violation('malformed-result', "result: $bad"); }
        return $r;
    }
    catch (Violation $e) { throw $e; }
    catch (\Throwable $e) { return ['throw', $e::class]; }
}

function clsname(object $o): string { $c = $o::class; return substr($c, (int)strrpos($c, '\\') + 1); }

/** Object whose lifetime is counted. */
class Obj {
    public static int $made = 0;
    public static int $dead = 0;
    public static array $twice = [];
    public int $n;
    private bool $gone = false;
    public mixed $link = null;
    public function __construct() { $this->n = self::$made++; }
    public function __destruct() {
        self::$dead++;
        if ($this->gone) { self::$twice[] = $this->n; }
        $this->gone = true;
    }
}
enum Suit { case A; case B; case C; }
