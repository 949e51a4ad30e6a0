<?php
/* Unserializing hostile data is safe and never yields a broken object. */

/** User objects inside the data: they meet the other objects of the data before those are complete. */
class Poker {
    public static ?\Closure $poke = null;
    public mixed $a = null; public mixed $b = null;
    public function __wakeup(): void { if (self::$poke) { (self::$poke)('wakeup', [$this->a, $this->b]); } }
    public function __destruct() { if (self::$poke) { (self::$poke)('destructor', [$this->a, $this->b]); } }
}
final class Poker2 {
    public mixed $a = null; public mixed $b = null;
    public function __unserialize(array $d): void { $this->a = $d[0] ?? null; $this->b = $d[1] ?? null; if (Poker::$poke) { (Poker::$poke)('__unserialize', $d); } }
    public function __serialize(): array { return [$this->a, $this->b]; }
}
enum Flag: string { case On = 'on'; case Off = 'off'; }

/** Writes serialized data from a grammar that knows the formats of all classes, and breaks it in places. */
final class Forge {
    public int $slot = 0; public array $objects = []; public array $scalars = []; public int $budget = 40;
    public function __construct(public Rng $r, public Gen $g, public bool $refs) {}
    public function value(int $depth): string {
        $r = $this->r;
        if ($this->refs && $r->chance(1, 8)) { // a reference shares the slot
            $to = $r->chance(1, 6) ? $r->int(0, $this->slot + 2) : ($r->bool() && $this->objects ? $r->pick($this->objects) : ($this->scalars ? $r->pick($this->scalars) : 1));
            return "R:$to;";
        }
        $me = ++$this->slot;
        if ($r->chance(1, 7) && $this->objects) { return 'r:' . ($r->chance(1, 8) ? $r->int(0, $me + 2) : $r->pick($this->objects)) . ';'; }
        $k = $r->int(0, 15);
        if ($depth >= 4 || $this->budget-- <= 0) { $k %= 8; }
        if ($k < 8) { $this->scalars[] = $me; return $this->scalar($r->pick(['tiny', 'tiny', 'int', 'edge', 'float', 'string', 'string', 'bool', 'null', 'strint'])); }
        if ($k < 10) { $n = $r->int(0, 3); $s = "a:$n:{"; for ($i = 0; $i < $n; $i++) { $s .= ($r->bool() ? "i:$i;" : serialize($this->g->string())) . $this->value($depth + 1); } return $s . '}'; }
        $this->objects[] = $me;
        if ($k < 11) { $n = $r->int(0, 2); $s = "O:8:\"stdClass\":$n:{"; for ($i = 0; $i < $n; $i++) { $s .= "s:1:\"" . chr(97 + $i) . '";' . $this->value($depth + 1); } return $s . '}'; }
        if ($k < 12) { return $r->bool() ? 'O:5:"Poker":2:{s:1:"a";' . $this->value($depth + 1) . 's:1:"b";' . $this->value($depth + 1) . '}' : 'O:6:"Poker2":2:{i:0;' . $this->value($depth + 1) . 'i:1;' . $this->value($depth + 1) . '}'; }
        if ($k < 13 && $r->bool()) { return $r->pick(['E:7:"Flag:On";', 'E:19:"Teds\EmptySet:INSTANCE";', 'E:22:"Teds\EmptySet:INSTANCE";', 'E:27:"Teds\EmptySequence:INSTANCE";', 'E:22:"Teds\EmptyMap:INSTANCE";', 'E:9:"Flag:Nope";', 'O:13:"Teds\EmptySet":0:{}', 'O:17:"Teds\EmptySequence":1:{i:0;i:1;}']); }
        return $this->collection($r->pick(Beast::REAL), $depth);
    }
    private function scalar(string $kind): string { return serialize($this->g->val($kind)); }
    private function binary(string $cls): string {
        $r = $this->r;
        $w = 1 << $r->int(0, 3); $n = $r->int(0, 6);
        if ($cls === 'BitVector') { return $r->pick(["\0", "\0\1", chr($r->int(0, 255)) . $r->bytes($n), $r->bytes($r->int(0, 20)), $r->bytes(8 * $r->int(0, 3)) . chr($r->int(0, 9))]); }
        if ($cls === 'ImmutableSortedStringSet') {
            $ss = []; while ($n-- > 0) { $ss[] = $this->g->string(); }
            if ($r->chance(2, 3)) { sort($ss, SORT_STRING); if ($r->chance(3, 4)) { $ss = array_values(array_unique($ss)); } }
            $o = \Teds\ImmutableSortedStringSet::__set_state($ss);
            $b = $o->serialize();
            if ($r->bool() && $b !== '') { $i = $r->int(0, strlen($b) - 1); $b[$i] = $r->pick(["\0", "\xff", "\xfe", "\xfd", "\x01", chr($r->int(0, 255))]); }
            if ($r->chance(1, 4)) { $b = substr($b, 0, $r->int(0, strlen($b))); }
            if ($r->chance(1, 4)) { $b .= $r->bytes($r->int(1, 6)); }
            if ($r->chance(1, 8)) { $b = "\xff" . pack('P', $r->pick([0, 1, 5, 255, 1 << 32, -1, PHP_INT_MAX, PHP_INT_MIN])) . $b; }
            return $b;
        }
        $vals = []; $lim = (1 << ($w * 8 - 1));
        while ($n-- > 0) { $vals[] = $w === 8 ? $this->g->val('edge') : $r->int(-$lim, $lim - 1); }
        if ($r->chance(2, 3)) { sort($vals); if ($r->chance(3, 4)) { $vals = array_values(array_unique($vals)); } }
        $s = '';
        foreach ($vals as $v) { $s .= substr(pack('q', $v), 0, $w); }
        if ($r->chance(1, 6)) { $s .= $r->bytes($r->int(1, 3)); }
        return $s;
    }
    public function collection(string $cls, int $depth): string {
        $r = $this->r; $fam = Beast::family($cls);
        $items = [];
        if ($r->chance(1, 6)) { for ($n = $r->int(0, 4); $n > 0; $n--) { $items[] = $this->value($depth + 1); } }
        elseif ($cls === 'LowMemoryVector' && $r->chance(2, 3)) {
            $t = $r->int(-1, 10); $w = 1 << $r->int(0, 3);
            $bytes = $r->bytes($r->bool() ? $w * $r->int(0, 5) : $r->int(0, 17));
            if ($r->chance(1, 3)) { $bytes = str_repeat(chr($r->int(0, 4)), $r->int(0, 9)); }
            $this->slot += 2;
            $items = [serialize($t), serialize($bytes)];
            if ($r->chance(1, 3)) { $this->slot -= 1; if ($r->chance(1, 4)) { $t = 7; } $items = [serialize($t)]; if ($r->chance(1, 4)) { $this->slot++; $items[] = 'a:0:{}'; } else for ($n = $r->int(0, 4); $n > 0; $n--) { $items[] = $this->value($depth + 1); } }
        } elseif (str_contains($cls, 'Int')) { $this->slot += 2; $items = [serialize($r->int(-1, 9)), serialize($this->binary($cls))]; }
        elseif ($cls === 'BitVector' || $cls === 'ImmutableSortedStringSet') { $this->slot++; $items = [serialize($this->binary($cls))]; }
        else {
            $n = $r->int(0, 4) * ($fam === 'map' || $fam === 'pairs' ? 2 : 1);
            if ($r->chance(1, 10)) { $n++; }
            while ($n-- > 0) { $items[] = $this->value($depth + 1); }
        }
        if ($depth === 0 && $r->chance(1, 3)) { // someone inside who knows the whole
            $this->slot += 2; $p = $r->bool() ? 'O:6:"Poker2":1:{i:0;r:1;}' : 'O:5:"Poker":1:{s:1:"a";r:1;}';
            array_splice($items, $r->int(0, count($items)), 0, [$p]);
        }
        if ($r->chance(1, 12)) { array_pop($items); }
        if ($r->chance(1, 12)) { $items[] = $this->value($depth + 1); }
        $s = '';
        foreach ($items as $i => $x) { $s .= ($r->chance(1, 30) ? $r->pick(['i:0;', 'i:-1;', 's:1:"k";', 'i:100;', 's:1:"0";']) : "i:$i;") . $x; }
        $name = "Teds\\$cls";
        return 'O:' . strlen($name) . ":\"$name\":" . (count($items) + ($r->chance(1, 40) ? $r->int(-1, 1) : 0)) . ':{' . $s . '}';
    }
    /** what the class itself would write, with exactly one flaw */
    public function flawed(string $cls): string {
        $r = $this->r; $g = $this->g; $fam = Beast::family($cls); $name = "Teds\\$cls";
        $n = $r->bool() ? $r->int(1, 6) : max(1, $r->size(60));
        $flaw = $r->pick(['string key', 'string key', 'count', 'equal', 'equal', 'order', 'type', 'reference']);
        $wrap = fn(array $items, array $keys = []) => 'O:' . strlen($name) . ":\"$name\":" . count($items) . ':{' . implode('', array_map(fn($i, $x) => ($keys[$i] ?? "i:$i;") . $x, array_keys($items), $items)) . '}';
        if (str_contains($cls, 'Int')) {
            $t = $r->int(1, 4); $w = 1 << ($t - 1); $lim = $w === 8 ? PHP_INT_MAX : (1 << ($w * 8 - 1)) - 1;
            $vals = []; for ($i = 0; $i < $n; $i++) { $vals[] = $w === 8 && $r->bool() ? $g->val('edge') : $r->int(-$lim - 1, $lim); }
            $vals = array_values(array_unique($vals)); sort($vals); $n = count($vals); $i = $r->int(0, $n - 1);
            if ($flaw === 'equal') { array_splice($vals, $i, 0, [$vals[$i]]); }
            if ($flaw === 'order' && $n > 1) { $j = $r->bool() ? ($i + 1) % $n : $r->int(0, $n - 1); [$vals[$i], $vals[$j]] = [$vals[$j], $vals[$i]]; }
            $b = ''; foreach ($vals as $v) { $b .= substr(pack('q', $v), 0, $w); }
            if ($flaw === 'count') { $b = substr($b, 0, -1); }
            if ($flaw === 'type') { $t = $r->int(0, 6); }
            return $wrap([serialize($t), serialize($b)], $flaw === 'string key' ? [$r->int(0, 1) => 's:1:"k";'] : []);
        }
        if ($cls === 'ImmutableSortedStringSet') {
            $vals = $g->vals('string', $n); $vals = array_values(array_unique($vals)); sort($vals, SORT_STRING); $n = count($vals); $i = $r->int(0, $n - 1);
            if ($flaw === 'equal') { array_splice($vals, $i, 0, [$vals[$i]]); }
            if ($flaw === 'order' && $n > 1) { $j = $r->bool() ? ($i + 1) % $n : $r->int(0, $n - 1); [$vals[$i], $vals[$j]] = [$vals[$j], $vals[$i]]; }
            // the format itself is learnt from the class: only the order of the members is broken here
            $o = \Teds\ImmutableSortedStringSet::__set_state($vals)->serialize();
            if ($flaw === 'count') { $o = $r->bool() ? substr($o, 0, -1) : $o . $r->pick(["\0", "\1", 'a']); return $wrap([serialize($o)]); }
            if ($flaw === 'order' || $flaw === 'equal') { // swap or repeat parts of equal length
                $u = array_values(array_unique(array_map(fn($x) => substr(str_pad($x, 3, 'x'), 0, 3), $vals))); sort($u, SORT_STRING);
                $o = \Teds\ImmutableSortedStringSet::__set_state($u)->serialize();
                if (count($u) > 1) { $i = $r->int(0, count($u) - 2); $o = $flaw === 'equal' ? str_replace($u[$i + 1], $u[$i], $o) : strtr($o, [$u[$i] => $u[$i + 1], $u[$i + 1] => $u[$i]]); }
            }
            return $wrap([serialize($o)], $flaw === 'string key' ? ['s:1:"k";'] : []);
        }
        if ($cls === 'BitVector' || $cls === 'LowMemoryVector') {
            $b = new Beast($cls, $g, $r->pick(['bool', 'tiny', 'int', 'float', 'plain', 'string']), 0); $b->o = $b->build($n);
            $items = array_map(serialize(...), $b->o->__serialize()); $i = $r->int(0, max(0, count($items) - 1));
            if ($flaw === 'count') { array_pop($items); } elseif ($flaw === 'type' && $items) { $items[$i] = serialize($g->fresh('plain')); }
            return $wrap($items, $flaw === 'string key' ? [$i => 's:1:"k";'] : []);
        }
        $pairs = $fam === 'map' || $fam === 'pairs'; $vals = [];
        for ($i = 0; $i < $n; $i++) { $vals[] = [$g->val($r->pick(['plain', 'string', 'tiny', 'float'])), $g->val('plain')]; }
        if (str_contains($cls, 'Tree') || str_contains($cls, 'Sorted')) { usort($vals, fn($a, $b) => \Teds\stable_compare($a[0], $b[0])); }
        $i = $r->int(0, $n - 1);
        if ($flaw === 'equal') { array_splice($vals, $i, 0, [[$vals[$i][0], $g->val('plain')]]); }
        if ($flaw === 'order' && $n > 1) { $j = $r->bool() ? ($i + 1) % $n : $r->int(0, $n - 1); [$vals[$i], $vals[$j]] = [$vals[$j], $vals[$i]]; }
        $items = [];
        foreach ($vals as $v) { $items[] = serialize($v[0]); if ($pairs) { $items[] = serialize($v[1]); } }
        if ($flaw === 'count') { array_pop($items); }
        if ($flaw === 'reference' && !array_filter($vals, fn($v) => is_array($v[0]) || is_array($v[1]) || is_object($v[0]) || is_object($v[1]))) { $items[$r->int(1, max(1, count($items) - 1))] = 'R:2;'; $items = array_values($items); }
        return $wrap($items, $flaw === 'string key' ? [$r->int(0, max(0, count($items) - 1)) => $r->pick(['s:1:"k";', 's:0:"";'])] : []);
    }
    /** damages data */
    public function damage(string $s): string {
        $r = $this->r;
        for ($n = $r->int(1, 3); $n > 0 && $s !== ''; $n--) {
            $i = $r->int(0, strlen($s) - 1);
            switch ($r->int(0, 7)) {
                case 0: $s[$i] = chr(ord($s[$i]) ^ (1 << $r->int(0, 7))); break;
                case 1: $s = substr($s, 0, $i); break;
                case 2: $s = substr($s, 0, $i) . substr($s, $i + $r->int(1, 12)); break;
                case 3: $s = substr($s, 0, $i) . $r->pick([';', '}', '{', ':', '"', '0', '9', 'r:1;', 'R:1;', 'i:0;', 'N;', 'a:0:{}', 'O:8:"stdClass":0:{}']) . substr($s, $i); break;
                case 4: // another number
                    $s = preg_replace_callback('/(?<=[iaOsRr]:)-?\d+/', fn($m) => $r->chance(1, 6) ? (string)$r->pick([0, 1, 2, 3, 7, -1, 255, 65536, 4294967296, PHP_INT_MAX, PHP_INT_MIN, (int)$m[0] + 1, (int)$m[0] - 1]) : $m[0], $s);
                    break;
                case 5: // another class
                    $s = preg_replace_callback('/O:\d+:"Teds\\\\\w+"/', function ($m) use ($r) { if ($r->bool()) { return $m[0]; } $c = 'Teds\\' . $r->pick(Beast::ALL); return 'O:' . strlen($c) . ":\"$c\""; }, $s);
                    break;
                case 6: // another format letter
                    $s = preg_replace_callback('/\b([iasdObN])(?=:)/', fn($m) => $r->chance(1, 8) ? $r->pick(['i', 's', 'a', 'd', 'O', 'b', 'C', 'E', 'S']) : $m[0], $s);
                    break;
                default: $j = $r->int(0, strlen($s) - 1); $s = substr($s, 0, $i) . substr($s, $j, $r->int(1, 20)) . substr($s, $i);
            }
        }
        return $s;
    }
}
/** Arrays that contain themselves: comparing those is a fatal error of the engine, so such data is left out. */
function endless(string $data): bool {
    if (!str_contains($data, 'R:')) { return false; }
    $poke = Poker::$poke; Poker::$poke = null;
    try { $v = @unserialize($data, ['allowed_classes' => false]); } catch (\Throwable) { $v = null; }
    Poker::$poke = $poke;
    $deep = function (mixed $v, int $d) use (&$deep): bool { if ($d > 14) { return true; } if (is_object($v)) { $v = $d > 8 ? [] : (array)$v; } if (is_array($v)) { foreach ($v as $x) { if ($deep($x, $d + 1)) { return true; } } } return false; };
    $budget = 0;
    return $deep($v, 0);
}
/** every collection reachable from a value */
function reach(mixed $v, array &$seen, int $depth = 0): void {
    if ($depth > 20 || count($seen) > 60) { return; }
    if (is_array($v)) { foreach ($v as $x) { reach($x, $seen, $depth + 1); } return; }
    if (!is_object($v) || isset($seen[spl_object_id($v)]) || $v instanceof \Closure) { return; }
    $seen[spl_object_id($v)] = $v;
    if ($v instanceof \Teds\Collection) { try { foreach ((array)$v as $x) { reach($x, $seen, $depth + 1); } } catch (\RuntimeException) { } return; }
    foreach (get_object_vars($v) as $x) { reach($x, $seen, $depth + 1); }
}
function works(mixed $v, string $where, ?Rng $r): void {
    $seen = [];
    reach($v, $seen);
    foreach ($seen as $o) {
        if (!($o instanceof \Teds\Collection)) { continue; }
        $c = clsname($o);
        Rec::count("examined: $c");
        Beast::consistent($o, $where);
        if ($r && !in_array($c, Beast::EMPTY, true)) {
            $b = new Beast($c, new Gen($r), null, 0, $o);
            $b->odd = 1;
            $b->grow(3);
            Beast::consistent($o, "$where and use");
            outcome(fn() => serialize($o)); outcome(fn() => clone $o); outcome(fn() => json_encode($o, JSON_PARTIAL_OUTPUT_ON_ERROR)); outcome(fn() => var_export($o, true)); outcome(fn() => $o->__unserialize([])); outcome(fn() => $o->clear());
            Beast::consistent($o, "$where and end");
        }
    }
}
/** One attempt. Everything it makes is dropped before it returns. */
function attempt(string $route, mixed $data, string $cls, string $seed): string {
    $r = new Rng($seed);
    $fq = "Teds\\$cls";
    $held = [];
    Poker::$poke = function (string $where, array $vals) use ($r, &$held) {
        if (!$r->chance(2, 3)) { return; }
        foreach ($vals as $v) {
            if (!($v instanceof \Teds\Collection)) { continue; }
            if ($r->chance(1, 3)) { $held[] = $v; }
            $c = clsname($v);
            if (in_array($c, Beast::EMPTY, true)) { continue; }
            Rec::count("poked at while incomplete: $c");
            $b = new Beast($c, new Gen($r), null, 0, $v);
            $b->odd = 3;
            for ($n = $r->int(1, 4); $n > 0; $n--) { $b->call($r->pick($b->ops())); }
        }
        if ($r->chance(1, 12)) { throw new Boom("from $where"); }
    };
    $got = null;
    if (is_array($data)) { $data = (new Gen($r))->shared($data); }
    try {
        $got = match ($route) {
            'unserialize' => outcome(fn() => unserialize($data)),
            '__set_state' => outcome(fn() => $fq::__set_state($data)),
            'static unserialize' => outcome(fn() => $fq::unserialize($data)),
            '__unserialize' => outcome(function () use ($fq, $cls, $data) { // on a fresh object, and on one in use
                $o = unserialize('O:' . strlen($fq) . ":\"$fq\":0:{}");
                return $o; }),
        };
    } finally { Poker::$poke = null; }
    $tag = $got[0] === 'throw' ? $got[1] : (is_object($got[1]) ? 'object' : get_debug_type($got[1]));
    if ($got[0] === 'ret') { works($got[1], $route, $r); }
    works($held, "$route, kept from a user object", $r);
    $got = $held = null;
    return $tag;
}
function run_case(int $case, Rng $r, string $tier): void {
    $g = new Gen($r);
    $cls = Beast::REAL[$case % count(Beast::REAL)]; $fq = "Teds\\$cls"; $fam = Beast::family($cls);
    for ($n = 6; $n > 0; $n--) {
        $f = new Forge($r, $g, $r->chance(1, 4));
        $k = $n % 3 === 0 && $r->bool() ? -1 : $r->int(0, 9); // those whose memory is measured
        if ($k < 0) { $route = 'unserialize'; $data = $f->flawed($cls); if (endless($data)) { continue; } Rec::count('one flaw'); }
        elseif ($k < 7) {
            $route = 'unserialize';
            if ($r->chance(1, 4)) {
                $b = new Beast($cls, $g, 'portable' === '' ? null : $r->pick(['plain', 'scalar', 'tiny', 'string']));
                $b->grow($r->int(0, 5));
                $data = outcome(fn() => serialize($r->bool() ? $b->o : [$b->o, $b->o, [1, $b->o]]));
                if ($data[0] === 'throw') { continue; }
                $data = $data[1];
                $data = $f->damage($data);
            } else {
                $f->slot = 1; $f->objects[] = 1;
                $data = $f->collection($cls, 0);
                if ($r->chance(1, 3)) { $data = $f->damage($data); }
            }
            if (endless($data)) { Rec::count('left out: array that contains itself'); continue; }
        } elseif ($k < 8 && method_exists($fq, 'unserialize') && ($m = new \ReflectionMethod($fq, 'unserialize'))->isStatic()) {
            $route = 'static unserialize';
            $f2 = new \ReflectionMethod($f, 'binary');
            $data = $f2->invoke($f, $cls);
            if (str_contains($cls, 'Int') && $r->chance(5, 6)) { $data .= chr($r->int(0, 5)); }
        } else {
            $route = '__set_state';
            $data = [];
            for ($i = $r->int(0, 6); $i > 0; $i--) {
                $v = $r->chance(1, 6) ? $g->fresh('plain') : $g->val($r->pick(Beast::kindsOf($cls)));
                if ($fam === 'map' || $fam === 'pairs') { $v = $r->chance(1, 8) ? $r->pick([[], [1], [1, 2, 3], ['a' => 1, 'b' => 2], [1 => 1, 0 => 2], 5, 'ab', null]) : [$v, $g->val('plain')]; }
                if ($r->chance(1, 10)) { $data[$r->pick(['k', -3, 7, ''])] = $v; } else { $data[] = $v; }
            }
        }
        Rec::op("$cls $route", "$route " . (is_string($data) ? addcslashes(substr($data, 0, 600), "\0..\37\177..\377") : Rep::show($data)));
        $seed = (string)$r->int(0, PHP_INT_MAX);
        $tag = attempt($route, $data, $cls, $seed);
        Rec::count("$route gave $tag");
        Rec::state("$cls $route $tag " . (is_string($data) ? preg_replace('/\d+/', '#', substr($data, 0, 200)) : count($data)));
        if ($n % 3 !== 0) { continue; }
        // the engine itself loses the name of a class that does not exist, or is not spelled as declared, when the rest is malformed
        if (is_string($data) && preg_match_all('/[OCE]:\+?\d+:"([^"]*)"/', $data, $m) && array_filter($m[1], fn($c) => !class_exists($c) || (new \ReflectionClass($c))->name !== $c)) { Rec::count('unknown class: memory not compared'); continue; }
        // nothing is left behind
        Rec::$mute = true;
        $left = [];
        try {
            for ($i = 0; $i < 4; $i++) {
                for ($j = 0; $j < 9 && gc_collect_cycles() > 0; $j++) { }
                $b0 = vmon_blocks();
                attempt($route, $data, $cls, $seed);
                for ($j = 0; $j < 9 && gc_collect_cycles() > 0; $j++) { }
                $left[] = vmon_blocks() - $b0;
                if (end($left) <= 0) { break; }
            }
            if (count($left) === 4 && getenv('VERBOSE')) { $s = vmon_seq(); vmon_trace(true); attempt($route, $data, $cls, $seed); gc_collect_cycles(); vmon_print_live_since($s); }
        } finally { Rec::$mute = false; }
        check(end($left) <= 0, "$cls:$route:leak", fn() => 'each attempt leaves memory behind: ' . json_encode($left));
    }
}
