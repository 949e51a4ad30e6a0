<?php
declare(strict_types=1);
/* A world of collections whose values, callbacks, iterators and handlers run further operations on that world. */

final class Boom extends \Exception {}

/** A value with a mind of its own: every hook the engine offers leads back into the world. */
class Imp implements \JsonSerializable {
    public static int $made = 0;
    public static int $dead = 0;
    public static int $twice = 0;
    private bool $gone = false;
    public mixed $link = null;
    public function __construct() { self::$made++; }
    public function __clone() { self::$made++; $this->gone = false; World::poke('clone'); }
    public function __destruct() { if ($this->gone) { self::$twice++; } $this->gone = true; self::$dead++; World::poke('destructor'); }
    public function jsonSerialize(): mixed { World::poke('json'); return 1; }
    public function __serialize(): array { World::poke('serialize'); return ['link' => $this->link]; }
    public function __unserialize(array $a): void { World::poke('unserialize'); self::$made++; $this->link = $a['link'] ?? null; }
    public static function __set_state(array $a): self { World::poke('set_state'); return new self(); }
    public function __toString(): string { World::poke('string'); return 'imp'; }
    public function __get(string $n): mixed { World::poke('get'); return null; }
}
/** Also run by dumping. The engine treats an exception or a break-off there as fatal, so it is kept from programs in which dumping can throw by itself (CachedIterable). */
class LoudImp extends Imp {
    public function __debugInfo(): array { try { World::poke("debug"); } catch (\Throwable) { } return []; }
}
final class HookIterator implements \Iterator {
    private int $i = 0;
    public function __construct(private array $pairs, private \Closure $h) {}
    public function rewind(): void { ($this->h)('rewind'); $this->i = 0; }
    public function valid(): bool { ($this->h)('valid'); return $this->i < count($this->pairs); }
    public function current(): mixed { ($this->h)('current'); return $this->pairs[$this->i][1]; }
    public function key(): mixed { ($this->h)('key'); return $this->pairs[$this->i][0]; }
    public function next(): void { ($this->h)('next'); $this->i++; }
}
final class HookAggregate implements \IteratorAggregate {
    public function __construct(private \Traversable $t, private \Closure $h) {}
    public function getIterator(): \Traversable { ($this->h)('getIterator'); return $this->t; }
}

class WildGen extends Gen {
    public ?World $w = null;
    private function imp(): Imp { return $this->w && !$this->w->arrays ? new LoudImp() : new Imp(); }
    private function wild(): mixed {
        $r = $this->r;
        $k = $r->int(0, 9);
        if ($this->w && !$this->w->arrays && in_array($k, [4, 7, 8], true)) { $k = 0; }
        switch ($k) {
            case 0: case 1: case 2: case 3: return $this->imp();
            case 4: return [$this->imp(), $r->int(0, 3)];
            case 5: return $this->w && $this->w->beasts ? $r->pick($this->w->beasts)->o : $this->imp();
            case 6: $x = $this->imp(); $x->link = $this->w && $this->w->beasts ? $r->pick($this->w->beasts)->o : null; return $x;
            case 7: $o = $this->w && $this->w->beasts ? $r->pick($this->w->beasts)->o : null; return $r->bool() ? [$o] : static fn() => $o;
            case 8: $a = [1, $this->imp()]; $q = &$a[0]; return $a;
            default:
                if ($r->chance(1, 3)) { return fopen('php://memory', 'r'); }
                $o = $this->w && $this->w->beasts ? $r->pick($this->w->beasts)->o : null;
                if ($o instanceof \IteratorAggregate) { try { return $this->w->engineIterators ? $o->getIterator() : (function () use ($o) { foreach ($o as $k => $v) { yield $k => $v; } })(); } catch (\Exception) { } }
                return 1.5;
        }
    }
    public function val(string $kind): mixed {
        if (in_array($kind, ['mixed', 'obj', 'array', 'wild'], true) && $this->r->bool()) { return $this->wild(); }
        return parent::val($kind === 'wild' ? 'mixed' : $kind);
    }
    public function array(int $depth = 0): array { return $this->w && !$this->w->arrays ? [$this->fresh('scalar'), $this->fresh('tiny')] : parent::array($depth); }
    public function object(): object { return $this->r->bool() ? $this->imp() : parent::object(); }
}

final class World {
    public static ?World $cur = null;
    /** @var list<Beast> */
    public array $beasts = [];
    /** @var list<Beast> collections whose operations are under way */
    public array $active = [];
    public array $keep = [];
    public array $fibers = [];
    public int $depth = 0;
    public int $budget;
    public bool $quiet = true;
    public ?string $only = null;
    public Rng $r; public WildGen $g;
    public int $reentries = 0;
    public bool $useFibers = true;
    /** InternalIterator has no get_gc in this engine: a cycle through one is never collected, whatever the iterator's own get_gc says */
    public bool $engineIterators = true;
    private int $noSuspend = 0;
    /** the engine gives up when something throws while it dumps, and its serializer cannot be entered again from a destructor */
    private int $dumping = 0;
    private int $serializing = 0;
    private int $encoding = 0;

    public function __construct(string $seed, ?string $only = null, bool $fibers = true) {
        $this->r = new Rng($seed); $this->g = new WildGen($this->r); $this->g->w = $this; $this->only = $only; $this->useFibers = $fibers;
        $this->budget = $this->r->int(20, 160);
        $this->arrays = $this->r->bool() || $only === 'CachedIterable';
    }
    /** While the engine prints or encodes an array it marks it, and comparing a marked array is a fatal error. So user code run from printing and encoding, and arrays that contain such objects, do not meet in one program. */
    public bool $arrays = true;
    public static function poke(string $where): void {
        if (self::$cur === null || self::$cur->arrays && in_array($where, ['debug', 'json'], true)) { return; }
        self::$cur->hook($where);
    }
    /** user code is running at an inconvenient moment */
    public function hook(string $where): void {
        if ($this->quiet || ($this->encoding || $this->dumping) && $this->arrays || $this->depth >= 3 || $this->budget <= 0 || $this->r->chance(1, 2)) { return; }
        if ($this->useFibers && $this->noSuspend + $this->dumping + $this->serializing === 0 && !in_array($where, ['debug', 'json'], true) && \Fiber::getCurrent() !== null && $this->r->chance(1, 3)) {
            Rec::op("@suspend", "(suspends in $where)");
            try { \Fiber::suspend(); } catch (\FiberError) { }
            if ($this->quiet) { return; }
        }
        $this->depth++;
        $this->reentries++;
        $d = $this->depth;
        $ns = $this->noSuspend;
        if ($where === 'debug' || $where === 'json') { $this->noSuspend++; }
        try {
            if (in_array($where, ['source', 'source-end', 'rewind', 'valid', 'current', 'key', 'next', 'getIterator'], true) && $this->r->bool()) { $this->halfBuilt(); }
            for ($n = $this->r->int(1, 3); $n > 0; $n--) { $this->step($where); }
            if ($this->dumping === 0 && $this->r->chance(1, 10)) { Rec::note("(throws in $where)"); throw new Boom("from $where"); }
        } finally { $this->depth = $d - 1; $this->noSuspend = $ns; }
    }
    /** a stack trace gives away the collection that is being constructed from a source */
    private function halfBuilt(): void {
        foreach (debug_backtrace(DEBUG_BACKTRACE_PROVIDE_OBJECT, 30) as $f) {
            if (($f['function'] ?? '') === '__construct' && isset($f['object']) && str_starts_with($f['object']::class, 'Teds\\') && in_array($c = clsname($f['object']), Beast::REAL, true)) {
                $b = new Beast($c, $this->g, null, 0, $f['object']); $b->hook = fn(string $w) => $this->hook($w);
                Rec::count('half-built collections obtained');
                if (count($this->beasts) < 8) { $this->beasts[] = $b; } else { $this->beasts[$this->r->int(0, 7)] = $b; }
                for ($n = $this->r->int(1, 4); $n > 0 && $this->budget-- > 0; $n--) {
                    $d = count($this->active);
                    $this->active[] = $b;
                    try { $this->perform($b, $this->r->pick($b->ops()), 'half-built'); } catch (Violation $e) { throw $e; } catch (\Exception | \Error) { } finally { $this->active = array_slice($this->active, 0, $d); }
                }
                return;
            }
        }
    }
    public function make(?string $cls = null): Beast {
        $r = $this->r;
        $cls ??= $this->only !== null && $r->chance(3, 4) ? $this->only : $r->pick(Beast::REAL);
        if ($cls === 'CachedIterable' && !$this->arrays) { $cls = 'ImmutableIterable'; }
        $b = new Beast($cls, $this->g, null, 0);
        $b->hook = fn(string $w) => $this->hook($w);
        $b->o = $b->build($r->size(24));
        return $b;
    }
    /** performs one random operation; exceptions of the operation are its outcome */
    public function step(string $where): void {
        if ($this->budget-- <= 0 || !$this->beasts) { return; }
        $r = $this->r;
        $b = $this->active && $r->chance(2, 3) ? $this->active[count($this->active) - 1 - $r->int(0, min(1, count($this->active) - 1))] : $r->pick($this->beasts);
        $k = $r->int(0, 29);
        try {
            if ($k < 22) {
                $ops = $b->ops();
                if ($r->bool()) { $ms = array_values(array_intersect(Beast::MUTATORS, $ops)); if ($ms) { $ops = [...$ms, 'clear']; } }
                $m = $r->pick($ops);
                if ($m === 'clear' && !method_exists($b->o, 'clear')) { return; }
                $this->active[] = $b;
                $d = count($this->active);
                try { $this->perform($b, $m, $where); }
                finally { $this->active = array_slice($this->active, 0, $d - 1); }
            } else { $this->extra($b, $k, $where); }
        } catch (Violation $e) { throw $e; } catch (\Exception | \Error $e) { if ($this->depth > 0 && $this->dumping === 0 && $r->chance(1, 4)) { throw $e; } }
    }
    private function perform(Beast $b, string $m, string $where): void {
        $d = $this->depth;
        if ($this->useFibers && $d === 0 && !in_array($m, ['@serialize', '@dump', '@json'], true) && count($this->fibers) < 3 && $this->r->chance(1, 12)) {
            Rec::note('in a fiber:');
            $f = new \Fiber(fn() => $b->call($m));
            try { $f->start(); } finally { $this->depth = $d; }
            if (!$f->isTerminated()) { $this->fibers[] = $f; }
            Rec::state("{$b->cls} $m fiber " . ($f->isTerminated() ? 'ended' : 'suspended'));
            return;
        }
        $ser = $m === '@serialize'; $dump = $m === '@dump'; $json = $m === '@json';
        if ($ser && $this->serializing) { return; }
        $this->serializing += (int)$ser; $this->dumping += (int)$dump; $this->encoding += (int)$json;
        try { $out = $b->call($m); } finally { $this->serializing -= (int)$ser; $this->dumping -= (int)$dump; $this->encoding -= (int)$json; }
        $this->depth = $d;
        Rec::state("{$b->cls} $m $d $where " . $out[0]);
        if ($out[0] === 'ret' && $this->r->chance(1, 5)) {
            $v = $out[1];
            if (is_object($v) && str_starts_with($v::class, 'Teds\\') && in_array($c = clsname($v), Beast::REAL, true) && count($this->beasts) < 8) { $n = new Beast($c, $this->g, null, 0, $v); $n->hook = $b->hook; $this->beasts[] = $n; }
            else { $this->keep[] = $v; }
        }
    }
    private function extra(Beast $b, int $k, string $where): void {
        $r = $this->r; $o = $b->o; $h = $b->hook;
        switch ($k) {
            case 22: // drop a collection, wherever it is in use
                Rec::op('@drop', "drops {$b->cls}#" . spl_object_id($o));
                $i = array_search($b, $this->beasts, true);
                if ($i !== false) { $this->beasts[$i] = $this->make(); }
                break;
            case 23:
                if ($o instanceof \IteratorAggregate) { Rec::op('@keep-iterator', "keeps an iterator of {$b->cls}"); $this->keep[] = $r->chance(1, 3) ? (function () use ($o) { foreach ($o as $k => $v) { yield $k => $v; } })() : $o->getIterator(); }
                break;
            case 24: case 25: // move a kept iterator
                $its = array_values(array_filter($this->keep, fn($x) => $x instanceof \Iterator && !($x instanceof \Teds\Collection)));
                if ($its) {
                    $it = $r->pick($its);
                    for ($n = $r->int(1, 4); $n > 0; $n--) { $m = $r->pick(['next', 'current', 'key', 'valid', 'rewind', 'next', 'valid']); Rec::op("@iterator-$m", 'iterator ' . spl_object_id($it) . " $m"); try { $it->$m(); } catch (\Exception | \Error) { } }
                }
                break;
            case 26:
                switch ($r->int(0, 3)) {
                    case 0: Rec::op('@gc', 'gc'); gc_collect_cycles(); break;
                    case 1: Rec::op('@forget', 'forgets what it kept'); $this->keep = []; break;
                    case 2: if ($this->fibers) { Rec::op('@resume', 'resumes a fiber'); $d = $this->depth; $f = array_pop($this->fibers); try { $f->resume(); } finally { $this->depth = $d; } if (!$f->isTerminated()) { $this->fibers[] = $f; } } break;
                    default: if ($this->fibers) { Rec::op('@drop-fiber', 'drops a suspended fiber'); array_pop($this->fibers); } break;
                }
                break;
            case 27: $this->functions($b); break;
            case 28: // property-like access
                Rec::op('@props', "properties of {$b->cls}");
                $n = $r->int(0, 11);
                Rec::note("route $n");
                switch ($n) {
                    case 0: array_walk($o, function (&$v) use ($h) { $h('walk'); $v = 1; }); break;
                    case 1: foreach (get_object_vars($o) as $x) { $h('vars'); } break;
                    case 2: foreach ((array)$o as $x) { $h('vars'); } break;
                    case 3: $x = reset($o); $h('reset'); next($o); $x = current($o); end($o); $x = key($o); break;
                    case 4: $x = $o->x ?? null; isset($o->{'0'}); $x = $o->{'0'}; break;
                    case 5: $o->x = new Imp(); break;
                    case 6: $o->{'0'} = new Imp(); break;
                    case 7: unset($o->{'0'}); unset($o->x); break;
                    case 8: $x = &$o->{'0'}; $x = 5; break;
                    case 9: $this->keep[] = get_mangled_object_vars($o); property_exists($o, '0'); break;
                    case 10: $this->dumping++; try { var_export($o, true); } finally { $this->dumping--; } break;
                    default: ob_start(); $this->dumping++; try { var_dump($o); } finally { $this->dumping--; ob_end_clean(); }
                }
                break;
            default: // another collection into this one, or this into itself
                $p = $r->chance(1, 3) ? $o : $r->pick($this->beasts)->o;
                Rec::op('@embed', clsname($p) . " goes into {$b->cls}");
                match (true) { method_exists($o, 'push') => $b->fam === 'pairs' ? $o->push($p, $p) : $o->push($p), $b->fam === 'map' => $o[$p] = $p, method_exists($o, 'add') => $o->add($p), default => 0 };
        }
    }
    private function functions(Beast $b): void {
        $r = $this->r; $o = $b->o; $h = $b->hook;
        $cb = $b->callback();
        $src = $r->bool() ? $o : $o->values();
        if (is_array($src) && $r->chance(1, 3)) { $q = &$src; $cb = function (...$a) use (&$src, $h) { $src = []; $h('callback'); return false; }; }
        $f = $r->pick(['any', 'all', 'none', 'find', 'fold', 'includes_value', 'unique_values', 'array_value_first', 'array_value_last', 'stable_compare', 'stable_sort', 'strict_equals', 'strict_hash', 'binary_search', 'is_same_array_handle']);
        Rec::op("Teds\\$f", "$f on " . (is_array($src) ? 'values of ' : '') . $b->cls);
        $a = is_array($src) ? $src : $o->values();
        if ($r->chance(1, 6)) { // any arguments at all
            $args = []; for ($n = $r->int(0, 5); $n > 0; $n--) { $args[] = match ($r->int(0, 4)) { 0 => $src, 1 => $cb, 2 => $a, 3 => $this->g->val('wild'), default => $r->pick([null, 0, 'strlen', 1.5, '7', true]) }; }
            $f = "Teds\\" . ($f === 'stable_sort' ? 'stable_compare' : $f);
            $x = $r->bool() ? $f(...$args) : weak_function($f, $args);
            if ($r->chance(1, 4)) { $this->keep[] = $x; }
            return;
        }
        switch ($f) {
            case 'any': case 'all': case 'none': $x = ("Teds\\$f")($src, $r->chance(1, 4) ? null : $cb); break;
            case 'find': $x = \Teds\find($src, $cb); break;
            case 'fold': $x = \Teds\fold($src, $cb, new Imp()); break;
            case 'includes_value': $x = \Teds\includes_value($src, $b->member()); break;
            case 'unique_values': $x = \Teds\unique_values($src); break;
            case 'array_value_first': case 'array_value_last': $x = ("Teds\\$f")($a); break;
            case 'stable_compare': case 'strict_equals': $x = ("Teds\\$f")($b->member(), $r->pick($this->beasts)->member()); $x = ("Teds\\$f")($a, $r->pick($this->beasts)->o->values()); break;
            case 'stable_sort': usort($a, 'Teds\stable_compare'); $x = $a; break;
            case 'strict_hash': $x = \Teds\strict_hash($a); break;
            case 'binary_search': $x = \Teds\binary_search($a, $b->member(), $r->bool() ? $cb : 'Teds\stable_compare', $r->bool()); break;
            default: $x = \Teds\is_same_array_handle($a, (array)$o);
        }
        if ($r->chance(1, 4)) { $this->keep[] = $x; }
    }
    /** the whole program */
    public function run(int $steps): void {
        self::$cur = $this;
        for ($n = $this->r->int(1, 4); $n > 0; $n--) { $this->beasts[] = $this->make($n === 1 ? $this->only : null); }
        $this->quiet = false;
        try {
            while ($steps-- > 0) { $this->guard(fn() => $this->step('')); }
            // a few more that may break off anywhere
        } finally { $this->quiet = true; }
    }
    /** user code may throw into the harness itself: that ends the step, not the program */
    private function guard(\Closure $f): void {
        try { $f(); } catch (Violation $e) { throw $e; } catch (\Exception | \Error $e) { Rec::count('exceptions that reached the program: ' . $e::class); }
        $this->depth = $this->encoding = $this->dumping = $this->serializing = $this->noSuspend = 0; $this->active = [];
    }
    public function verify(): void {
        $this->quiet = true;
        foreach ($this->beasts as $b) { try { count($b->o) && $b->o->values(); } catch (\RuntimeException) { continue; } Beast::consistent($b->o, 'the program'); }
    }
    /** let everything go; noisy: destructors still run operations on what is left */
    public function end(bool $noisy): void {
        $this->budget = $noisy ? 30 : 0;
        $this->quiet = !$noisy;
        Rec::note('everything is dropped');
        foreach ($this->r->shuffle(['beasts', 'keep', 'fibers']) as $what) {
            while ($this->$what) { $this->guard(function () use ($what) { $x = array_pop($this->$what); $x = null; }); }
        }
        $this->quiet = true;
        self::$cur = null;
        $this->active = []; $this->beasts = []; $this->keep = []; $this->fibers = [];
        $this->g = new WildGen($this->r);
    }
}
