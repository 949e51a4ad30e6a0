<?php
declare(strict_types=1);
/* Any collection of any class: construction by random routes, reflection-driven calls, snapshots of all views, cross-view consistency. */

final class Beast {
    const SEQ = ['Vector', 'Deque', 'LowMemoryVector', 'IntVector', 'BitVector', 'ImmutableSequence'];
    const MAPS = ['StrictHashMap', 'StrictTreeMap', 'StrictSortedVectorMap'];
    const SETS = ['StrictHashSet', 'StrictTreeSet', 'StrictSortedVectorSet', 'SortedIntVectorSet', 'ImmutableSortedIntSet', 'ImmutableSortedStringSet'];
    const HEAPS = ['StrictMinHeap', 'StrictMaxHeap'];
    const PAIRS = ['MutableIterable', 'ImmutableIterable', 'CachedIterable'];
    const EMPTY = ['EmptySequence', 'EmptySet', 'EmptyMap'];
    const IMMUTABLE = ['ImmutableSequence', 'ImmutableIterable', 'CachedIterable', 'ImmutableSortedIntSet', 'ImmutableSortedStringSet', 'EmptySequence', 'EmptySet', 'EmptyMap'];
    const REAL = [...self::SEQ, ...self::MAPS, ...self::SETS, ...self::HEAPS, ...self::PAIRS];
    const ALL = [...self::REAL, ...self::EMPTY];
    /** operations that need syntax, not a method call */
    const SYNTAX = ['@append', '@get', '@set', '@isset', '@empty', '@unset', '@coalesce', '@foreach', '@clone', '@json', '@serialize', '@cast', '@count', '@iter', '@dump', '@nested', '@refget', '@incdec', '@each', '@spread', '@foreachref'];
    const MUTATORS = ['push', 'pop', 'pushFront', 'popFront', 'shift', 'unshift', 'insert', 'set', 'offsetSet', 'offsetUnset', 'setSize', 'reserve', 'shrinkToFit', 'add', 'remove', 'extract', 'setKeyAt', 'setValueAt',
        'pushInts', 'setInt', 'pushBits', 'setBit', 'setInt8', 'setInt16', 'setInt32', 'setInt64', 'next', '@append', '@set', '@unset'];

    public object $o; public string $cls; public string $fq; public string $fam; public Gen $g; public Rng $r; public string $kind; public string $vkind;
    /** chance (in 1/16) that a drawn argument is out of range or of another type */
    public int $odd = 2;
    /** when set, callables and iterables handed out call this at random moments */
    public ?\Closure $hook = null;
    /** kind of the values drawn now and then regardless of what the class holds */
    public string $oddKind = 'mixed';

    public static function family(string $cls): string {
        return match (true) {
            in_array($cls, self::SEQ, true), $cls === 'EmptySequence' => 'seq',
            in_array($cls, self::MAPS, true), $cls === 'EmptyMap' => 'map',
            in_array($cls, self::SETS, true), $cls === 'EmptySet' => 'set',
            in_array($cls, self::HEAPS, true) => 'heap',
            default => 'pairs',
        };
    }
    public static function short(object $o): string { return clsname($o); }
    public static function kindsOf(string $cls, ?string $all = null): array {
        if (in_array($cls, ['IntVector', 'SortedIntVectorSet', 'ImmutableSortedIntSet'], true)) { return ['tiny', 'i8', 'i16', 'i32', 'int', 'edge']; }
        if ($cls === 'BitVector') { return ['bool']; }
        if ($cls === 'ImmutableSortedStringSet') { return ['string']; }
        if ($all !== null) { return [$all]; }
        if ($cls === 'LowMemoryVector') { return ['mixed', 'scalar', 'tiny', 'i8', 'i16', 'i32', 'int', 'edge', 'bool', 'boolnull', 'null', 'float', 'string', 'obj']; }
        return ['mixed', 'scalar', 'obj', 'tiny', 'string', 'strint', 'numstr', 'numeric', 'float', 'array', 'int'];
    }
    /** @param ?string $all value kind to use in classes that hold anything */
    public function __construct(string $cls, Gen $g, ?string $all = null, ?int $n = null, ?object $existing = null) {
        $this->cls = $cls; $this->fq = 'Teds\\' . $cls; $this->fam = self::family($cls); $this->g = $g; $this->r = $g->r;
        $this->kind = $this->r->pick(self::kindsOf($cls, $all));
        $this->vkind = $all ?? $this->r->pick(['mixed', 'tiny', 'obj', 'boolnull', 'string']);
        if ($existing) { $this->o = $existing; return; }
        $n ??= $this->r->chance(1, 6) ? 0 : $this->r->size(70);
        $this->o = $this->build($n);
    }
    public function key(): mixed { return $this->g->val($this->kind); }
    public function value(): mixed { return $this->g->val($this->fam === 'map' || $this->fam === 'pairs' ? $this->vkind : $this->kind); }
    private function items(int $n): array {
        $a = [];
        $p = $this->fam === 'map' || $this->fam === 'pairs';
        while ($n-- > 0) { $a[] = $p ? [$this->key(), $this->value()] : $this->value(); }
        return $a;
    }
    public static function gen(array $pairs): \Generator { foreach ($pairs as [$k, $v]) { yield $k => $v; } }
    public function build(int $n): object {
        $r = $this->r; $c = $this->fq;
        if (in_array($this->cls, self::EMPTY, true)) { return constant("$c::INSTANCE"); }
        $a = $this->items($n);
        $pairs = $this->fam === 'map' || $this->fam === 'pairs';
        if ($this->fam === 'heap') {
            if ($r->bool()) { Rec::op("{$this->cls}::__set_state", "{$this->cls}::__set_state(" . Rep::show($a) . ')'); return $c::__set_state($a); }
            $o = new $c();
            Rec::op("{$this->cls}::add", "new {$this->cls} + add " . Rep::show($a));
            foreach ($a as $v) { $o->add($v); }
            return $o;
        }
        $how = $r->int(0, 5);
        if ($n === 0 && $how > 3) { Rec::op("{$this->cls}::__construct", "new {$this->cls}()"); return $this->cls === 'CachedIterable' || $this->cls === 'ImmutableIterable' || $this->cls === 'MutableIterable' ? new $c([]) : new $c(); }
        $label = '';
        if ($pairs) {
            $o = match (true) {
                $how <= 1 => (function () use ($c, $a, &$label) { $label = 'generator'; return new $c($this->hostilePairs($a)); })(),
                $how <= 2 => (function () use ($c, $a, &$label) { $label = 'fromPairs'; return $c::fromPairs($this->g->shared($a)); })(),
                $how <= 3 => (function () use ($c, $a, &$label) { $label = '__set_state'; return $c::__set_state($this->g->shared($a)); })(),
                $how <= 4 => (function () use ($c, $a, &$label) { $label = 'array'; return new $c($this->g->shared(PairsSubject::arr($a))); })(),
                default => (function () use ($c, $a, &$label) { $label = 'MutableIterable'; return new $c(\Teds\MutableIterable::fromPairs($a)); })(),
            };
        } elseif ($how <= 4 || $this->cls === 'ImmutableSortedStringSet' || str_contains($this->cls, 'Int')) {
            $label = 'iterable'; $o = new $c($this->hostileIterable($a));
        } else { $label = '__set_state'; $o = $c::__set_state($a); }
        Rec::op("{$this->cls}::" . ($label === 'fromPairs' || $label === '__set_state' ? $label : '__construct'), "{$this->cls} from $label " . Rep::show($a));
        return $o;
    }
    /** a history of mutations, also failing ones */
    public function grow(int $steps): void {
        $ms = array_values(array_filter(self::MUTATORS, fn($m) => $m[0] === '@' ? $this->o instanceof \ArrayAccess : method_exists($this->o, $m)));
        if (!$ms || in_array($this->cls, self::IMMUTABLE, true)) { return; }
        if ($this->r->chance(1, 3)) { // a phase that leaves spare room or a wrapped ring behind
            $in = $this->r->pick(array_values(array_filter(['push', 'pushFront', 'add', '@set', 'offsetSet'], fn($m) => in_array($m, $ms, true))));
            for ($i = $this->r->int(5, 40); $i > 0; $i--) { $this->call($in); }
            $out = array_values(array_filter(['pop', 'popFront', 'remove', 'extract', '@unset', 'offsetUnset'], fn($m) => in_array($m, $ms, true)));
            if ($out) { $out = $this->r->pick($out); for ($i = $this->r->int(5, 40); $i > 0; $i--) { $this->call($out); } }
        }
        while ($steps-- > 0) { $this->call($this->r->pick($ms)); }
    }
    private static array $methods = [];
    public static function methods(string $fq): array {
        return self::$methods[$fq] ??= (function () use ($fq) {
            $a = [];
            foreach ((new \ReflectionClass($fq))->getMethods(\ReflectionMethod::IS_PUBLIC) as $m) { $a[strtolower($m->name)] = $m; }
            return $a;
        })();
    }
    public function ops(): array {
        $a = [];
        foreach (self::methods($this->fq) as $m) { $a[] = $m->name; }
        foreach (self::SYNTAX as $s) { if ($this->o instanceof \ArrayAccess || !in_array($s, ['@append', '@get', '@set', '@isset', '@empty', '@unset', '@coalesce', '@nested', '@refget', '@incdec'], true)) { $a[] = $s; } }
        return $a;
    }
    public function offset(): int {
        $c = count($this->o); $r = $this->r;
        if ($r->int(1, 16) <= $this->odd) { return $r->pick([-1, $c, $c + 1, PHP_INT_MAX, PHP_INT_MIN, 1 << 32, -$c, $c * 8, 1 << 61]); }
        return $r->int(0, max(0, $c - 1));
    }
    /** a key or value present in the collection (if any) */
    public function member(): mixed {
        $vs = match ($this->fam) { 'map' => $this->o->keys(), 'pairs' => $this->r->bool() ? $this->o->keys() : $this->o->values(), default => $this->o->values() };
        return $vs ? $this->r->pick($vs) : $this->key();
    }
    public function anyKey(): mixed {
        if ($this->fam === 'seq') {
            if ($this->r->int(1, 16) <= $this->odd) { return $this->r->pick(['0', '1', 'x', 1.0, 1.5, true, null, [], new \stdClass(), '01', NAN, 1e30, '1e0', ' 1']); }
            return $this->offset();
        }
        return $this->r->bool() ? $this->member() : $this->key();
    }
    private function aValue(): mixed {
        if ($this->r->int(1, 16) <= $this->odd) { return $this->g->fresh($this->oddKind); }
        return $this->r->chance(1, 3) ? $this->member() : $this->value();
    }
    public function callback(): callable {
        $h = $this->hook; $r = $this->r; $k = $r->int(0, 5); $n = 0;
        return function (mixed ...$a) use ($h, $k, &$n) {
            if ($h) { $h('callback'); }
            $n++;
            return match ($k) { 0 => $n % 2 === 0, 1 => $a[0] ?? null, 2 => [$a], 3 => true, 4 => false, default => $n };
        };
    }
    public function hostileIterable(array $a): iterable {
        $h = $this->hook;
        if (!$h || $this->r->chance(1, 3)) { return $this->g->iterable($a); }
        $pairs = []; foreach ($a as $i => $v) { $pairs[] = [$i, $v]; }
        return $this->hostilePairs($pairs);
    }
    /** a source of these keys and values that runs the hook at every turn */
    public function hostilePairs(array $pairs): \Traversable {
        $h = $this->hook; $k = $this->r->int(0, 4);
        if ($h === null) { return self::gen($pairs); }
        if ($k <= 1) { return new HookIterator($pairs, $h); }
        $g = (function () use ($pairs, $h) { foreach ($pairs as [$i, $v]) { $h('source'); yield $i => $v; } $h('source-end'); })();
        return $k === 2 ? new HookAggregate($g, $h) : $g;
    }
    public function arg(\ReflectionParameter $p, string $m): array {
        $r = $this->r; $n = $p->getName(); $t = (string)$p->getType();
        if ($p->isOptional() && !$p->isVariadic() && $r->chance(1, 3)) { return []; }
        if ($p->isVariadic()) { $o = []; for ($i = $r->pick([0, 1, 1, 1, 2, 3, 5]); $i > 0; $i--) { $o[] = $this->aValue(); } return $o; }
        switch ($n) {
            case 'offset':
                if ($m === 'insert') { return [$r->int(1, 16) <= $this->odd ? $this->offset() : $r->int(0, count($this->o))]; }
                return [$t === 'int' ? $this->offset() : $this->anyKey()];
            case 'size': case 'capacity': return [$r->int(1, 32) <= $this->odd ? -$r->int(1, 3) : ($r->bool() ? $r->int(0, count($this->o) + 3) : $r->size(150))];
            case 'key': return [$this->fam === 'map' || $this->fam === 'pairs' ? ($r->bool() ? $this->member() : $this->key()) : $this->anyKey()];
            case 'value':
                if ($t === 'bool') { return [$r->bool()]; }
                if ($t === 'int') { return [$this->fam === 'seq' && $this->cls === 'BitVector' || $r->bool() ? $this->g->int() : $this->aValue()]; }
                return [$this->aValue()];
            case 'data': return [$this->bytes()];
            case 'callback': return [$r->int(1, 16) <= $this->odd && $p->allowsNull() ? null : $this->callback()];
            case 'pairs': case 'array': case 'state': case 'iterator': return [$this->source($n === 'array' || $n === 'state', $n === 'pairs' || $n !== 'iterator' && ($this->fam === 'map' || $this->fam === 'pairs'), $t)];
            case 'default': return [$t === 'bool' ? $r->bool() : $this->g->fresh($this->oddKind)];
        }
        return [$t === 'int' ? $this->g->int() : ($t === 'bool' ? $r->bool() : ($t === 'string' ? $this->g->string() : $this->g->fresh('mixed')))];
    }
    private function source(bool $array, bool $pairs, string $type): mixed {
        $r = $this->r;
        $a = $this->items($r->size(12));
        if (!$pairs && ($this->fam === 'map' || $this->fam === 'pairs')) { return $r->bool() ? self::gen($a) : $this->g->shared(PairsSubject::arr($a)); }
        if ($r->int(1, 16) <= $this->odd && $a) { // malformed
            $i = array_key_last($a);
            $a[$r->int(0, count($a) - 1)] = $r->pick([null, [], [1], [1, 2, 3], 'x', ['a' => 1, 'b' => 2], 5, true, 1.5]);
            if ($r->bool()) { $a['k'] = $a[$i]; }
        }
        if ($array || $r->bool() || $type === 'array') { return $a; }
        return $this->hostileIterable($a);
    }
    private function bytes(): string {
        $r = $this->r;
        $s = '';
        if (method_exists($this->o, 'toBinaryString') && $r->bool()) { return $r->bytes($r->size(40)); }
        if (method_exists($this->o, 'serialize')) { try { $s = $this->o->serialize(); } catch (\Throwable) {} }
        if ($r->int(1, 16) <= $this->odd * 2) { if ($s !== '' && $r->bool()) { $s[$r->int(0, strlen($s) - 1)] = chr($r->int(0, 255)); } else { $s = substr($s, 0, $r->int(0, strlen($s))) . $r->bytes($r->int(0, 9)); } }
        return $s;
    }
    /** Draw arguments for an operation; returns [description, closure that performs it]. */
    public function prepare(string $m): array {
        $o = $this->o; $r = $this->r; $h = $this->hook;
        if ($m[0] !== '@') {
            $rm = self::methods($this->fq)[strtolower($m)];
            $args = [];
            foreach ($rm->getParameters() as $p) {
                $x = $this->arg($p, $m);
                if (!$x && !$p->isVariadic()) { break; }
                array_push($args, ...$x);
            }
            if ($m === '__unserialize') { $args = [$this->unserializeArg()]; }
            $loose = $r->chance(1, 12);
            if ($loose && $this->odd ? $r->chance(1, 2) : $r->int(1, 96) <= $this->odd) { // arguments that are too few, too many, or of a type the method does not take
                if ($args && $r->bool()) { $args[$r->int(0, count($args) - 1)] = $r->pick([null, [], 'x', '7', 1.5, 2.0, true, new \stdClass(), 3, [[]], '']); }
                elseif ($args && $r->bool()) { array_pop($args); }
                elseif (!$rm->isVariadic()) { $args = array_pad($args, $rm->getNumberOfParameters(), 0); $args[] = $r->pick([1, null, 'x']); }
            }
            $desc = $m . '(' . Rep::showArgs($args) . ')';
            $on = $rm->isStatic() ? $this->fq : $o;
            if ($loose) { return ["loosely $desc", fn() => weak_call($on, $m, $args), $rm]; }
            return [$desc, is_string($on) ? fn() => $on::$m(...$args) : fn() => $on->$m(...$args), $rm];
        }
        $k = $this->anyKey(); $v = $this->aValue(); $s = Rep::show($k); $sv = Rep::show($v);
        return match ($m) {
            '@append' => ["[] = $sv", function () use ($o, $v) { $o[] = $v; }],
            '@get' => ["[$s]", fn() => $o[$k]],
            '@set' => ["[$s] = $sv", function () use ($o, $k, $v) { $o[$k] = $v; }],
            '@isset' => ["isset([$s])", fn() => isset($o[$k])],
            '@empty' => ["empty([$s])", fn() => empty($o[$k])],
            '@unset' => ["unset([$s])", function () use ($o, $k) { unset($o[$k]); }],
            '@coalesce' => ["[$s] ?? 'none'", fn() => $o[$k] ?? 'none'],
            '@foreach' => ['foreach', function () use ($o, $h, $r) { $n = 0; foreach ($this->fam === 'heap' && $this->hook === null ? clone $o : $o as $x => $y) { if ($h) { $h('loop'); } if (++$n > 300) { break; } } return $n; }],
            '@foreachref' => ['foreach by reference', function () use ($o) { foreach ($o as &$x) { $x = 'changed'; break; } }],
            '@clone' => ['clone', fn() => clone $o],
            '@json' => ['json_encode', fn() => json_encode($o, JSON_PARTIAL_OUTPUT_ON_ERROR | JSON_INVALID_UTF8_SUBSTITUTE)],
            '@serialize' => ['serialize', fn() => serialize($o)],
            '@cast' => ['(array)', fn() => (array)$o],
            '@count' => ['count()', fn() => count($o)],
            '@iter' => ['iterator_to_array', fn() => iterator_to_array($o instanceof \Iterator && !str_starts_with($this->cls, 'Empty') ? clone $o : $o, false)],
            '@dump' => ['print_r', fn() => strlen(print_r($o, true))],
            '@nested' => ["[$s][] = 1", function () use ($o, $k) { $o[$k][] = 1; }],
            '@refget' => ["&[$s]", function () use ($o, $k) { $x = &$o[$k]; $x = 'changed'; }],
            '@incdec' => ["[$s] .= 'x'", function () use ($o, $k) { $o[$k] .= 'x'; }],
            '@each' => ['getIterator walk', function () use ($o, $h) {
                $it = $o instanceof \IteratorAggregate ? $o->getIterator() : clone $o;
                $n = 0;
                for ($it->rewind(); $it->valid() && $n < 300; $it->next()) { $n++; $it->key(); $it->current(); if ($h) { $h('walk'); } }
                return $n;
            }],
            '@spread' => ['[...$o]', fn() => count([...($o instanceof \Iterator && !str_starts_with($this->cls, 'Empty') ? (clone $o)->values() : $o->values())])],
        };
    }
    private function unserializeArg(): array {
        try { $a = $this->o->__serialize(); } catch (\Throwable) { $a = []; }
        return $this->r->bool() ? $a : $this->items(3);
    }
    /** Perform an operation: ['ret', value] or ['throw', class]. */
    public function call(string $m): array {
        [$desc, $f] = $this->prepare($m);
        Rec::op("{$this->cls}::$m", "{$this->cls}#" . spl_object_id($this->o) . " $desc");
        return outcome($f);
    }
    /** Everything the collection shows, as text. Does not change it. */
    public static function snap(object $o): string {
        $cls = self::short($o); $fam = self::family($cls);
        $s = $cls . ' n=' . count($o) . ',' . Rep::of($o->isEmpty());
        $see = function (string $n, \Closure $f) use (&$s) {
            try { $x = $f(); } catch (\Throwable $e) { $s .= " $n!" . $e::class; return; }
            $s .= " $n=" . $x;
        };
        $see('values', fn() => Rep::list($o->values()));
        $see('cast', fn() => Rep::of((array)$o));
        if ($fam === 'heap') {
            $see('extract', function () use ($o) { $c = clone $o; $t = ''; foreach ($c as $k => $v) { $t .= Rep::of($k) . '>' . Rep::of($v) . ','; } return $t; });
            return $s;
        }
        $see('foreach', function () use ($o) { $t = ''; foreach ($o as $k => $v) { $t .= Rep::of($k) . '>' . Rep::of($v) . ','; } return $t; });
        if ($cls !== 'EmptyMap' && ($fam === 'map' || $fam === 'pairs')) { $see('pairs', fn() => Rep::of($o->toPairs())); $see('keys', fn() => Rep::list($o->keys())); }
        if ($fam === 'seq') { $see('toArray', fn() => Rep::of($o->toArray())); }
        return $s;
    }
    /** All views tell the same story and the class's own rules hold. */
    public static function consistent(object $o, string $where): void {
        $cls = self::short($o); $fam = self::family($cls);
        $key = "$cls:views-disagree";
        $ck = function (bool $ok, string $what) use ($key, $where, $o) {
            Rec::$checks++;
            if (!$ok) { fail($key, "$what after $where: " . self::snap($o)); }
        };
        $n = count($o);
        $ck($o->count() === $n && $o->isEmpty() === ($n === 0), 'count/isEmpty');
        $vals = $o->values();
        $ck(array_is_list($vals) && count($vals) === $n, 'values() length');
        $lv = Rep::list($vals);
        $it = [];
        $src = $fam === 'heap' ? clone $o : $o;
        foreach ($src as $k => $v) { $it[] = [$k, $v]; if (count($it) > $n + 5) { break; } }
        $ck(count($it) === $n, 'foreach length');
        if ($fam !== 'heap') { $ck(Rep::list(array_column($it, 1)) === $lv, 'foreach values'); }
        $cast = (array)$o;
        foreach (['values' => $vals, '(array)' => $cast, 'entries' => $it] as $what => $a) {
            if (($bad = \vmon_wellformed($a)) !== null) { fail('malformed-result', "$what of $cls after $where: $bad"); }
        }
        if ($o instanceof \JsonSerializable) { $ck(Rep::of($o->jsonSerialize()) === Rep::of($cast), 'jsonSerialize/(array)'); }
        if (method_exists($o, 'capacity')) { $ck($o->capacity() >= $n, 'capacity'); }
        if (method_exists($o, 'top')) { $ck(Rep::of(outcome(fn() => $o->top())) === Rep::of($n ? ['ret', $fam === 'heap' ? $it[0][1] : $vals[$n - 1]] : ['throw', \UnderflowException::class]), 'top'); }
        if (method_exists($o, 'bottom') && $fam !== 'map') { $ck(Rep::of(outcome(fn() => $o->bottom())) === Rep::of($n ? ['ret', $vals[0]] : ['throw', \UnderflowException::class]), 'bottom'); }
        if ($fam === 'seq' || $fam === 'set' && method_exists($o, 'first') && $n) {
            $e = [['ret', $vals[0] ?? null], ['ret', $vals[$n - 1] ?? null]];
            if ($n) { $ck(Rep::same($o->first(), $vals[0]) && Rep::same($o->last(), $vals[$n - 1]), 'first/last'); }
            else { $ck(outcome(fn() => $o->first())[0] === 'throw' && outcome(fn() => $o->last())[0] === 'throw', 'first/last of empty'); }
        }
        switch ($fam) {
            case 'seq':
                $ck(Rep::of($o->toArray()) === Rep::of($vals) && Rep::of($cast) === Rep::of($vals), 'toArray/(array)/values');
                foreach ($it as $i => [$k, $v]) { $ck($k === $i, 'foreach key'); }
                $step = max(1, intdiv($n, 12));
                for ($i = 0; $i < $n; $i += $step) {
                    $v = Rep::of($vals[$i]);
                    $ck(Rep::of($o->get($i)) === $v && Rep::of($o[$i]) === $v && Rep::of($o->offsetGet($i)) === $v && Rep::of($o[$i] ?? null) === $v, "element $i");
                    $set = $vals[$i] !== null;
                    $ck(isset($o[$i]) === $set && $o->offsetExists($i) === $set && $o->containsKey($i) && empty($o[$i]) === empty($vals[$i]), "isset of $i");
                    if ($cls !== 'BitVector') {
                        $x = $vals[$i]; $idx = null;
                        foreach ($vals as $j => $y) { if ($y === $x) { $idx = $j; break; } }
                        $ck($o->indexOf($x) === $idx && $o->contains($x) === ($idx !== null), "search of $i");
                    }
                }
                foreach ([-1, $n, $n + 1, PHP_INT_MAX, PHP_INT_MIN] as $i) {
                    $ck(!isset($o[$i]) && empty($o[$i]) && !$o->containsKey($i) && !$o->offsetExists($i) && ($o[$i] ?? 'none') === 'none', "isset of $i");
                    $ck(outcome(fn() => $o->get($i))[0] === 'throw' && outcome(fn() => $o[$i])[0] === 'throw', "element $i");
                }
                if ($cls === 'IntVector') { foreach ($vals as $v) { $ck(is_int($v), 'element type'); } }
                if ($cls === 'BitVector') { foreach ($vals as $v) { $ck(is_bool($v), 'element type'); } }
                break;
            case 'map': case 'pairs':
                if ($cls === 'EmptyMap') { $ck($n === 0 && $o->keys() === [] && $o->toArray() === [] && $cast === [] && $o->get(1, 'd') === 'd' && !$o->containsKey(1) && !$o->contains(null) && !isset($o['x']) && outcome(fn() => $o['x'])[0] === 'throw' && outcome(fn() => $o->get('x'))[0] === 'throw', 'EmptyMap'); break; }
                $keys = $o->keys(); $pairs = $o->toPairs();
                $ck(count($keys) === $n && array_is_list($keys) && Rep::pairs($pairs) === Rep::pairs($it) && array_is_list($pairs), 'keys/toPairs/foreach');
                $ck(Rep::list($keys) === Rep::list(array_column($pairs, 0)), 'keys/toPairs');
                $ck(Rep::of($cast) === Rep::of($pairs), '(array)/toPairs');
                $ta = Model::toArray($pairs);
                $real = outcome(fn() => $o->toArray());
                $ck($ta === null ? $real[0] === 'throw' : Rep::of($real) === Rep::of(['ret', $ta]), 'toArray');
                if ($fam === 'map') {
                    $seen = [];
                    foreach ($pairs as $i => [$k, $v]) {
                        $nk = Model::norm($k);
                        $ck(!isset($seen[$nk]), 'unique keys'); $seen[$nk] = 1;
                        if ($i && $cls !== 'StrictHashMap') { $ck(Model::cmp($pairs[$i - 1][0], $k) < 0, 'key order'); }
                        if ($i % max(1, intdiv($n, 12)) === 0) {
                            $rv = Rep::of($v);
                            $ck(Rep::of($o[$k]) === $rv && Rep::of($o->get($k)) === $rv && Rep::of($o->get($k, 'd')) === $rv && Rep::of($o->offsetGet($k)) === $rv, 'element');
                            $ck($o->containsKey($k) && isset($o[$k]) === ($v !== null) && $o->offsetExists($k) === ($v !== null) && empty($o[$k]) === empty($v), 'isset');
                            $has = $v === $v && !is_array($v) || in_array($v, $vals, true);
                            $ck($o->containsValue($v) === $has && $o->contains($v) === $has, 'containsValue');
                        }
                    }
                    $miss = new \stdClass();
                    $ck(!$o->containsKey($miss) && !isset($o[$miss]) && $o->get($miss, 'd') === 'd' && outcome(fn() => $o[$miss])[0] === 'throw' && !$o->containsValue($miss), 'missing key');
                    if ($n && $cls !== 'StrictHashMap') { $ck(Rep::same($o->firstKey(), $keys[0]) && Rep::same($o->lastKey(), $keys[$n - 1]) && Rep::same($o->bottomKey(), $keys[0]) && Rep::same($o->topKey(), $keys[$n - 1]), 'firstKey/lastKey'); }
                } else {
                    foreach ($pairs as $i => [$k, $v]) {
                        if ($i % max(1, intdiv($n, 12)) !== 0) { continue; }
                        $ck(Rep::same($o->keyAt($i), $k) && Rep::same($o->valueAt($i), $v), 'keyAt/valueAt');
                        $ik = $iv = null;
                        foreach ($keys as $j => $x) { if ($x === $k) { $ik = $j; break; } }
                        foreach ($vals as $j => $x) { if ($x === $v) { $iv = $j; break; } }
                        $ck($o->indexOfKey($k) === $ik && $o->indexOfValue($v) === $iv && $o->containsKey($k) === ($ik !== null) && $o->containsValue($v) === ($iv !== null) && $o->contains($v) === ($iv !== null), 'searches');
                    }
                    foreach ([-1, $n, PHP_INT_MAX] as $i) { $ck(outcome(fn() => $o->keyAt($i))[0] === 'throw' && outcome(fn() => $o->valueAt($i))[0] === 'throw', 'keyAt out of range'); }
                }
                break;
            case 'set':
                $indexed = str_contains($cls, 'Int') || str_contains($cls, 'String');
                $ck(Rep::of($cast) === Rep::of($vals), '(array)/values');
                $seen = [];
                foreach ($vals as $i => $v) {
                    $nk = Model::norm($v);
                    $ck(!isset($seen[$nk]), 'unique'); $seen[$nk] = 1;
                    $ck(Rep::same($it[$i][0], $indexed ? $i : $v), 'foreach key');
                    if ($i && $cls !== 'StrictHashSet') { $ck(Model::cmp($vals[$i - 1], $v) < 0, 'order'); }
                    if (str_contains($cls, 'Int')) { $ck(is_int($v), 'element type'); }
                    if (str_contains($cls, 'String')) { $ck(is_string($v), 'element type'); }
                    if ($i % max(1, intdiv($n, 12)) === 0) {
                        $ck($o->contains($v), 'contains');
                        if ($indexed) { $ck($o->get($i) === $v && $o->indexOf($v) === $i, 'get/indexOf'); }
                    }
                }
                $ck(!$o->contains(new \stdClass()), 'contains of a stranger');
                if ($indexed) { $ck(Rep::of($o->toArray()) === Rep::of($vals), 'toArray'); foreach ([-1, $n, PHP_INT_MAX] as $i) { $ck(outcome(fn() => $o->get($i))[0] === 'throw', 'get out of range'); } }
                else { $ta = Model::toArray(array_map(fn($v) => [$v, $v], $vals)); $real = outcome(fn() => $o->toArray()); $ck($ta === null ? $real[0] === 'throw' : Rep::of($real) === Rep::of(['ret', $ta]), 'toArray'); }
                break;
            case 'heap':
                $dir = $cls === 'StrictMinHeap' ? 1 : -1;
                $ck(Rep::of($cast) === Rep::of($vals), '(array)/values');
                $prev = null;
                foreach ($it as $i => [$k, $v]) { if ($i) { $ck($dir * Model::cmp($prev, $v) <= 0, 'extraction order'); } $prev = $v; }
                $a = array_map([Model::class, 'norm'], $vals); $b = array_map([Model::class, 'norm'], array_column($it, 1)); sort($a, SORT_STRING); sort($b, SORT_STRING);
                $ck($a === $b, 'extracted values');
                foreach ($vals as $i => $v) { if ($i % max(1, intdiv($n, 6)) === 0) { $ck($o->contains($v) === in_array($v, $vals, true), 'contains'); } }
                break;
        }
    }
}

/** Does a value match a declared type? */
final class TypeMonitor {
    public static function ok(?\ReflectionType $t, mixed $v): bool {
        if ($t === null) { return true; }
        if ($t instanceof \ReflectionUnionType) { foreach ($t->getTypes() as $x) { if (self::ok($x, $v)) { return true; } } return false; }
        if ($t instanceof \ReflectionIntersectionType) { foreach ($t->getTypes() as $x) { if (!self::ok($x, $v)) { return false; } } return true; }
        if ($v === null && $t->allowsNull()) { return true; }
        return match ($t->getName()) {
            'mixed' => true, 'int' => is_int($v), 'bool' => is_bool($v), 'string' => is_string($v), 'array' => is_array($v), 'float' => is_float($v),
            'void', 'null' => $v === null, 'never' => false, 'callable' => is_callable($v), 'iterable' => is_iterable($v), 'object' => is_object($v), 'true' => $v === true, 'false' => $v === false,
            'static', 'self' => is_object($v),
            default => is_object($v) && is_a($v, $t->getName()),
        };
    }
}
