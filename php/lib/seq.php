<?php
declare(strict_types=1);
/* Reference model and online monitor for the Sequence classes: a sequence is a PHP list. */

class SeqSubject {
    public object $o;
    public array $m = [];
    /** @var list<array{0:object,1:?int}> live iterators and their model position (null: not started) */
    public array $iters = [];
    public Gen $g; public Rng $r;
    public string $cls; public string $fq; public string $kind;
    public int $maxSize = 90;
    public bool $useIters = true;
    const KINDS = [
        'Vector' => ['mixed', 'scalar', 'obj', 'tiny'],
        'Deque' => ['mixed', 'scalar', 'obj', 'tiny'],
        'ImmutableSequence' => ['mixed', 'scalar', 'obj', 'tiny'],
        'LowMemoryVector' => ['mixed', 'scalar', 'tiny', 'i8', 'i16', 'i32', 'int', 'edge', 'bool', 'boolnull', 'null', 'float', 'numeric', 'string', 'obj'],
        'IntVector' => ['tiny', 'i8', 'i16', 'i32', 'int', 'edge'],
        'BitVector' => ['bool'],
    ];
    public static array $extraKinds = [];

    public function __construct(string $cls, Gen $g, ?string $kind = null, ?array $init = null) {
        $this->cls = $cls; $this->fq = 'Teds\\' . $cls; $this->g = $g; $this->r = $g->r;
        $this->kind = $kind ?? $this->r->pick(self::KINDS[$cls]);
        $this->m = array_values($init ?? $this->vals($this->r->chance(1, 6) ? 0 : $this->r->size($this->maxSize)));
        $it = $this->g->iterable($this->m);
        Rec::op("$cls::__construct", "new $cls(" . (is_array($it) ? 'array' : $it::class) . ' ' . $this->kind . '[' . count($this->m) . '] ' . Rep::show($this->m) . ')');
        $this->o = !$this->m && $this->r->bool() ? new ($this->fq)() : new ($this->fq)($it);
        $this->verify();
    }

    /** Values drawn for an operation. Low-memory vectors sometimes get a value of another kind, to force promotion. */
    public function val(): mixed {
        if ($this->cls === 'LowMemoryVector' && $this->r->chance(1, 40)) { $this->kind = $this->r->pick(self::KINDS['LowMemoryVector']); }
        if ($this->cls === 'IntVector' && $this->r->chance(1, 40)) { $this->kind = $this->r->pick(self::KINDS['IntVector']); }
        return $this->g->val($this->kind);
    }
    public function vals(int $n): array { $a = []; while ($n-- > 0) { $a[] = $this->val(); } return $a; }
    /** arguments of one call; for the classes with several widths often all alike but one */
    public function args(int $n): array {
        $a = $this->vals($n);
        if ($n > 1 && ($this->cls === 'LowMemoryVector' || $this->cls === 'IntVector') && $this->r->chance(1, 4)) {
            $kinds = $this->cls === 'IntVector' || $this->r->bool() ? ['i8', 'i16', 'i32', 'int', 'edge'] : self::KINDS[$this->cls];
            $a[$this->r->pick([0, $n - 1, $this->r->int(0, $n - 1)])] = $this->g->val($this->r->pick($kinds));
        }
        return $a;
    }
    /** a value the class does not accept, or null when it accepts everything */
    public function bad(): mixed {
        return match ($this->cls) {
            'IntVector' => $this->r->pick(['1', 1.0, null, true, [], 'x']),
            'BitVector' => $this->r->pick([0, 1, null, '1', 1.5, []]),
            default => null,
        };
    }
    public function typed(): bool { return $this->cls === 'IntVector' || $this->cls === 'BitVector'; }

    /** Run the real call; compare its outcome with the model's. */
    public function expect(string $op, string $args, \Closure $real, array $want): mixed {
        Rec::op("{$this->cls}::$op", "$op($args)");
        $got = outcome($real);
        $this->compare($op, $args, $got, $want);
        return $got[1];
    }
    public function compare(string $op, string $args, array $got, array $want): void {
        Rec::$checks++;
        if ($want[0] === 'throw') {
            if ($got[0] !== 'throw') { fail("{$this->cls}::$op:no-throw", "{$this->cls}::$op($args) returned " . Rep::show($got[1]) . " instead of throwing {$want[1]} on " . $this->show()); }
            if (!is_a($got[1], $want[1], true)) { fail("{$this->cls}::$op:wrong-throw", "{$this->cls}::$op($args) threw {$got[1]} instead of {$want[1]} on " . $this->show()); }
            Rec::count('operations rejected with an exception');
            return;
        }
        if ($got[0] !== 'ret') { fail("{$this->cls}::$op:throw", "{$this->cls}::$op($args) threw {$got[1]} on " . $this->show()); }
        if (!array_key_exists(1, $want)) { return; }
        if (!Rep::same($got[1], $want[1])) {
            fail("{$this->cls}::$op:result", "{$this->cls}::$op($args) returned " . Rep::show($got[1]) . ' instead of ' . Rep::show($want[1]) . ' on ' . $this->show());
        }
    }
    public function show(): string { return Rep::show($this->m); }

    // ---- model helpers ----
    private function itRemove(int $off): void {
        $n = count($this->m);
        foreach ($this->iters as &$it) { if ($it[1] !== null && $it[1] >= $off && $it[1] < $n) { $it[1]--; } }
    }
    private function itInsert(int $off, int $k): void {
        $n = count($this->m);
        foreach ($this->iters as &$it) { if ($it[1] !== null && $it[1] >= $off && $it[1] < $n) { $it[1] += $k; } }
    }
    private const OOB = ['throw', \OutOfBoundsException::class];
    private const UNDERFLOW = ['throw', \UnderflowException::class];
    private const TYPE = ['throw', \TypeError::class];

    public function offset(): int {
        $n = count($this->m);
        $r = $this->r;
        if ($r->chance(1, 8)) { return $r->pick([-1, $n, $n + 1, PHP_INT_MAX, PHP_INT_MIN, -$n, 1 << 32, (1 << 32) + 1, (1 << 61) + 1]); }
        return $n ? ($r->chance(1, 4) ? $r->pick([0, $n - 1]) : $r->int(0, $n - 1)) : $r->int(-1, 1);
    }
    private function inRange(int $i): bool { return $i >= 0 && $i < count($this->m); }

    public static function ops(string $cls): array {
        $w = [
            [10, 'push'], [4, 'append'], [7, 'pop'], [6, 'pushFront'], [5, 'popFront'], [7, 'insert'], [6, 'set'], [6, 'unsetAt'], [4, 'getAt'],
            [3, 'firstLast'], [2, 'search'], [1, 'clear'], [3, 'isset'], [3, 'badOffset'], [2, 'bulkPush'], [1, 'replace'], [1, 'reconstruct'], [8, 'iter'], [2, 'drain'],
        ];
        if ($cls === 'Vector') { array_push($w, [4, 'setSize'], [2, 'reserve'], [3, 'mapFilter']); }
        if ($cls === 'BitVector') { array_push($w, [5, 'setSize'], [8, 'words']); }
        if ($cls === 'IntVector' || $cls === 'BitVector') { $w[] = [2, 'badValue']; }
        return $w;
    }

    public function step(): void {
        $op = $this->r->weighted(self::ops($this->cls));
        $this->{'op_' . $op}();
        $this->verify();
    }

    public function op_push(): void {
        $v = $this->r->chance(1, 10) ? [] : $this->args($this->r->int(1, 3));
        $name = $this->r->bool() ? 'push' : match ($this->cls) { 'IntVector' => 'pushInts', 'BitVector' => 'pushBits', default => 'push' };
        $this->expect($name, Rep::showArgs($v), fn() => $this->o->$name(...$v), ['ret', null]);
        array_push($this->m, ...$v);
    }
    public function op_append(): void {
        $v = $this->val();
        $this->expect('[]=', Rep::show($v), function () use ($v) { $this->o[] = $v; }, ['ret', null]);
        $this->m[] = $v;
    }
    public function op_bulkPush(): void {
        if (count($this->m) > 400) { return; }
        $v = $this->args($this->r->int(4, 70));
        $this->expect('push*', Rep::showArgs($v), fn() => $this->o->push(...$v), ['ret', null]);
        array_push($this->m, ...$v);
    }
    public function op_drain(): void {
        $n = $this->r->int(0, count($this->m));
        $front = $this->r->bool();
        for ($i = 0; $i < $n; $i++) { $front ? $this->op_popFront() : $this->op_pop(); }
    }
    public function op_pop(): void {
        if (!$this->m) { $this->expect('pop', '', fn() => $this->o->pop(), self::UNDERFLOW); return; }
        $n = count($this->m);
        $this->expect('pop', '', fn() => $this->o->pop(), ['ret', $this->m[$n - 1]]);
        $this->itRemove($n - 1);
        array_pop($this->m);
    }
    public function op_popFront(): void {
        $name = $this->r->bool() ? 'popFront' : 'shift';
        if (!$this->m) { $this->expect($name, '', fn() => $this->o->$name(), self::UNDERFLOW); return; }
        $this->expect($name, '', fn() => $this->o->$name(), ['ret', $this->m[0]]);
        $this->itRemove(0);
        array_shift($this->m);
    }
    public function op_pushFront(): void {
        $v = $this->r->chance(1, 10) ? [] : $this->args($this->r->int(1, $this->r->chance(1, 5) ? 30 : 4));
        $name = $this->r->bool() ? 'pushFront' : 'unshift';
        $this->expect($name, Rep::showArgs($v), fn() => $this->o->$name(...$v), ['ret', null]);
        $this->itInsert(0, count($v));
        $this->m = array_merge(array_reverse($v), $this->m);
    }
    public function op_insert(): void {
        $n = count($this->m);
        $off = $this->r->chance(1, 5) ? $this->r->pick([0, $n, $n + 1, -1]) : ($this->r->chance(1, 12) ? $this->offset() : $this->r->int(0, $n));
        $v = $this->r->chance(1, 10) ? [] : $this->args($this->r->int(1, $this->r->chance(1, 5) ? 30 : 3));
        $args = $off . ', ' . Rep::showArgs($v);
        if ($off < 0 || $off > $n) { $this->expect('insert', $args, fn() => $this->o->insert($off, ...$v), self::OOB); return; }
        $this->expect('insert', $args, fn() => $this->o->insert($off, ...$v), ['ret', null]);
        $this->itInsert($off, count($v));
        array_splice($this->m, $off, 0, $v);
    }
    public function op_set(): void {
        $off = $this->offset(); $v = $this->val();
        $how = $this->r->int(0, 3);
        $want = $this->inRange($off) ? ['ret', null] : self::OOB;
        if ($how == 0) { $this->expect('set', "$off, " . Rep::show($v), fn() => $this->o->set($off, $v), $want); }
        elseif ($how == 1) { $this->expect('[i]=', "$off, " . Rep::show($v), function () use ($off, $v) { $this->o[$off] = $v; }, $want[0] === 'throw' ? ['throw', \RuntimeException::class] : $want); }
        elseif ($how == 2) { $this->expect('offsetSet', "$off, " . Rep::show($v), fn() => $this->o->offsetSet($off, $v), $want); }
        else {
            $name = match ($this->cls) { 'IntVector' => 'setInt', 'BitVector' => 'setBit', default => 'set' };
            $this->expect($name, "$off, " . Rep::show($v), fn() => $this->o->$name($off, $v), $want);
        }
        if ($this->inRange($off)) { $this->m[$off] = $v; }
    }
    public function op_unsetAt(): void {
        $off = $this->offset();
        $want = $this->inRange($off) ? ['ret', null] : self::OOB;
        if ($this->r->bool()) { $this->expect('unset', (string)$off, function () use ($off) { unset($this->o[$off]); }, $want); }
        else { $this->expect('offsetUnset', (string)$off, fn() => $this->o->offsetUnset($off), $want); }
        if ($this->inRange($off)) { $this->itRemove($off); array_splice($this->m, $off, 1); }
    }
    public function op_getAt(): void {
        $off = $this->offset();
        $want = $this->inRange($off) ? ['ret', $this->m[$off]] : self::OOB;
        switch ($this->r->int(0, 2)) {
            case 0: $this->expect('get', (string)$off, fn() => $this->o->get($off), $want); break;
            case 1: $this->expect('[i]', (string)$off, fn() => $this->o[$off], $want); break;
            default: $this->expect('offsetGet', (string)$off, fn() => $this->o->offsetGet($off), $want);
        }
    }
    public function op_isset(): void {
        $off = $this->offset();
        $in = $this->inRange($off);
        $this->expect('isset', (string)$off, fn() => isset($this->o[$off]), ['ret', $in && $this->m[$off] !== null]);
        $this->expect('empty', (string)$off, fn() => empty($this->o[$off]), ['ret', !$in || !$this->m[$off]]);
        $this->expect('offsetExists', (string)$off, fn() => $this->o->offsetExists($off), ['ret', $in && $this->m[$off] !== null]);
        $this->expect('containsKey', (string)$off, fn() => $this->o->containsKey($off), ['ret', $in]);
        $this->expect('[i]??', (string)$off, fn() => $this->o[$off] ?? 'dflt', ['ret', $in ? ($this->m[$off] ?? 'dflt') : 'dflt']);
    }
    public function op_badOffset(): void {
        $n = count($this->m);
        // offsets that are converted to int
        [$off, $int] = $this->r->pick([['0', 0], ['1', 1], ["$n", $n], [1.0, 1], [0.0, 0], [true, 1], [false, 0], ['-1', -1], ['x', null], ['', null], [null, null], [[], null], ['1x', null]]);
        $in = $int !== null && $this->inRange($int);
        $want = $int === null ? self::TYPE : ($in ? ['ret', $this->m[$int]] : self::OOB);
        $this->expect('offsetGet~', Rep::show($off), fn() => $this->o->offsetGet($off), $want);
        $this->expect('[~]', Rep::show($off), fn() => $this->o[$off], $want);
        $this->expect('offsetExists~', Rep::show($off), fn() => $this->o->offsetExists($off), $int === null ? self::TYPE : ['ret', $in && $this->m[$int] !== null]);
        $v = $this->val();
        $this->expect('offsetSet~', Rep::show($off), fn() => $this->o->offsetSet($off, $v), $int === null ? self::TYPE : ($in ? ['ret', null] : self::OOB));
        if ($in) { $this->m[$int] = $v; }
        if ($int === null && $this->r->bool()) { $this->expect('offsetUnset~', Rep::show($off), fn() => $this->o->offsetUnset($off), self::TYPE); }
        $k = $this->r->pick(['x', [], null, 1.5, '0']);
        if ($this->cls !== 'Deque' && $this->cls !== 'ImmutableSequence') { $this->expect('containsKey~', Rep::show($k), fn() => $this->o->containsKey($k), ['ret', false]); }
    }
    public function op_badValue(): void {
        $bad = $this->bad();
        $pre = $this->vals($this->r->int(0, 2));
        $off = $this->r->int(0, max(0, count($this->m) - 1));
        switch ($this->r->int(0, 4)) {
            case 0: $this->expect('set!', Rep::show($bad), fn() => $this->o->set($off, $bad), self::TYPE); break;
            case 1: $this->expect('[]=!', Rep::show($bad), function () use ($bad) { $this->o[] = $bad; }, self::TYPE); break;
            case 2: $this->expect('[i]=!', Rep::show($bad), function () use ($off, $bad) { $this->o[$off] = $bad; }, self::TYPE); break;
            case 3: $this->expect('offsetSet!', Rep::show($bad), fn() => $this->o->offsetSet($off, $bad), self::TYPE); break;
            default: $this->expect('push!', Rep::showArgs([...$pre, $bad]), fn() => $this->o->push($bad), self::TYPE);
        }
        $c = $this->fq; $it = $this->g->iterable([...$pre, $bad]);
        $this->expect('__construct!', Rep::showArgs([...$pre, $bad]), fn() => new $c($it), self::TYPE);
    }
    public function op_firstLast(): void {
        $n = count($this->m);
        $this->expect('first', '', fn() => $this->o->first(), $n ? ['ret', $this->m[0]] : self::UNDERFLOW);
        $this->expect('last', '', fn() => $this->o->last(), $n ? ['ret', $this->m[$n - 1]] : self::UNDERFLOW);
        if ($this->cls === 'Deque') {
            $this->expect('bottom', '', fn() => $this->o->bottom(), $n ? ['ret', $this->m[0]] : self::UNDERFLOW);
            $this->expect('top', '', fn() => $this->o->top(), $n ? ['ret', $this->m[$n - 1]] : self::UNDERFLOW);
        }
    }
    public function op_search(): void {
        $v = $this->m && $this->r->bool() ? $this->r->pick($this->m) : $this->val();
        $idx = null;
        foreach ($this->m as $i => $x) { if ($x === $v) { $idx = $i; break; } }
        if ($this->cls === 'BitVector') { $this->searchBits($v, $idx); return; }
        $this->expect('indexOf', Rep::show($v), fn() => $this->o->indexOf($v), ['ret', $idx]);
        $this->expect('contains', Rep::show($v), fn() => $this->o->contains($v), ['ret', $idx !== null]);
        if ($this->m) { // what looks like an element when cut to fewer bits or converted is not one
            $w = Gen::alias($this->r->pick($this->m), $this->r);
            $at = array_search($w, $this->m, true);
            $this->expect('contains', Rep::show($w), fn() => $this->o->contains($w), ['ret', $at !== false]);
            if ($this->cls !== 'IntVector' || is_int($w)) { $this->expect('indexOf', Rep::show($w), fn() => $this->o->indexOf($w), ['ret', $at === false ? null : $at]); }
        }
        $w = $this->g->val('mixed');
        $this->expect('contains', Rep::show($w), fn() => $this->o->contains($w), ['ret', in_array($w, $this->m, true)]);
    }
    /** BitVector::indexOf/contains are listed as a known finding (they answer for the opposite value): accept exactly that, and nothing else. */
    private function searchBits(bool $v, ?int $idx): void {
        $opp = array_search(!$v, $this->m, true);
        $opp = $opp === false ? null : $opp;
        foreach (['indexOf' => [$idx, $opp], 'contains' => [$idx !== null, $opp !== null]] as $f => [$want, $inv]) {
            Rec::op("BitVector::$f", "$f(" . Rep::show($v) . ')');
            $got = $this->o->$f($v);
            Rec::$checks++;
            if ($got === $want) { continue; }
            if ($got === $inv) { Rec::soft("BitVector::$f:answers-for-the-opposite-value", "$f(" . Rep::show($v) . ') is ' . Rep::show($got) . ' instead of ' . Rep::show($want) . ' on ' . $this->show()); continue; }
            fail("BitVector::$f:result", "$f(" . Rep::show($v) . ') is ' . Rep::show($got) . ' instead of ' . Rep::show($want) . ' on ' . $this->show());
        }
        $w = $this->r->pick([0, 1, null, '1', 1.5, []]);
        $this->expect('contains', Rep::show($w), fn() => $this->o->contains($w), ['ret', false]);
    }
    public function op_clear(): void {
        $this->expect('clear', '', fn() => $this->o->clear(), ['ret', null]);
        $this->m = [];
    }
    /** continue with a clone; the original must keep its contents */
    public function op_replace(): void {
        Rec::op("{$this->cls}::clone", 'clone');
        $old = $this->o; $m = $this->m;
        $this->o = clone $old;
        $keep = $this->r->bool();
        if ($keep) { // mutate the clone, original unchanged
            $this->iters = [];
            $this->op_push(); $this->op_insert();
            checkSame($old->toArray(), $m, "{$this->cls}::clone:aliases", 'original changed by mutating its clone');
        } else { // mutate the original, clone unchanged
            $c = $this->o; $this->o = $old;
            $this->op_push(); $this->op_set(); $this->op_pushFront();
            checkSame($c->toArray(), $m, "{$this->cls}::clone:aliases", 'clone changed by mutating the original');
        }
    }
    public function op_reconstruct(): void {
        $v = $this->vals(2);
        $this->expect('__construct again', '', fn() => $this->o->__construct($v), ['throw', \Exception::class]);
    }
    public function op_setSize(): void {
        $n = count($this->m);
        $to = $this->r->pick([-1, 0, $n, $n - 1, $n + 1, $n + 7, $n * 2, intdiv($n, 2), $this->r->int(0, $this->maxSize), $this->r->int(0, 200)]);
        if ($this->cls === 'BitVector') { $to = $this->r->pick([$to, 8, 16, 63, 64, 65, 127, 128, 129, 192, 256]); }
        $v = $this->val();
        $dflt = $this->r->chance(1, 3);
        $fill = $dflt ? ($this->cls === 'BitVector' ? false : null) : $v;
        $real = $dflt ? fn() => $this->o->setSize($to) : fn() => $this->o->setSize($to, $v);
        if ($to < 0) { $this->expect('setSize', "$to", $real, ['throw', \ValueError::class]); return; }
        $this->expect('setSize', "$to, " . ($dflt ? '' : Rep::show($v)), $real, ['ret', null]);
        $this->m = $to <= $n ? array_slice($this->m, 0, $to) : array_pad($this->m, $to, $fill);
    }
    public function op_reserve(): void {
        if ($this->r->bool()) {
            $this->expect('shrinkToFit', '', fn() => $this->o->shrinkToFit(), ['ret', null]);
            checkSame($this->o->capacity(), count($this->m), 'Vector::shrinkToFit:capacity', 'capacity after shrinkToFit');
        } else {
            $k = $this->r->pick([0, 1, count($this->m), count($this->m) + 5, 64]);
            $this->expect('reserve', "$k", fn() => $this->o->reserve($k), ['ret', null]);
            check($this->o->capacity() >= $k, 'Vector::reserve:capacity', 'capacity below reserved');
        }
    }
    public function op_mapFilter(): void {
        $seen = [];
        switch ($this->r->int(0, 2)) {
            case 0:
                $res = $this->expect('map', '', function () use (&$seen) { return $this->o->map(function ($x) use (&$seen) { $seen[] = $x; return [$x]; }); }, ['ret']);
                checkSame($seen, $this->m, "{$this->cls}::map:calls", 'map callback arguments');
                check($res instanceof $this->fq, "{$this->cls}::map:type", 'map result type');
                checkSame($res->toArray(), array_map(fn($x) => [$x], $this->m), "{$this->cls}::map:result", 'map result');
                break;
            case 1:
                $k = $this->r->int(0, 3); $i = 0;
                $f = function ($x) use (&$i, $k) { return $i++ % 4 >= $k; };
                $res = $this->expect('filter', "keep 4-$k", fn() => $this->o->filter($f), ['ret']);
                checkSame($i, count($this->m), "{$this->cls}::filter:calls", 'filter calls');
                $j = 0;
                checkSame($res->toArray(), array_values(array_filter($this->m, function () use (&$j, $k) { return $j++ % 4 >= $k; })), "{$this->cls}::filter:result", 'filter result');
                break;
            default:
                $res = $this->expect('filter', '', fn() => $this->o->filter(), ['ret']);
                checkSame($res->toArray(), array_values(array_filter($this->m)), "{$this->cls}::filter:result", 'filter() result');
        }
        if ($this->r->bool()) { $res->push(...$this->vals(2)); $res->pop(); }
    }
    /** BitVector word views */
    public function op_words(): void {
        $bits = $this->r->pick([8, 16, 32, 64]);
        $n = intdiv(count($this->m), $bits);
        $off = $this->r->chance(1, 6) ? $this->r->pick([-1, $n, $n + 1, PHP_INT_MAX]) : $this->r->int(0, max(0, $n - 1));
        $in = $off >= 0 && $off < $n;
        if ($this->r->bool()) {
            $v = 0; $u = 0;
            if ($in) {
                for ($i = 0; $i < $bits; $i++) { if ($this->m[$off * $bits + $i]) { $u |= 1 << $i; } }
                $v = $bits < 64 && ($u & (1 << ($bits - 1))) ? $u - (1 << $bits) : $u;
            }
            $this->expect("getInt$bits", "$off", fn() => $this->o->{"getInt$bits"}($off), $in ? ['ret', $v] : self::OOB);
            if ($bits < 64) { $this->expect("getUInt$bits", "$off", fn() => $this->o->{"getUInt$bits"}($off), $in ? ['ret', $u] : self::OOB); }
        } else {
            $v = $this->g->int();
            $this->expect("setInt$bits", "$off, $v", fn() => $this->o->{"setInt$bits"}($off, $v), $in ? ['ret', null] : self::OOB);
            if ($in) { for ($i = 0; $i < $bits; $i++) { $this->m[$off * $bits + $i] = (bool)(($v >> $i) & 1); } }
        }
    }
    /** Live iterators, interleaved with mutations. */
    public function op_iter(): void {
        if (!$this->useIters) { return; }
        $r = $this->r;
        if (!$this->iters || ($r->chance(1, 6) && count($this->iters) < 4)) {
            Rec::op("{$this->cls}::getIterator", 'getIterator');
            $it = $this->o->getIterator();
            $it->rewind();
            $this->iters[] = [$it, 0];
            return;
        }
        if ($r->chance(1, 10)) { array_splice($this->iters, $r->int(0, count($this->iters) - 1), 1); Rec::note('drop iterator'); return; }
        $k = $r->int(0, count($this->iters) - 1);
        [$it, $pos] = $this->iters[$k];
        $in = $this->inRange($pos);
        $this->expect('it.valid', "it$k@$pos", fn() => $it->valid(), ['ret', $in]);
        $this->expect('it.key', "it$k@$pos", fn() => $it->key(), ['ret', $in ? $pos : null]);
        $this->expect('it.current', "it$k@$pos", fn() => $it->current(), $in ? ['ret', $this->m[$pos]] : self::OOB);
        if ($r->chance(1, 8)) { $this->expect('it.rewind', "it$k", fn() => $it->rewind(), ['ret', null]); $this->iters[$k][1] = 0; }
        elseif ($r->chance(3, 4)) { $this->expect('it.next', "it$k", fn() => $it->next(), ['ret', null]); $this->iters[$k][1]++; }
        Rec::count('iterator positions checked against the model');
    }

    /** The observable state after every operation equals the model. */
    public function verify(): void {
        $n = count($this->m);
        Rec::max('largest collection', $n);
        $key = $this->cls . ':state';
        check($this->o->count() === $n, $key, fn() => "count() is {$this->o->count()}, model has $n");
        $a = $this->o->toArray();
        check(array_is_list($a) && Rep::list($a) === Rep::list($this->m), $key, fn() => 'toArray() is ' . Rep::show($a) . ' model ' . $this->show());
        Rec::state($this->cls . '|' . Rep::list($this->m));
        if ($this->r->chance(1, 6)) { $this->views($a); }
    }
    public function views(array $a): void {
        $key = $this->cls . ':views'; $o = $this->o; $n = count($this->m);
        Rec::count('full view comparisons');
        checkSame($o->isEmpty(), $n === 0, $key, 'isEmpty');
        checkSame(count($o), $n, $key, 'count($o)');
        checkSame($o->values(), $a, $key, 'values()');
        $i = 0;
        foreach ($o as $k => $v) {
            check($k === $i && $i < $n && Rep::same($v, $a[$i]), $key, fn() => "foreach yields $k => " . Rep::show($v) . " at step $i, model " . $this->show());
            $i++;
        }
        checkSame($i, $n, $key, 'foreach count');
        checkSame((array)$o, $a, $key, '(array) cast');
        checkSame($o->jsonSerialize(), $a, $key, 'jsonSerialize');
        if (method_exists($o, 'capacity')) { check($o->capacity() >= $n, $key, "capacity {$o->capacity()} < count $n"); }
        if ($n) {
            checkSame($o->first(), $a[0], $key, 'first'); checkSame($o->last(), $a[$n - 1], $key, 'last');
            $i = $this->r->int(0, $n - 1);
            checkSame($o->get($i), $a[$i], $key, "get($i)"); checkSame($o[$i], $a[$i], $key, "[$i]");
        }
        if ($this->cls === 'BitVector') {
            $s = '';
            for ($i = 0; $i < $n; $i += 8) { $b = 0; for ($j = 0; $j < 8 && $i + $j < $n; $j++) { if ($this->m[$i + $j]) { $b |= 1 << $j; } } $s .= chr($b); }
            checkSame($o->toBinaryString(), $s, $key, 'toBinaryString');
            checkSame(\Teds\BitVector::fromBinaryString($s)->toArray(), array_pad($a, strlen($s) * 8, false), $key, 'fromBinaryString');
        }
    }
}
