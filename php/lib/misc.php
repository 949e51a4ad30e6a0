<?php
declare(strict_types=1);
/* Monitors for the key/value iterables: ImmutableIterable, MutableIterable, CachedIterable. */

final class PairsSubject {
    public object $o;
    /** @var list<array{0:mixed,1:mixed}> */
    public array $m = [];
    public array $iters = [];
    public Rng $r;
    private string $kk; private string $vk;
    public string $fq;
    public function __construct(public string $cls, public Gen $g) {
        $this->r = $g->r; $this->fq = 'Teds\\' . $cls;
        $this->kk = $this->r->pick(['mixed', 'scalar', 'tiny', 'string', 'obj', 'strint']);
        $this->vk = $this->r->pick(['mixed', 'scalar', 'tiny', 'obj', 'null']);
        $this->build();
    }
    private function pairs(int $n): array { $a = []; while ($n-- > 0) { $a[] = [$this->g->val($this->kk), $this->g->val($this->vk)]; } return $a; }
    public static function gen(array $pairs): \Generator { foreach ($pairs as [$k, $v]) { yield $k => $v; } }
    public static function arr(array $pairs): array { $a = []; foreach ($pairs as [$k, $v]) { $a[is_int($k) || is_string($k) ? $k : 'k' . count($a)] = $v; } return $a; }
    private function build(): void {
        $r = $this->r; $fq = $this->fq;
        $p = $this->pairs($r->chance(1, 6) ? 0 : $r->size(60));
        $how = $r->pick(['generator', 'array', 'fromPairs(array)', 'fromPairs(generator)', '__set_state', 'unserialize', 'other', 'none']);
        if ($how === 'none' && $this->cls !== 'MutableIterable') { $how = 'generator'; }
        if ($how === 'unserialize' && (in_array($this->kk, ['mixed', 'obj'], true) || in_array($this->vk, ['mixed', 'obj'], true))) { $how = 'generator'; }
        Rec::op("{$this->cls}::__construct", "{$this->cls} by $how " . Rep::show($p));
        switch ($how) {
            case 'none': $p = []; $this->o = new $fq(); break;
            case 'generator': $this->o = new $fq(self::gen($p)); break;
            case 'array':
                $a = self::arr($p);
                if ($r->bool()) { $a['hole'] = 1; unset($a['hole']); }
                $p = []; foreach ($a as $k => $v) { $p[] = [$k, $v]; }
                if ($r->bool()) { foreach ($a as $k => $_) { $refs[] = &$a[$k]; } }
                $this->o = new $fq($this->g->shared($a)); break;
            case 'fromPairs(array)':
                $in = $p;
                foreach ($in as $i => $_) { if ($i % 4 == 1) { $q = &$in[$i]; unset($q); } if ($i % 4 == 2) { $q = &$in[$i][1]; unset($q); } if ($i % 4 == 3) { $in[$i] = [1 => $in[$i][1], 0 => $in[$i][0], 'more' => 1]; } }
                $this->o = $fq::fromPairs($in); break;
            case 'fromPairs(generator)': $this->o = $fq::fromPairs((function () use ($p) { foreach ($p as $x) { yield 'any' => $x; } })()); break;
            case '__set_state': $this->o = $fq::__set_state($this->g->shared($p)); break;
            case 'unserialize':
                $flat = []; foreach ($p as [$k, $v]) { $flat[] = $k; $flat[] = $v; }
                $body = ''; foreach ($flat as $i => $x) { $body .= "i:$i;" . serialize($x); }
                $this->o = unserialize('O:' . strlen($fq) . ":\"$fq\":" . count($flat) . ":{" . $body . '}'); break;
            case 'other': $this->o = new $fq(new \Teds\ImmutableIterable(self::gen($p))); break;
        }
        $this->m = $p;
        $this->verify(true);
    }
    public function show(): string { return Rep::show($this->m); }
    public function expect(string $op, string $args, \Closure $real, array $want): mixed {
        Rec::op("{$this->cls}::$op", "$op($args)");
        $got = outcome($real);
        Rec::$checks++;
        $id = "{$this->cls}::$op";
        if ($want[0] === 'throw') {
            if ($got[0] !== 'throw') { fail("$id:no-throw", "$id($args) returned " . Rep::show($got[1]) . " instead of throwing {$want[1]} on " . $this->show()); }
            if (!is_a($got[1], $want[1], true)) { fail("$id:wrong-throw", "$id($args) threw {$got[1]} instead of {$want[1]} on " . $this->show()); }
            Rec::count('operations rejected with an exception');
            return null;
        }
        if ($got[0] !== 'ret') { fail("$id:throw", "$id($args) threw {$got[1]} on " . $this->show()); }
        if (array_key_exists(1, $want) && !Rep::same($got[1], $want[1])) {
            fail("$id:result", "$id($args) returned " . Rep::show($got[1]) . ' instead of ' . Rep::show($want[1]) . ' on ' . $this->show());
        }
        return $got[1];
    }
    /** every view against the model */
    public function verify(bool $full = false): void {
        $o = $this->o; $m = $this->m; $c = $this->cls; $n = count($m);
        Rec::state($c . Rep::pairs($m));
        Rec::max('most entries in one collection', $n);
        checkSame($o->toPairs(), $m, "$c::toPairs", 'toPairs');
        checkSame($o->count(), $n, "$c::count", 'count()');
        if (!$full && !$this->r->chance(1, 6)) { return; }
        checkSame(count($o), $n, "$c::count", 'count($o)');
        checkSame($o->isEmpty(), $n === 0, "$c::isEmpty", 'isEmpty');
        checkSame($o->keys(), array_column($m, 0), "$c::keys", 'keys');
        checkSame($o->values(), array_column($m, 1), "$c::values", 'values');
        checkSame($o->jsonSerialize(), $m, "$c::jsonSerialize", 'jsonSerialize');
        checkSame((array)$o, $m, "$c::(array)", '(array)');
        $flat = []; foreach ($m as [$k, $v]) { $flat[] = $k; $flat[] = $v; }
        checkSame($o->__serialize(), $flat, "$c::__serialize", '__serialize');
        $a = Model::toArray($m);
        $got = outcome(fn() => $o->toArray());
        if ($a === null) { check($got === ['throw', 'TypeError'], "$c::toArray", fn() => 'toArray with a key that cannot be an array key: ' . Rep::show($got)); }
        else { check($got[0] === 'ret' && Rep::same($got[1], $a), "$c::toArray", fn() => 'toArray: ' . Rep::show($got[1]) . ' want ' . Rep::show($a)); }
        $seen = [];
        foreach ($o as $k => $v) { $seen[] = [$k, $v]; if (count($seen) > $n + 3) { break; } }
        checkSame($seen, $m, "$c::foreach", 'foreach');
        foreach ([$n ? $this->r->int(0, $n - 1) : 0, 0, $n - 1, $n, -1, PHP_INT_MAX, PHP_INT_MIN, 1 << 32] as $i) {
            $in = $i >= 0 && $i < $n;
            foreach (['keyAt' => 0, 'valueAt' => 1] as $f => $w) {
                $got = outcome(fn() => $o->$f($i));
                if ($in) { check($got[0] === 'ret' && Rep::same($got[1], $m[$i][$w]), "$c::$f", fn() => "$f($i): " . Rep::show($got[1]) . ' want ' . Rep::show($m[$i][$w])); }
                else { check($got[0] === 'throw' && is_a($got[1], 'OutOfBoundsException', true), "$c::$f", fn() => "$f($i) out of range of $n: " . Rep::show($got)); }
            }
        }
        $needles = [$this->g->val($this->kk), $this->g->val($this->vk), $this->g->val('mixed')];
        if ($n) { $x = $m[$this->r->int(0, $n - 1)]; $needles[] = $x[0]; $needles[] = $x[1]; }
        foreach ($needles as $x) { $this->search($x); }
        if ($n > 4) { Rec::count('views of collections with more than 4 entries compared'); }
    }
    private function search(mixed $x): void {
        $c = $this->cls; $o = $this->o;
        foreach ([0 => ['indexOfKey', 'containsKey'], 1 => ['indexOfValue', 'contains']] as $w => [$fi, $fc]) {
            $want = null;
            foreach ($this->m as $i => $p) { if ($p[$w] === $x) { $want = $i; break; } }
            checkSame($o->$fi($x), $want, "$c::$fi", "$fi(" . Rep::show($x) . ')');
            checkSame($o->$fc($x), $want !== null, "$c::$fc", "$fc(" . Rep::show($x) . ')');
        }
    }
    // ---- iterators ----
    private function itNew(): void { $this->iters[] = [$this->o->getIterator(), null]; Rec::op("{$this->cls}::getIterator", 'getIterator'); }
    private function op_iter(): void {
        if (!$this->iters || (count($this->iters) < 4 && $this->r->chance(1, 5))) { $this->itNew(); return; }
        $i = array_rand_r($this->r, $this->iters);
        $it = $this->iters[$i][0]; $pos = &$this->iters[$i][1];
        if ($pos === null) { $pos = 0; }
        $n = count($this->m);
        switch ($this->r->int(0, 6)) {
            case 0: $it->rewind(); $pos = 0; Rec::note("it$i->rewind()"); break;
            case 1: case 2: case 3: if ($pos < $n) { $it->next(); $pos++; Rec::note("it$i->next()"); } break;
            case 4: unset($pos); array_splice($this->iters, $i, 1); return;
        }
        $this->itCheck($i);
    }
    private function itCheck(int $i): void {
        [$it, $pos] = $this->iters[$i];
        if ($pos === null) { return; }
        $c = $this->cls; $n = count($this->m);
        $valid = $pos >= 0 && $pos < $n;
        checkSame($it->valid(), $valid, "$c::iterator valid", "iterator at $pos of $n: valid()");
        Rec::count('iterator observations');
        if ($valid) {
            checkSame($it->key(), $this->m[$pos][0], "$c::iterator key", "iterator at $pos: key()");
            checkSame($it->current(), $this->m[$pos][1], "$c::iterator current", "iterator at $pos: current()");
        }
    }
    private function itPop(): void {
        $n = count($this->m);
        foreach ($this->iters as &$it) { if ($it[1] === $n - 1) { $it[1]--; } }
    }
    // ---- operations ----
    public function step(): void {
        $r = $this->r; $n = count($this->m); $o = $this->o;
        if ($this->cls === 'ImmutableIterable') {
            switch ($r->int(0, 3)) {
                case 0: $this->op_iter(); break;
                case 1: $this->expect('clear', '', fn() => $o->clear(), ['throw', 'Teds\\UnsupportedOperationException']); break;
                case 2: $this->expect('__construct', 'again', fn() => $o->__construct([1]), ['throw', 'RuntimeException']); break;
                case 3: $this->search($this->g->val('mixed')); break;
            }
            $this->verify();
            return;
        }
        switch ($r->weighted([[12, 'push'], [9, 'pop'], [5, 'setSize'], [6, 'setKeyAt'], [6, 'setValueAt'], [2, 'shrinkToFit'], [1, 'clear'], [8, 'iter'], [1, 'again'], [2, 'drain'], [2, 'bulk'], [1, 'iterateModify']])) {
            case 'push': [$p] = $this->pairs(1); $this->expect('push', Rep::showArgs($p), fn() => $o->push(...$p), ['ret', null]); $this->m[] = $p; break;
            case 'bulk': foreach ($this->pairs($r->int(2, 40)) as $p) { $o->push(...$p); $this->m[] = $p; } Rec::op('MutableIterable::push', 'push several'); break;
            case 'pop': $this->pop(); break;
            case 'drain': for ($i = $r->int(0, $n); $i > 0; $i--) { $this->pop(); } break;
            case 'setSize':
                $s = $r->chance(1, 8) ? -$r->int(1, 3) : $r->size(120);
                if ($r->chance(1, 4)) { $s = max(0, $n - $r->int(0, 3)); }
                if ($s < 0) { $this->expect('setSize', "$s", fn() => $o->setSize($s), ['throw', 'ValueError']); break; }
                $this->expect('setSize', "$s", fn() => $o->setSize($s), ['ret', null]);
                while (count($this->m) > $s) { array_pop($this->m); }
                while (count($this->m) < $s) { $this->m[] = [null, null]; }
                break;
            case 'setKeyAt': case 'setValueAt':
                $w = $r->int(0, 1); $f = $w ? 'setValueAt' : 'setKeyAt';
                $x = $this->g->val($w ? $this->vk : $this->kk);
                $i = $n && !$r->chance(1, 6) ? $r->int(0, $n - 1) : $r->pick([-1, $n, $n + 7, PHP_INT_MIN, 1 << 32]);
                $in = $i >= 0 && $i < $n;
                $this->expect($f, "$i, " . Rep::show($x), fn() => $o->$f($i, $x), $in ? ['ret', null] : ['throw', 'OutOfBoundsException']);
                if ($in) { $this->m[$i][$w] = $x; }
                break;
            case 'shrinkToFit':
                $this->expect('shrinkToFit', '', fn() => $o->shrinkToFit(), ['ret', null]);
                checkSame($o->capacity(), $n, 'MutableIterable::capacity', 'capacity after shrinkToFit');
                break;
            case 'clear': $this->expect('clear', '', fn() => $o->clear(), ['ret', null]); $this->m = []; break;
            case 'again': $this->expect('__construct', 'again', fn() => $o->__construct([1]), ['throw', 'RuntimeException']); break;
            case 'iter': $this->op_iter(); break;
            case 'iterateModify':
                // foreach sees entries appended behind it
                $seen = []; $add = $r->int(0, 3); $j = 0;
                foreach ($o as $k => $v) {
                    $seen[] = [$k, $v];
                    if ($add-- > 0) { [$p] = $this->pairs(1); $o->push(...$p); $this->m[] = $p; }
                    if ($j++ > 500) { break; }
                }
                Rec::op('MutableIterable::foreach+push', 'foreach with push inside');
                checkSame($seen, $this->m, 'MutableIterable::foreach+push', 'foreach with push inside');
                break;
        }
        check($o->capacity() >= count($this->m), 'MutableIterable::capacity', fn() => 'capacity ' . $o->capacity() . ' below count');
        foreach ($this->iters as $i => $_) { $this->itCheck($i); }
        $this->verify();
    }
    private function pop(): void {
        if (!$this->m) { $this->expect('pop', '', fn() => $this->o->pop(), ['throw', 'UnderflowException']); return; }
        $this->expect('pop', '', fn() => $this->o->pop(), ['ret', $this->m[count($this->m) - 1]]);
        $this->itPop();
        array_pop($this->m);
    }
}
function array_rand_r(Rng $r, array $a): int { return $r->int(0, count($a) - 1); }

final class SourceFail extends \Exception {}

/** What a lazy source was asked for. */
final class SourceLog {
    public int $produced = 0;       // elements produced so far
    public array $current = [];     // index => number of current() calls
    public array $key = [];
    public int $rewinds = 0; public int $ends = 0; public bool $failed = false; public int $afterEnd = 0;
    public ?\Closure $hook = null;  // called while element $i is being produced
    public int $failAt = -1; public string $failIn = 'next';
    public function produce(int $i): void {
        check($i === $this->produced, 'CachedIterable:source-order', fn() => "element $i of the source asked for after {$this->produced} were produced");
        if ($this->hook) { ($this->hook)($i); }
        if ($this->failAt === $i) { $this->failed = true; throw new SourceFail("element $i"); }
        $this->produced++;
    }
}
final class LoggedIterator implements \Iterator {
    private int $i = 0; private int $got = 0;
    public function __construct(private array $p, private SourceLog $l) {}
    private function ensure(string $in): void { if ($this->i < count($this->p) && $this->got <= $this->i && ($this->l->failAt !== $this->i || $this->l->failIn === $in)) { $this->l->produce($this->i); $this->got++; } }
    public function rewind(): void { $this->l->rewinds++; check($this->l->rewinds === 1, 'CachedIterable:source-rewound', 'the source was rewound twice'); }
    public function valid(): bool {
        if ($this->i >= count($this->p)) {
            if ($this->l->failAt === $this->i && $this->l->failIn === 'valid') { $this->l->failed = true; throw new SourceFail('valid'); }
            $this->l->ends++; return false;
        }
        $this->ensure('valid'); return true;
    }
    public function current(): mixed {
        $this->ensure('current');
        $this->l->current[$this->i] = ($this->l->current[$this->i] ?? 0) + 1;
        return $this->p[$this->i][1];
    }
    public function key(): mixed {
        $this->ensure('key');
        $this->l->key[$this->i] = ($this->l->key[$this->i] ?? 0) + 1;
        return $this->p[$this->i][0];
    }
    public function next(): void {
        check($this->l->ends === 0, 'CachedIterable:source-after-end', 'next() of the source called after its end');
        $this->i++; $this->ensure('next');
    }
}

final class CachedSubject {
    public object $o; public array $m; public int $n; public SourceLog $log; private int $demand = 0; private int $fail = -1;
    private string $state = 'open'; private array $iters = []; private ?\WeakReference $weak = null; private string $src; private int $c = 0;
    public Rng $r;
    public function __construct(public Gen $g) {
        $r = $this->r = $g->r;
        $kk = $r->pick(['mixed', 'scalar', 'tiny', 'string', 'obj']); $vk = $r->pick(['mixed', 'scalar', 'tiny', 'obj', 'null']);
        $this->m = [];
        for ($i = 0, $n = $r->chance(1, 8) ? 0 : $r->size(40); $i < $n; $i++) { $this->m[] = [$g->val($kk), $g->val($vk)]; }
        $this->n = count($this->m);
        $this->src = $r->pick(['generator', 'generator', 'refgenerator', 'iterator', 'iterator', 'aggregate', 'array', '__set_state', 'fromPairs']);
        $l = $this->log = new SourceLog();
        $lazy = !in_array($this->src, ['array', '__set_state', 'fromPairs'], true);
        if ($lazy && $r->chance(1, 4)) {
            $l->failAt = $r->int($this->src === 'generator' || $this->src === 'refgenerator' ? 1 : 0, $this->n); // a generator runs to its first element when it is rewound
            $l->failIn = $r->pick(['next', 'valid', 'current', 'key']);
            if ($this->src === 'iterator' || $this->src === 'aggregate') {
                if ($l->failAt === 0 && $l->failIn === 'next') { $l->failIn = 'valid'; }
                if ($l->failAt === $this->n && $l->failIn !== 'valid') { $l->failAt = -1; }
            }
        }
        if ($l->failAt > $this->n) { $l->failAt = -1; }
        $this->fail = $l->failAt;
        if ($lazy && $r->chance(1, 3)) { $l->hook = $this->reentry(...); }
        $p = $this->m;
        Rec::op('CachedIterable::__construct', "CachedIterable over {$this->src}" . ($this->fail >= 0 ? " failing at {$this->fail} in {$l->failIn}" : '') . ' ' . Rep::show($p));
        switch ($this->src) {
            case 'generator': $s = (static function () use ($p, $l) { foreach ($p as $i => [$k, $v]) { $l->produce($i); yield $k => $v; } if ($l->failAt === count($p)) { $l->failed = true; throw new SourceFail('end'); } })(); break;
            case 'refgenerator': $s = (static function &() use ($p, $l) { foreach ($p as $i => [$k, $v]) { $l->produce($i); $x = $v; yield $k => $x; } if ($l->failAt === count($p)) { $l->failed = true; throw new SourceFail('end'); } })(); break;
            case 'iterator': $s = new LoggedIterator($p, $l); break;
            case 'aggregate': $s = new class($p, $l) implements \IteratorAggregate { public function __construct(private array $p, private SourceLog $l) {} public function getIterator(): \Iterator { return new LoggedIterator($this->p, $this->l); } }; break;
            case 'array': $s = PairsSubject::arr($p); $this->m = []; foreach ($s as $k => $v) { $this->m[] = [$k, $v]; } $s = $this->g->shared($s); break;
            case '__set_state': $this->o = \Teds\CachedIterable::__set_state($this->g->shared($p)); break;
            case 'fromPairs': try { $this->o = \Teds\CachedIterable::fromPairs($p); } catch (\Error $e) { $this->o = \Teds\CachedIterable::__set_state($p); } break;
        }
        $this->n = count($this->m);
        if (isset($s)) { $this->o = new \Teds\CachedIterable($s); if (is_object($s)) { $this->weak = \WeakReference::create($s); } }
        unset($s);
        if (!$lazy) { $this->state = 'ended'; $this->c = $this->n; }
        check($l->produced <= 1, 'CachedIterable:eager', fn() => "constructing produced {$l->produced} elements");
    }
    /** The source uses the collection while an element is being fetched: what is cached is readable, a fetch is refused. */
    private function reentry(int $i): void {
        if (!isset($this->o) || !$this->r->chance(1, 2)) { return; }
        $c = $this->o; $n = $i;
        Rec::count('re-entrant uses of the collection by its own source');
        switch ($this->r->int(0, 5)) {
            case 0: if ($n) { checkSame($c->valueAt($n - 1), $this->m[$n - 1][1], 'CachedIterable:reentrant', 'valueAt of a cached entry from the source'); } break;
            case 1: $got = outcome(fn() => $c->count()); check($got === ['throw', 'RuntimeException'], 'CachedIterable:reentrant', fn() => 'count() from the source: ' . Rep::show($got)); break;
            case 2: $got = outcome(fn() => $c->keyAt($n)); check($got === ['throw', 'RuntimeException'], 'CachedIterable:reentrant', fn() => 'keyAt of the entry being fetched: ' . Rep::show($got)); break;
            case 3:
                $seen = [];
                $got = outcome(function () use ($c, &$seen) { foreach ($c as $k => $v) { $seen[] = [$k, $v]; } });
                check($got === ['throw', 'RuntimeException'], 'CachedIterable:reentrant', fn() => 'foreach from the source: ' . Rep::show($got));
                checkSame($seen, array_slice($this->m, 0, $n), 'CachedIterable:reentrant', 'foreach from the source');
                break;
            case 4: $got = outcome(fn() => $c->contains(new \stdClass)); check($got === ['throw', 'RuntimeException'], 'CachedIterable:reentrant', fn() => 'contains of an absent value from the source: ' . Rep::show($got)); break;
            case 5: $got = outcome(fn() => $c->toPairs()); check($got === ['throw', 'RuntimeException'], 'CachedIterable:reentrant', fn() => 'toPairs() from the source: ' . Rep::show($got)); break;
        }
    }
    /** Model of making sure that $k entries are cached. Returns null, or the expected exception class. */
    private function need(int $k): ?string {
        $this->demand = max($this->demand, $k);
        if ($this->state !== 'open' || $this->c >= $k) { return null; }
        $reach = $this->fail >= 0 ? min($this->fail, $this->n) : $this->n;
        if ($k <= $reach) { $this->c = max($this->c, $k); return null; }
        $this->c = $reach;
        if ($this->fail >= 0) { $this->state = 'failed'; return SourceFail::class; }
        $this->state = 'ended'; return null;
    }
    private function all(): ?string { if ($this->state === 'failed') { return 'RuntimeException'; } return $this->need($this->n + 1); }
    private function run(string $op, string $args, \Closure $f, ?string $throws, mixed $want = null, bool $cmp = true): void {
        Rec::op("CachedIterable::$op", "$op($args)");
        $got = outcome($f);
        Rec::$checks++;
        if ($throws !== null) {
            if ($got[0] !== 'throw' || !is_a($got[1], $throws, true)) { fail("CachedIterable::$op:no-throw", "$op($args): " . Rep::show($got[1]) . " instead of $throws with {$this->c} of {$this->n} entries cached, source {$this->state}"); }
            Rec::count('expected exceptions'); return;
        }
        if ($got[0] !== 'ret') { fail("CachedIterable::$op:throw", "$op($args) threw {$got[1]} with {$this->c} of {$this->n} entries cached, source {$this->state}"); }
        if ($cmp && !Rep::same($got[1], $want)) { fail("CachedIterable::$op:result", "$op($args) returned " . Rep::show($got[1]) . ' instead of ' . Rep::show($want) . " with {$this->c} of {$this->n} entries cached"); }
    }
    public function step(): void {
        $r = $this->r; $o = $this->o; $m = $this->m; $n = $this->n;
        $avail = fn() => array_slice($m, 0, $this->state === 'failed' ? $this->c : $n);
        switch ($r->weighted([[8, 'at'], [2, 'count'], [2, 'view'], [4, 'isEmpty'], [7, 'search'], [9, 'iter'], [6, 'foreach'], [1, 'clear'], [1, 'again'], [1, 'clone'], [2, 'cast']])) {
            case 'at':
                $w = $r->int(0, 1); $f = $w ? 'valueAt' : 'keyAt';
                $k = $r->chance(1, 12) ? $r->pick([$n, $n + 1, -1, PHP_INT_MAX, PHP_INT_MIN, 1 << 32]) : ($r->bool() ? min($n, $this->c + $r->int(0, 2)) : $r->int(0, max(0, $n - 1)));
                $t = $this->need($k < 0 || $k > $n ? $n + 1 : $k + 1);
                if ($t === null && ($k < 0 || $k >= $this->c)) { $t = 'OutOfBoundsException'; }
                $this->run($f, "$k", fn() => $o->$f($k), $t, $t === null ? $m[$k][$w] : null);
                break;
            case 'count': $t = $this->all(); $r->bool() ? $this->run('count', '', fn() => $o->count(), $t, $n) : $this->run('count()', '', fn() => count($o), $t, $n); break;
            case 'view':
                $f = $r->pick(['toPairs', 'toArray', 'keys', 'values', '__serialize', 'jsonSerialize']);
                $t = $this->all();
                $flat = []; foreach ($m as [$k, $v]) { $flat[] = $k; $flat[] = $v; }
                $want = match ($f) { 'toPairs', 'jsonSerialize' => $m, 'keys' => array_column($m, 0), 'values' => array_column($m, 1), '__serialize' => $flat, 'toArray' => Model::toArray($m) };
                if ($t === null && $f === 'toArray' && $want === null) { $t = 'TypeError'; }
                $this->run($f, '', fn() => $o->$f(), $t, $want);
                break;
            case 'cast':
                $t = $this->state === 'failed' ? null : $this->need($n + 1);
                if ($t !== null) { // the diagnostic views may report the failure of the source, or show what there is
                    $got = outcome(fn() => (array)$o);
                    check($got === ['throw', $t] || ($got[0] === 'ret' && Rep::same($got[1], array_slice($m, 0, $this->c))), 'CachedIterable::(array)', fn() => '(array) while the source fails: ' . Rep::show($got));
                    Rec::op('CachedIterable::(array)', '(array)');
                } else { $this->run('(array)', '', fn() => (array)$o, null, $avail()); }
                break;
            case 'isEmpty':
                if ($this->c > 0) { $this->run('isEmpty', '', fn() => $o->isEmpty(), null, false); break; }
                $t = $this->state === 'failed' ? 'RuntimeException' : $this->need(1);
                $this->run('isEmpty', '', fn() => $o->isEmpty(), $t, $this->c === 0);
                break;
            case 'search':
                $w = $r->int(0, 1); $idx = $r->bool();
                $f = $w ? ($idx ? 'indexOfValue' : $r->pick(['contains', 'containsValue'])) : ($idx ? 'indexOfKey' : 'containsKey');
                if (!method_exists($o, $f)) { $f = 'contains'; }
                $x = $n && $r->chance(3, 4) ? $m[$r->int(0, $n - 1)][$w] : $this->g->val('mixed');
                $at = null; foreach ($m as $i => $p) { if ($p[$w] === $x) { $at = $i; break; } }
                $was = $this->state;
                $t = $at !== null && $at < $this->c ? null : $this->need($at === null ? $n + 1 : $at + 1);
                if ($was === 'failed' && ($at === null || $at >= $this->c)) { // not found in what there is: say so, or report the failure
                    $got = outcome(fn() => $o->$f($x));
                    check($got === ['ret', $idx ? null : false] || $got === ['throw', 'RuntimeException'], "CachedIterable::$f:result", fn() => "$f after the source failed: " . Rep::show($got));
                    Rec::op("CachedIterable::$f", "$f after failure");
                    break;
                }
                $this->run($f, Rep::show($x), fn() => $o->$f($x), $t, $idx ? $at : $at !== null);
                break;
            case 'iter':
                if (!$this->iters || count($this->iters) < 4 && $r->chance(1, 5)) { $this->iters[] = [$o->getIterator(), 0]; Rec::op('CachedIterable::getIterator', 'getIterator'); break; }
                $i = $r->int(0, count($this->iters) - 1);
                $it = $this->iters[$i][0]; $pos = &$this->iters[$i][1];
                if ($r->chance(1, 6)) { $it->rewind(); $pos = 0; }
                $was = $this->state; $had = $this->c;
                $t = $this->need($pos + 1);
                if ($was === 'failed' && $pos >= $had) {
                    $got = outcome(fn() => $it->valid());
                    check($got === ['ret', false] || $got === ['throw', 'RuntimeException'], 'CachedIterable:iterator', fn() => 'iterator beyond what there is, after the source failed: ' . Rep::show($got));
                    break;
                }
                $this->run('iterator valid', "it$i at $pos", fn() => $it->valid(), $t, $pos < $this->c);
                if ($t === null && $pos < $this->c) {
                    $this->run('iterator key', "it$i at $pos", fn() => $it->key(), null, $m[$pos][0]);
                    $this->run('iterator current', "it$i at $pos", fn() => $it->current(), null, $m[$pos][1]);
                    if ($r->chance(4, 5)) { $it->next(); $pos++; }
                }
                break;
            case 'foreach':
                $stop = $r->bool() ? $n + 1 : $r->int(0, $n + 1); $seen = []; $inner = null; $innerWant = null;
                $nest = $r->chance(1, 3) ? $r->int(0, max(0, $n - 1)) : -1;
                Rec::op('CachedIterable::foreach', "foreach until $stop" . ($nest >= 0 ? " with a nested one at $nest" : ''));
                $had = $this->c; $was = $this->state;
                $got = outcome(function () use ($o, $stop, $nest, &$seen, &$inner) {
                    if ($stop === 0) { return; }
                    $i = 0;
                    foreach ($o as $k => $v) {
                        $seen[] = [$k, $v];
                        if ($i === $nest) { $inner = []; foreach ($o as $k2 => $v2) { $inner[] = [$k2, $v2]; if (count($inner) > $i + 1) { break; } } }
                        if (++$i >= $stop) { break; }
                    }
                });
                $t = null; $want = [];
                for ($i = 0; $i < $stop; $i++) {
                    $t = $this->need($i + 1);
                    if ($t !== null || $i >= $this->c) { break; }
                    $want[] = $m[$i];
                    if ($i === $nest) {
                        $innerWant = [];
                        for ($j = 0; $j < $i + 2; $j++) { $t = $this->need($j + 1); if ($t !== null || $j >= $this->c) { break; } $innerWant[] = $m[$j]; }
                        if ($t !== null) { break; }
                    }
                }
                checkSame($seen, $want, 'CachedIterable::foreach:result', 'foreach');
                if ($t === null) { if ($was === 'failed') { check($got[0] === 'ret' || $got[1] === 'RuntimeException', 'CachedIterable::foreach', 'foreach after failure'); } else { check($got[0] === 'ret', 'CachedIterable::foreach:throw', fn() => 'foreach threw ' . $got[1]); } }
                else { check($got === ['throw', $t], 'CachedIterable::foreach:no-throw', fn() => 'foreach over a failing source: ' . Rep::show($got)); }
                if ($innerWant !== null && $inner !== null) { checkSame($inner, $innerWant, 'CachedIterable::foreach:nested', 'nested foreach'); }
                break;
            case 'clear': $this->run('clear', '', fn() => $o->clear(), 'Teds\\UnsupportedOperationException'); break;
            case 'again': $this->run('__construct', 'again', fn() => $o->__construct([1]), 'RuntimeException'); break;
            case 'clone': $got = outcome(fn() => clone $o); check($got[0] === 'throw' || Rep::same($got[1]->toPairs(), $m), 'CachedIterable::clone', 'clone shows other entries'); break;
        }
        $this->watch();
    }
    /** the event log of the source */
    public function watch(): void {
        $l = $this->log;
        Rec::state($this->src . $this->n . '/' . $this->c . '/' . $this->state . '/' . $this->fail . '/' . count($this->iters));
        Rec::max('most elements of one source', $this->n);
        if ($this->src === 'array' || $this->src === '__set_state' || $this->src === 'fromPairs') { return; }
        $bound = max(1, min($this->demand, $this->n));
        check($l->produced <= $bound, 'CachedIterable:laziness', fn() => "{$l->produced} elements were taken from the source where {$bound} suffice");
        check($l->produced >= $this->c, 'CachedIterable:model', 'fewer produced than cached');
        if ($this->src === 'iterator' || $this->src === 'aggregate') {
            check($l->rewinds === 1, 'CachedIterable:source-rewound', "rewound {$l->rewinds} times");
            foreach ([$l->current, $l->key] as $calls) { foreach ($calls as $i => $k) { check($k === 1, 'CachedIterable:taken-twice', fn() => "element $i was taken from the source $k times"); } }
            check(count($l->current) === $this->c || $this->state === 'failed', 'CachedIterable:taken', fn() => count($l->current) . " elements taken, {$this->c} cached");
            check($l->ends <= 1, 'CachedIterable:source-after-end', 'the source was used after its end');
        }
        Rec::count('source elements produced under watch', 0);
        if ($this->state !== 'open') {
            Rec::count('sources run to their end or failure', 1);
            check($this->weak === null || $this->weak->get() === null, 'CachedIterable:source-kept', "the source is still held after its {$this->state} state");
        }
    }
}
