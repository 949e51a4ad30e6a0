<?php
declare(strict_types=1);
/* Reference models and online monitors for maps, sets and heaps. */

final class Model {
    /** Equivalence class of a key: identical values (===), with all NANs alike and 0.0 like -0.0. Objects by identity. */
    public static function norm(mixed $v): string {
        if (is_float($v)) { return is_nan($v) ? 'dNAN' : ($v == 0.0 ? 'd0' : 'd' . bin2hex(pack('E', $v))); }
        if (is_string($v)) { return 's' . $v; }
        if (is_array($v)) {
            $s = 'a' . count($v) . '[';
            foreach ($v as $k => $e) { $n = self::norm($e); $s .= (is_int($k) ? $k : 's' . strlen($k) . ':' . $k) . '=' . strlen($n) . ':' . $n . ','; }
            return $s . ']';
        }
        return Rep::of($v);
    }
    private static function rank(mixed $v): int {
        return match (true) {
            $v === null => 0, $v === false => 1, $v === true => 2, is_int($v), is_float($v) => 3, is_string($v) => 4, is_array($v) => 5, is_object($v) => 6, default => 7,
        };
    }
    /** exact numeric comparison of an int and a (non-NAN) float */
    public static function cmpIntFloat(int $i, float $f): int {
        if ($f >= 9223372036854775808.0) { return -1; }
        if ($f < -9223372036854775808.0) { return 1; }
        $t = (int)$f; // exact: truncation towards zero, in range
        if ($i !== $t) { return $i < $t ? -1 : 1; }
        $frac = $f - (float)$t;
        return $frac > 0 ? -1 : ($frac < 0 ? 1 : 0);
    }
    /** The documented order: null < false < true < int,float < string < array < object < resource. */
    public static function cmp(mixed $a, mixed $b): int {
        $ra = self::rank($a); $rb = self::rank($b);
        if ($ra !== $rb) { return $ra < $rb ? -1 : 1; }
        switch ($ra) {
            case 3:
                if (is_int($a) && is_int($b)) { return $a <=> $b; }
                if (is_float($a) && is_float($b)) {
                    if (is_nan($a)) { return is_nan($b) ? 0 : 1; }
                    return is_nan($b) ? -1 : $a <=> $b;
                }
                if (is_int($a)) { return is_nan($b) ? -1 : (self::cmpIntFloat($a, $b) ?: -1); }
                return is_nan($a) ? 1 : -(self::cmpIntFloat($b, $a) ?: -1);
            case 4: return strcmp($a, $b) <=> 0;
            case 5:
                if (count($a) !== count($b)) { return count($a) <=> count($b); }
                $ka = array_keys($a); $kb = array_keys($b);
                foreach ($ka as $i => $x) {
                    $c = self::cmpKey($x, $kb[$i]);
                    if ($c) { return $c; }
                    $c = self::cmp($a[$x], $b[$x]);
                    if ($c) { return $c; }
                }
                return 0;
            case 6:
                if ($a === $b) { return 0; }
                return (strcmp($a::class, $b::class) <=> 0) ?: (spl_object_id($a) <=> spl_object_id($b));
            case 7: return get_resource_id($a) <=> get_resource_id($b);
        }
        return 0;
    }
    /** order of array keys, as PHP's ordered array comparison has it: int keys as unsigned numbers, before string keys; strings by length, then bytes */
    private static function cmpKey(int|string $x, int|string $y): int {
        if (is_int($x) && is_int($y)) { return $x === $y ? 0 : ((($x < 0) === ($y < 0)) ? ($x <=> $y) : ($x < 0 ? 1 : -1)); }
        if (is_string($x) && is_string($y)) { return (strlen($x) <=> strlen($y)) ?: (strcmp($x, $y) <=> 0); }
        return is_string($x) ? 1 : -1;
    }
    /** what iterator_to_array would make of the pairs, or null when a key cannot be an array key */
    public static function toArray(array $pairs): ?array {
        $a = [];
        foreach ($pairs as [$k, $v]) {
            if (is_array($k) || is_object($k)) { return null; }
            $a[$k] = $v;
        }
        return $a;
    }
}

/** Maps and sets. The model is a dictionary norm(key) => [key, value]; sorted classes show it sorted by key. */
class DictSubject {
    public object $o;
    /** @var array<string,array{0:mixed,1:mixed,2:int}> third: insertion stamp */
    public array $m = [];
    private ?array $view = null;
    private int $stamp = 0;
    public Gen $g; public Rng $r;
    public string $cls; public string $fq; public string $kind; public string $vkind;
    public bool $map; public bool $sorted; public bool $useIters = true; public bool $mutable = true; public bool $indexed = false;
    public int $maxSize = 60;
    /** @var list<array{0:object,1:string|int,2:mixed}> iterator, state: 'at' | 'before' | 'end' | 'lost', then the entry [key,value,stamp] or index */
    public array $iters = [];
    const KINDS = ['mixed', 'scalar', 'obj', 'tiny', 'int', 'string', 'strint', 'numeric', 'numstr', 'float', 'array', 'edge'];
    const OOB = ['throw', \OutOfBoundsException::class];
    const UNDERFLOW = ['throw', \UnderflowException::class];
    const UNSUPPORTED = ['throw', \Teds\UnsupportedOperationException::class];

    public function __construct(string $cls, Gen $g, ?string $kind = null, ?int $size = null) {
        $this->cls = $cls; $this->fq = 'Teds\\' . $cls; $this->g = $g; $this->r = $g->r;
        $this->map = str_ends_with($cls, 'Map');
        $this->sorted = !str_contains($cls, 'Hash');
        $this->mutable = !str_starts_with($cls, 'Immutable');
        $this->indexed = str_contains($cls, 'Int') || str_contains($cls, 'String'); // foreach keys are offsets
        $this->kind = $kind ?? match (true) {
            str_contains($cls, 'Int') => $this->r->pick(['tiny', 'i8', 'i16', 'i32', 'int', 'edge']),
            str_contains($cls, 'String') => $this->r->pick(['string', 'string', 'numstr']),
            default => $this->r->pick(self::KINDS),
        };
        $this->vkind = $this->r->pick(['mixed', 'tiny', 'obj', 'boolnull', 'string']);
        $n = $size ?? ($this->r->chance(1, 6) ? 0 : $this->r->size($this->maxSize));
        if ($kind === null && $size === null && $this->r->chance(1, 10)) { // many distinct keys
            $n = $this->r->pick([$this->r->int(30, 400), (1 << $this->r->int(5, 8)) + $this->r->int(-2, 2), $this->r->int(3, 40)]);
            $this->wide = 2 * $n; $this->wideMode = str_contains($cls, 'Int') ? $this->r->int(0, 1) : (str_contains($cls, 'String') ? $this->r->pick([2, 4]) : $this->r->int(0, 4));
            Rec::count('histories over many distinct keys');
        }
        $ps = [];
        for ($i = 0; $i < $n; $i++) { $ps[] = [$this->wide && $this->r->chance(9, 10) ? $this->wideKey($i) : $this->key(), $this->val()]; }
        if ($this->wide && $this->r->bool()) { $ps = $this->r->shuffle($ps); }
        if ($this->r->chance(1, 4)) { usort($ps, fn($x, $y) => Model::cmp($x[0], $y[0])); if ($this->r->bool()) { $ps = array_reverse($ps); } }
        $this->build($ps);
        $this->verify();
    }
    private function build(array $ps): void {
        $r = $this->r; $c = $this->fq;
        $how = $r->int(0, 4);
        if (!$ps && $r->bool()) { Rec::op("{$this->cls}::__construct", "new {$this->cls}()"); $this->o = new $c(); return; }
        if ($this->map) {
            $arr = null;
            if ($how == 0) { // array: keys are restricted
                $a = [];
                foreach ($ps as [$k, $v]) { if (is_int($k) || is_string($k)) { $a[$k] = $v; } }
                $ps = [];
                foreach ($a as $k => $v) { $ps[] = [$k, $v]; }
                Rec::op("{$this->cls}::__construct", "new {$this->cls}(array of " . count($a) . ')');
                $this->o = new $c($a);
            } elseif ($how <= 2) {
                Rec::op("{$this->cls}::__construct", "new {$this->cls}(generator of " . Rep::show($ps) . ')');
                $this->o = new $c((function () use ($ps) { foreach ($ps as [$k, $v]) { yield $k => $v; } })());
            } elseif ($how == 3) {
                Rec::op("{$this->cls}::fromPairs", "fromPairs(" . Rep::show($ps) . ')');
                $this->o = $c::fromPairs($this->g->iterable($ps));
            } else {
                Rec::op("{$this->cls}::__set_state", "__set_state(" . Rep::show($ps) . ')');
                $this->o = $c::__set_state($this->g->shared($ps));
            }
        } else {
            $vals = array_column($ps, 0);
            if ($how == 4 && !$this->indexed) { Rec::op("{$this->cls}::__set_state", '__set_state(' . Rep::show($vals) . ')'); $this->o = $c::__set_state($this->g->shared($vals)); }
            else { Rec::op("{$this->cls}::__construct", "new {$this->cls}(" . Rep::show($vals) . ')'); $this->o = new $c($this->g->iterable($vals)); }
        }
        foreach ($ps as [$k, $v]) { $this->put($k, $v); }
    }
    private int $wide = 0; private int $wideMode = 0;
    private function wideKey(int $i): mixed {
        return match ($this->wideMode) { 0 => $i, 1 => $i * 1000003 - (1 << 20), 2 => ($this->cls === 'ImmutableSortedStringSet' && $i % 50 === 7 ? str_repeat('k', Gen::LENGTHS[(1 + intdiv($i, 50)) % count(Gen::LENGTHS)]) : 'k' . $i), 4 => (string)($i * 7 % 1001), default => $i % 2 ? $i : ($i % 4 ? $i / 2.5 : "k$i") };
    }
    public function key(): mixed { return $this->wide && $this->r->chance(9, 10) ? $this->wideKey($this->r->int(0, $this->wide)) : $this->g->val($this->kind); }
    public function val(): mixed { return $this->map ? $this->g->val($this->vkind) : null; }
    /** a key that is often present */
    public function someKey(): mixed {
        if ($this->m && $this->r->chance(3, 5)) {
            $k = $this->m[$this->r->pick(array_keys($this->m))][0];
            if (is_float($k) && $k == 0.0) { return -$k; }   // 0.0 and -0.0 are the same key
            if (is_string($k) && strlen($k) > 1) { $x = ''; for ($i = 0; $i < strlen($k); $i++) { $x .= $k[$i]; } return $x; } // equal, not the same allocation
            return $k;
        }
        return $this->key();
    }
    // ---- model ----
    public function has(mixed $k): bool { return isset($this->m[Model::norm($k)]); }
    public function put(mixed $k, mixed $v): bool {
        $n = Model::norm($k);
        if (isset($this->m[$n])) { $this->m[$n][1] = $v; $this->view = null; return false; }
        if ($this->iters && (str_contains($this->cls, 'SortedVector') || $this->indexed)) { $this->itInsertIdx($k); }
        $e = [$k, $v, $this->stamp++];
        foreach ($this->iters as &$it) { if (!$this->sorted && $it[1] === 'end') { $it[1] = 'at'; $it[2] = $e; } }
        $this->m[$n] = $e;
        $this->view = null;
        return true;
    }
    /** sorted list of [key, value, stamp] */
    public function view(): array {
        if ($this->view === null) {
            $this->view = array_values($this->m);
            if ($this->sorted) { usort($this->view, fn($x, $y) => Model::cmp($x[0], $y[0])); }
        }
        return $this->view;
    }
    private function indexOfKey(mixed $k): int { $n = Model::norm($k); foreach ($this->view() as $i => $e) { if (Model::norm($e[0]) === $n) { return $i; } } return -1; }
    private function itInsertIdx(mixed $k): void {
        $v = $this->view(); $off = 0;
        while ($off < count($v) && Model::cmp($v[$off][0], $k) < 0) { $off++; }
        foreach ($this->iters as &$it) { if ($it[1] === 'idx' && $it[2] >= $off && $it[2] < count($v)) { $it[2]++; } }
    }
    public function del(mixed $k): bool {
        $n = Model::norm($k);
        if (!isset($this->m[$n])) { return false; }
        if ($this->iters) {
            $i = $this->indexOfKey($k); $v = $this->view();
            foreach ($this->iters as &$it) {
                if ($it[1] === 'idx') { if ($it[2] >= $i && $it[2] < count($v)) { $it[2]--; } }
                elseif ($it[1] === 'at' && $it[2][2] === $v[$i][2]) { if ($i > 0) { $it[2] = $v[$i - 1]; } else { $it[1] = 'before'; } }
            }
        }
        unset($this->m[$n]);
        $this->view = null;
        return true;
    }

    public function expect(string $op, string $args, \Closure $real, array $want): mixed {
        Rec::op("{$this->cls}::$op", "$op($args)");
        $got = outcome($real);
        Rec::$checks++;
        if ($want[0] === 'throw') {
            if ($got[0] !== 'throw') { fail("{$this->cls}::$op:no-throw", "{$this->cls}::$op($args) returned " . Rep::show($got[1]) . " instead of throwing {$want[1]} on " . $this->show()); }
            if (!is_a($got[1], $want[1], true)) { fail("{$this->cls}::$op:wrong-throw", "{$this->cls}::$op($args) threw {$got[1]} instead of {$want[1]} on " . $this->show()); }
            Rec::count('operations rejected with an exception');
            return null;
        }
        if ($got[0] !== 'ret') { fail("{$this->cls}::$op:throw", "{$this->cls}::$op($args) threw {$got[1]} on " . $this->show()); }
        if (!array_key_exists(1, $want)) { return $got[1]; }
        if (!Rep::same($got[1], $want[1])) { fail("{$this->cls}::$op:result", "{$this->cls}::$op($args) returned " . Rep::show($got[1]) . ' instead of ' . Rep::show($want[1]) . ' on ' . $this->show()); }
        return $got[1];
    }
    public function show(): string { return Rep::show(array_map(fn($e) => $this->map ? [$e[0], $e[1]] : $e[0], $this->view())); }

    public function ops(): array {
        $w = [[10, 'add'], [8, 'del'], [6, 'lookup'], [1, 'clear'], [1, 'clone'], [1, 'reconstruct'], [2, 'bulk'], [2, 'churn'], [8, 'iter'], [2, 'round'], [1, 'drain']];
        if ($this->sorted && !$this->indexed) { array_push($w, [4, 'ends'], [4, 'popEnds']); }
        if ($this->indexed) { array_push($w, [3, 'ends'], [5, 'offsets'], [2, 'badValue']); if ($this->mutable) { $w[] = [3, 'popEnds']; } }
        if ($this->map) { array_push($w, [2, 'misc']); }
        return $w;
    }
    public function step(): void {
        $this->{'op_' . $this->r->weighted($this->ops())}();
        $this->verify();
    }
    // ---- operations ----
    public function op_add(): void { $this->addKey($this->r->chance(2, 3) ? $this->key() : $this->someKey()); }
    public function addKey(mixed $k): void {
        $v = $this->val();
        if ($this->map) {
            if ($this->r->bool()) { $this->expect('[k]=', Rep::show($k) . ', ' . Rep::show($v), function () use ($k, $v) { $this->o[$k] = $v; }, ['ret', null]); }
            else { $this->expect('offsetSet', Rep::show($k) . ', ' . Rep::show($v), fn() => $this->o->offsetSet($k, $v), ['ret', null]); }
            $this->put($k, $v);
            return;
        }
        if (!$this->mutable) { $this->expect('add', Rep::show($k), fn() => $this->o->add($k), self::UNSUPPORTED); return; }
        $this->expect('add', Rep::show($k), fn() => $this->o->add($k), ['ret', !$this->has($k)]);
        if (!$this->has($k)) { $this->put($k, null); }
    }
    public function op_del(): void {
        if ($this->m && $this->mutable && $this->r->chance(1, 6)) { $k = Gen::alias($this->m[$this->r->pick(array_keys($this->m))][0], $this->r); if (!$this->indexed || is_int($k)) { $this->delKey($k); return; } }
        $this->delKey($this->someKey());
    }
    public function delKey(mixed $k): void {
        if ($this->map) {
            if ($this->r->bool()) { $this->expect('unset', Rep::show($k), function () use ($k) { unset($this->o[$k]); }, ['ret', null]); }
            else { $this->expect('offsetUnset', Rep::show($k), fn() => $this->o->offsetUnset($k), ['ret', null]); }
        } elseif (!$this->mutable) { $this->expect('remove', Rep::show($k), fn() => $this->o->remove($k), self::UNSUPPORTED); return; }
        elseif ($this->cls === 'SortedIntVectorSet') {
            // listed finding: the answer is always false. Anything else wrong is still reported.
            Rec::op('SortedIntVectorSet::remove', 'remove(' . Rep::show($k) . ')');
            $got = $this->o->remove($k); $want = $this->has($k);
            Rec::$checks++;
            if ($got !== $want) {
                if ($got === false) { Rec::soft('SortedIntVectorSet::remove:returns-false-when-removed', 'remove(' . Rep::show($k) . ') returned false although it removed the value, on ' . $this->show()); }
                else { fail('SortedIntVectorSet::remove:result', 'remove(' . Rep::show($k) . ') returned ' . Rep::show($got) . ' on ' . $this->show()); }
            }
        } else { $this->expect('remove', Rep::show($k), fn() => $this->o->remove($k), ['ret', $this->has($k)]); }
        $this->del($k);
    }
    public function op_bulk(): void { if ($this->mutable && count($this->m) < 300) { for ($i = 0, $n = $this->r->int(5, 50); $i < $n; $i++) { $this->addKey($this->key()); } } }
    /** remove about all, then add: holes, compaction, shrinking */
    public function op_churn(): void {
        if (!$this->mutable) { return; }
        $keys = array_column($this->view(), 0);
        $how = $this->r->int(0, 3);
        if ($how == 1) { $keys = array_reverse($keys); } elseif ($how > 1) { $keys = $this->r->shuffle($keys); }
        $n = $this->r->int(0, count($keys));
        for ($i = 0; $i < $n; $i++) { $this->delKey($keys[$i]); if ($this->r->chance(1, 3)) { $this->addKey($this->key()); } }
        for ($i = $this->r->int(0, 10); $i > 0; $i--) { $this->addKey($this->key()); }
    }
    /** fill to a power of two, take away a few entries, and grow past it: growth with few or no holes, also with live iterators */
    public function edge(int $most): void {
        $r = $this->r; $p = 1 << $r->pick([$r->int(3, $most), $r->int(6, $most)]);
        $this->wide = 3 * $p; $this->wideMode = str_contains($this->cls, 'Int') ? $r->int(0, 1) : $r->int(0, 4);
        $ids = range(0, 2 * $p); if ($r->bool()) { $ids = $r->shuffle($ids); }
        $next = 0;
        $fill = function (int $to) use (&$next, $ids) { while (count($this->m) < $to && isset($ids[$next])) { $this->addKey($this->wideKey($ids[$next++])); } };
        for ($round = $r->int(1, 3); $round > 0; $round--) {
            $fill($p + ($r->chance(1, 4) ? $r->int(-2, 0) : 0));
            for ($i = $r->int(0, 3); $i > 0; $i--) { $this->op_iter(); }
            $keys = array_column($this->view(), 0); $d = $r->pick([0, 1, 1, 1, 2, 3, $r->int(0, intdiv($p, 8))]);
            for ($i = 0; $i < $d && $keys; $i++) {
                $at = $r->pick([0, 0, count($keys) - 1, count($keys) - 2, intdiv(count($keys), 2), $r->int(0, count($keys) - 1)]); $at = max(0, $at);
                $this->delKey($keys[$at]); array_splice($keys, $at, 1);
            }
            $this->verify();
            for ($i = $d + $r->int(0, 3); $i > 0 && isset($ids[$next]); $i--) { $this->addKey($this->wideKey($ids[$next++])); if ($r->chance(1, 3)) { $this->op_iter(); } }
            $this->verify();
            $this->findAll();
            Rec::count('growths past a power of two with few holes');
            $p *= 2;
        }
        for ($i = $r->int(0, 4); $i > 0; $i--) { $this->step(); }
    }
    /** every key is found, with its value */
    public function findAll(): void {
        foreach ($this->view() as [$k, $v]) {
            if ($this->map) { $this->expect('containsKey', Rep::show($k), fn() => $this->o->containsKey($k), ['ret', true]); $this->expect('get', Rep::show($k), fn() => $this->o->get($k, null), ['ret', $v]); }
            else { $this->expect('contains', Rep::show($k), fn() => $this->o->contains($k), ['ret', true]); }
        }
    }
    public function op_drain(): void {
        if (!$this->mutable || !$this->r->chance(1, 2)) { return; }
        foreach ($this->r->shuffle(array_column($this->view(), 0)) as $k) { $this->delKey($k); }
        $this->verify();
    }
    public function op_lookup(): void {
        $k = $this->m && $this->r->chance(1, 4) ? Gen::alias($this->m[$this->r->pick(array_keys($this->m))][0], $this->r) : $this->someKey(); $has = $this->has($k); $v = $has ? $this->m[Model::norm($k)][1] : null; $s = Rep::show($k);
        if (!$this->map) {
            $this->expect('contains', $s, fn() => $this->o->contains($k), ['ret', $has]);
            $x = $this->g->val('mixed');
            $this->expect('contains', Rep::show($x), fn() => $this->o->contains($x), ['ret', $this->has($x)]);
            return;
        }
        $this->expect('containsKey', $s, fn() => $this->o->containsKey($k), ['ret', $has]);
        $this->expect('offsetExists', $s, fn() => $this->o->offsetExists($k), ['ret', $v !== null]);
        $this->expect('isset', $s, fn() => isset($this->o[$k]), ['ret', $v !== null]);
        $this->expect('empty', $s, fn() => empty($this->o[$k]), ['ret', !$v]);
        $this->expect('[k]??', $s, fn() => $this->o[$k] ?? 'dflt', ['ret', $v ?? 'dflt']);
        $this->expect('[k]', $s, fn() => $this->o[$k], $has ? ['ret', $v] : self::OOB);
        $this->expect('offsetGet', $s, fn() => $this->o->offsetGet($k), $has ? ['ret', $v] : self::OOB);
        $this->expect('get', $s, fn() => $this->o->get($k), $has ? ['ret', $v] : self::OOB);
        $this->expect('get+default', $s, fn() => $this->o->get($k, 'dflt'), ['ret', $has ? $v : 'dflt']);
        $x = $this->m && $this->r->bool() ? $this->m[$this->r->pick(array_keys($this->m))][1] : $this->val();
        $in = in_array($x, array_column($this->m, 1), true);
        $this->expect('containsValue', Rep::show($x), fn() => $this->o->containsValue($x), ['ret', $in]);
        $this->expect('contains', Rep::show($x), fn() => $this->o->contains($x), ['ret', $in]);
    }
    public function op_misc(): void {
        $v = $this->val();
        $this->expect('[]=', Rep::show($v), function () use ($v) { $this->o[] = $v; }, ['throw', \RuntimeException::class]);
    }
    public function op_clear(): void {
        if (!$this->mutable) { $this->expect('clear', '', fn() => $this->o->clear(), self::UNSUPPORTED); return; }
        $this->expect('clear', '', fn() => $this->o->clear(), ['ret', null]);
        $this->m = []; $this->view = null;
        foreach ($this->iters as $k => $it) {
            checkSame($it[0]->valid(), false, "{$this->cls}::clear:iterator", 'iterator valid() after clear()');
        }
        $this->iters = [];
    }
    public function op_reconstruct(): void {
        $ps = []; for ($i = 0; $i < 2; $i++) { $ps[] = $this->key(); }
        $ps = array_values(array_filter($ps, $this->indexed ? fn($x) => true : 'is_int'));
        $this->expect('__construct again', '', fn() => $this->o->__construct($ps), ['throw', \Exception::class]);
    }
    public function op_clone(): void {
        $c = clone $this->o;
        Rec::op("{$this->cls}::clone", 'clone');
        $old = $this->view();
        if ($this->mutable) {
            if ($this->r->bool()) { // go on with the clone
                $orig = $this->o; $this->o = $c; $this->iters = [];
                $this->op_churn();
                $this->verify();
                $c = $orig;
            } else { $this->op_churn(); }
        }
        $this->sameView($c, $old, "{$this->cls}::clone:aliases", 'the other of original and clone');
    }
    public function op_ends(): void {
        $v = $this->view(); $n = count($v);
        foreach ($this->indexed ? [['first', 0], ['last', $n - 1]] : [['first', 0], ['bottom', 0], ['last', $n - 1], ['top', $n - 1]] as [$f, $i]) {
            $this->expect($f, '', fn() => $this->o->$f(), $n ? ['ret', $v[$i][$this->map ? 1 : 0]] : self::UNDERFLOW);
            if ($this->map) { $g = $f . 'Key'; $this->expect($g, '', fn() => $this->o->$g(), $n ? ['ret', $v[$i][0]] : self::UNDERFLOW); }
        }
    }
    public function op_popEnds(): void {
        for ($t = $this->r->int(1, 3); $t > 0; $t--) {
            $v = $this->view(); $n = count($v);
            $f = $this->indexed ? 'pop' : $this->r->pick(['pop', 'popFront', 'shift']);
            $e = $n ? $v[$f === 'pop' ? $n - 1 : 0] : null;
            $this->expect($f, '', fn() => $this->o->$f(), $n ? ['ret', $this->map ? [$e[0], $e[1]] : $e[0]] : self::UNDERFLOW);
            if ($n) { $this->del($e[0]); }
        }
    }
    /** offset access of the sorted int/string sets */
    public function op_offsets(): void {
        $v = $this->view(); $n = count($v);
        $i = $this->r->chance(1, 6) ? $this->r->pick([-1, $n, PHP_INT_MAX, PHP_INT_MIN]) : $this->r->int(0, max(0, $n - 1));
        $this->expect('get', "$i", fn() => $this->o->get($i), $i >= 0 && $i < $n ? ['ret', $v[$i][0]] : self::OOB);
        $k = $this->someKey();
        $j = $this->indexOfKey($k);
        $this->expect('indexOf', Rep::show($k), fn() => $this->o->indexOf($k), ['ret', $j < 0 ? null : $j]);
    }
    public function op_badValue(): void {
        $bad = str_contains($this->cls, 'String') ? $this->r->pick([1, 1.5, null, true, []]) : $this->r->pick(['1', 1.0, null, true, [], 'x']);
        $c = $this->fq;
        $it = $this->g->iterable([$this->key(), $bad, $this->key()]);
        $this->expect('__construct!', Rep::show($bad), fn() => new $c($it), ['throw', \TypeError::class]);
        if ($this->mutable) { $this->expect('add!', Rep::show($bad), fn() => $this->o->add($bad), ['throw', \TypeError::class]); }
        $this->expect('contains!', Rep::show($bad), fn() => $this->o->contains($bad), ['ret', false]);
        if ($this->mutable) { $this->expect('remove!', Rep::show($bad), fn() => $this->o->remove($bad), ['throw', \TypeError::class]); }
    }
    /** rebuild from one of its own representations */
    public function op_round(): void {
        $plain = true;
        foreach ($this->m as $e) { foreach ([$e[0], $e[1]] as $x) { if (is_object($x) || is_array($x)) { $plain = false; } } }
        $v = $this->view();
        if ($plain && $this->r->bool()) {
            Rec::op("{$this->cls}::serialize", 'unserialize(serialize)');
            $u = unserialize(serialize($this->o));
            check($u instanceof $this->fq, "{$this->cls}::unserialize:type", 'unserialize gave ' . get_debug_type($u));
            $this->sameView($u, $v, "{$this->cls}::unserialize:contents", 'unserialized copy');
        } elseif ($this->map) {
            Rec::op("{$this->cls}::fromPairs", 'fromPairs(toPairs)');
            $c = $this->fq;
            $this->sameView($c::fromPairs($this->o->toPairs()), $v, "{$this->cls}::fromPairs:contents", 'fromPairs(toPairs)');
        } elseif (!($this->cls === 'SortedIntVectorSet' && false)) {
            Rec::op("{$this->cls}::__set_state", '__set_state(values)');
            $c = $this->fq;
            $u = $c::__set_state($this->o->values());
            check($u instanceof $this->fq, "{$this->cls}::__set_state:type", '__set_state gave ' . get_debug_type($u));
            $this->sameView($u, $v, "{$this->cls}::__set_state:contents", '__set_state(values)');
        }
    }
    /** Live iterators interleaved with mutations. */
    public function op_iter(): void {
        if (!$this->useIters) { return; }
        $r = $this->r;
        $idx = str_contains($this->cls, 'SortedVector') || $this->indexed;
        $tree = str_contains($this->cls, 'Tree'); // an iterator of an empty tree stands before the first entry
        if (!$this->iters || ($r->chance(1, 6) && count($this->iters) < 4)) {
            Rec::op("{$this->cls}::getIterator", 'getIterator');
            $it = $this->o->getIterator();
            $it->rewind();
            $v = $this->view();
            $this->iters[] = $idx ? [$it, 'idx', 0] : ($v ? [$it, 'at', $v[0]] : [$it, $tree ? 'before' : 'end', null]);
            return;
        }
        if ($r->chance(1, 10)) { array_splice($this->iters, $r->int(0, count($this->iters) - 1), 1); Rec::note('drop iterator'); return; }
        $k = $r->int(0, count($this->iters) - 1);
        for ($times = $r->int(1, 3); $times > 0; $times--) {
            [$it, $st, $at] = $this->iters[$k];
            $v = $this->view(); $n = count($v);
            $e = $st === 'idx' ? ($at >= 0 && $at < $n ? $v[$at] : null) : ($st === 'at' ? $this->m[Model::norm($at[0])] : null);
            $desc = "it$k@" . ($st === 'idx' ? $at : $st);
            $this->expect('it.valid', $desc, fn() => $it->valid(), ['ret', $e !== null]);
            if ($e !== null) {
                $this->expect('it.key', $desc, fn() => $it->key(), ['ret', $this->indexed ? $at : $e[0]]);
                $this->expect('it.current', $desc, fn() => $it->current(), ['ret', $this->map ? $e[1] : $e[0]]);
            }
            Rec::count('iterator positions checked against the model');
            if ($r->chance(1, 10)) {
                $this->expect('it.rewind', "it$k", fn() => $it->rewind(), ['ret', null]);
                $this->iters[$k] = $idx ? [$it, 'idx', 0] : ($v ? [$it, 'at', $v[0]] : [$it, $tree ? 'before' : 'end', null]);
            } else {
                $this->expect('it.next', "it$k", fn() => $it->next(), ['ret', null]);
                if ($st === 'idx') { $this->iters[$k][2]++; }
                else {
                    $j = $st === 'before' ? 0 : ($st === 'end' ? $n : $this->indexOfKey($at[0]) + 1);
                    $this->iters[$k] = $j < $n ? [$it, 'at', $v[$j]] : [$it, 'end', null];
                }
            }
        }
    }
    // ---- state comparison ----
    public function verify(): void {
        $v = $this->view(); $n = count($v);
        Rec::max('largest collection', $n);
        $key = $this->cls . ':state';
        check($this->o->count() === $n, $key, fn() => "count() is {$this->o->count()}, model has $n: " . $this->show());
        if ($this->map) {
            $got = $this->o->toPairs();
            check(array_is_list($got) && Rep::pairs($got) === Rep::pairs($v), $key, fn() => 'toPairs() is ' . Rep::show($got) . ' model ' . $this->show());
        } else {
            $got = $this->o->values();
            check(array_is_list($got) && Rep::list($got) === Rep::list(array_column($v, 0)), $key, fn() => 'values() is ' . Rep::show($got) . ' model ' . $this->show());
        }
        if (method_exists($this->o, 'debugIsBalanced') && ($n < 40 || $this->r->chance(1, 4))) { self::redBlack($this->o, array_column($v, 0), $key); }
        Rec::state($this->cls . '|' . ($this->map ? Rep::pairs($v) : Rep::list(array_column($v, 0))));
        if ($this->r->chance(1, 6)) { $this->sameView($this->o, $v, $this->cls . ':views', 'collection'); }
    }
    /** the tree is a red-black tree over exactly these keys: no red node has a red child, every path passes as many black nodes, the order is right, the height is bounded */
    public static function redBlack(object $o, array $keys, string $key): void {
        Rec::count('red-black tree checks');
        check($o->debugIsBalanced() === true, $key, 'the tree is not balanced');
        $t = $o->debugGetTreeRepresentation();
        $i = 0; $height = 0;
        $walk = function (array $t, bool $parentRed, int $d) use (&$walk, &$i, &$height, $keys, $key): int {
            if (!$t) { return 0; }
            $height = max($height, $d);
            check(!($parentRed && $t['red']), "$key:red-red", fn() => 'a red node has a red child, at ' . Rep::show($t['key']));
            $l = $walk($t['left'], $t['red'], $d + 1);
            check($i < count($keys) && Rep::same($t['key'], $keys[$i]), "$key:tree-order", fn() => 'node ' . Rep::show($t['key']) . " is out of order (position $i)");
            $i++;
            $r = $walk($t['right'], $t['red'], $d + 1);
            check($l === $r, "$key:black-height", fn() => "paths through $l and $r black nodes below " . Rep::show($t['key']));
            return $l + ($t['red'] ? 0 : 1);
        };
        $walk($t, false, 1);
        check($i === count($keys), "$key:tree-size", fn() => "the tree has $i nodes instead of " . count($keys));
        check($height <= 2 * log($i + 1, 2) + 0.001, "$key:height", fn() => "a tree of $i nodes has height $height");
        Rec::max('largest tree height', $height);
    }
    /** every way to look at the collection shows the entries $v */
    public function sameView(object $o, array $v, string $key, string $what): void {
        Rec::count('full view comparisons');
        $n = count($v);
        $pairs = array_map(fn($e) => [$e[0], $this->map ? $e[1] : $e[0]], $v);
        $keys = array_column($pairs, 0); $vals = array_column($pairs, 1);
        checkSame(count($o), $n, $key, "count of $what");
        checkSame($o->isEmpty(), $n === 0, $key, "isEmpty of $what");
        checkSame($o->values(), $vals, $key, "values of $what");
        $i = 0;
        foreach ($o as $k => $x) {
            check($i < $n && Rep::same($k, $this->indexed ? $i : $pairs[$i][0]) && Rep::same($x, $pairs[$i][1]), $key, fn() => "foreach over $what yields " . Rep::show($k) . ' => ' . Rep::show($x) . " at step $i, model " . Rep::show($pairs));
            $i++;
        }
        checkSame($i, $n, $key, "number of foreach steps of $what");
        if ($this->map) {
            checkSame($o->toPairs(), $pairs, $key, "toPairs of $what");
            checkSame($o->keys(), $keys, $key, "keys of $what");
            checkSame($o->jsonSerialize(), $pairs, $key, "jsonSerialize of $what");
            checkSame((array)$o, $pairs, $key, "(array) of $what");
        } else {
            checkSame($o->jsonSerialize(), $vals, $key, "jsonSerialize of $what");
            checkSame((array)$o, $vals, $key, "(array) of $what");
        }
        $want = $this->indexed ? $vals : Model::toArray($pairs);
        $got = outcome(fn() => $o->toArray());
        if ($want === null) { check($got[0] === 'throw' && $got[1] === \TypeError::class, $key, "toArray of $what with keys that no array can have: " . Rep::show($got)); }
        else { checkSame($got, ['ret', $want], $key, "toArray of $what"); }
        foreach ($n > 40 ? [$pairs[0], $pairs[$n - 1], $pairs[$this->r->int(0, $n - 1)]] : $pairs as [$k, $x]) {
            if ($this->map) { check($o->containsKey($k) && Rep::same($o[$k], $x), $key, fn() => "lookup of " . Rep::show($k) . " in $what"); }
            else { check($o->contains($k), $key, fn() => "contains " . Rep::show($k) . " in $what"); }
        }
    }
}

/** Heaps: a multiset of values, extracted in order. */
class HeapSubject {
    public object $o;
    public array $m = []; // kept sorted in extraction order
    public Gen $g; public Rng $r; public string $cls; public string $fq; public string $kind; public int $dir;
    public int $maxSize = 60;
    public function __construct(string $cls, Gen $g) {
        $this->cls = $cls; $this->fq = 'Teds\\' . $cls; $this->g = $g; $this->r = $g->r; $this->dir = $cls === 'StrictMaxHeap' ? -1 : 1;
        $this->kind = $this->r->pick(DictSubject::KINDS);
        $vals = $g->vals($this->kind, $this->r->chance(1, 6) ? 0 : $this->r->size($this->maxSize));
        $it = $g->iterable($vals);
        Rec::op("$cls::__construct", "new $cls(" . Rep::show($vals) . ')');
        $this->o = $this->r->chance(1, 6) ? ($this->fq)::__set_state($this->g->shared($vals)) : new ($this->fq)($it);
        $this->m = $vals; $this->sort();
        $this->verify();
    }
    private function sort(): void { usort($this->m, fn($a, $b) => $this->dir * Model::cmp($a, $b)); }
    private function norms(array $a): array { return array_map([Model::class, 'norm'], $a); }
    public function show(): string { return Rep::show($this->m); }
    private function fail(string $k, string $msg): never { fail("{$this->cls}$k", $msg . ' on ' . $this->show()); }
    public function step(): void {
        $op = $this->r->weighted([[10, 'add'], [8, 'extract'], [4, 'top'], [2, 'bulk'], [1, 'clear'], [2, 'contains'], [1, 'clone'], [1, 'drain'], [2, 'iter'], [1, 'round'], [1, 'reconstruct'], [2, 'next']]);
        $this->{'op_' . $op}();
        $this->verify();
    }
    public function op_add(): void {
        $v = $this->g->val($this->kind);
        Rec::op("{$this->cls}::add", 'add(' . Rep::show($v) . ')');
        $got = outcome(fn() => $this->o->add($v));
        check($got === ['ret', null], "{$this->cls}::add:result", fn() => 'add gave ' . Rep::show($got));
        $this->m[] = $v; $this->sort();
    }
    public function op_bulk(): void { if (count($this->m) < 200) { for ($i = $this->r->int(3, 30); $i > 0; $i--) { $this->op_add(); } } }
    /** $got must be an extreme value (equal elements are interchangeable); removes it from the model */
    private function take(mixed $got, string $op): void {
        if (Model::norm($got) !== Model::norm($this->m[0])) { $this->fail("::$op:result", "$op gave " . Rep::show($got) . ' instead of ' . Rep::show($this->m[0])); }
        foreach ($this->m as $i => $v) { if (Rep::same($v, $got)) { array_splice($this->m, $i, 1); return; } if ($i > 200) { break; } }
        $this->fail("::$op:identity", "$op gave " . Rep::show($got) . ', which is not an element');
    }
    public function op_extract(): void {
        Rec::op("{$this->cls}::extract", 'extract()');
        $got = outcome(fn() => $this->o->extract());
        Rec::$checks++;
        if (!$this->m) { check($got[0] === 'throw' && is_a($got[1], \UnderflowException::class, true), "{$this->cls}::extract:empty", fn() => 'extract of an empty heap: ' . Rep::show($got)); return; }
        if ($got[0] !== 'ret') { $this->fail('::extract:throw', "extract threw {$got[1]}"); }
        $this->take($got[1], 'extract');
    }
    public function op_drain(): void { for ($n = $this->r->int(0, count($this->m)); $n > 0; $n--) { $this->op_extract(); } }
    public function op_top(): void {
        Rec::op("{$this->cls}::top", 'top()');
        $got = outcome(fn() => $this->o->top());
        Rec::$checks++;
        if (!$this->m) { check($got[0] === 'throw' && is_a($got[1], \UnderflowException::class, true), "{$this->cls}::top:empty", fn() => 'top of an empty heap: ' . Rep::show($got)); return; }
        if ($got[0] !== 'ret' || Model::norm($got[1]) !== Model::norm($this->m[0])) { $this->fail('::top:result', 'top gave ' . Rep::show($got)); }
    }
    /** Iterator interface: current() is the top, next() extracts it */
    public function op_next(): void {
        Rec::op("{$this->cls}::next", 'valid/key/current/next');
        checkSame($this->o->valid(), (bool)$this->m, "{$this->cls}::valid:result", 'valid()');
        if (!$this->m) {
            foreach (['current', 'next'] as $f) { $got = outcome(fn() => $this->o->$f()); check($got[0] === 'throw' && is_a($got[1], \UnderflowException::class, true), "{$this->cls}::$f:empty", fn() => "$f() of an empty heap: " . Rep::show($got)); }
            return;
        }
        $c = $this->o->current();
        if (Model::norm($c) !== Model::norm($this->m[0])) { $this->fail('::current:result', 'current gave ' . Rep::show($c)); }
        $this->o->rewind();
        $this->o->next();
        $this->take($c, 'next');
    }
    public function op_clear(): void { Rec::op("{$this->cls}::clear", 'clear()'); $this->o->clear(); $this->m = []; }
    public function op_contains(): void {
        $v = $this->m && $this->r->bool() ? $this->r->pick($this->m) : $this->g->val($this->kind);
        Rec::op("{$this->cls}::contains", 'contains(' . Rep::show($v) . ')');
        $got = $this->o->contains($v);
        $want = in_array($v, $this->m, true);
        if (is_float($v) && is_nan($v)) { return; }
        checkSame($got, $want, "{$this->cls}::contains:result", 'contains ' . Rep::show($v) . ' in ' . $this->show());
    }
    public function op_clone(): void {
        Rec::op("{$this->cls}::clone", 'clone');
        $c = clone $this->o; $m = $this->m;
        if ($this->r->bool()) { [$this->o, $c] = [$c, $this->o]; }
        $this->op_bulk(); $this->op_drain();
        $this->same($c, $m, 'the other of original and clone');
    }
    public function op_iter(): void {
        Rec::op("{$this->cls}::foreach", 'foreach');
        $stop = $this->r->int(0, count($this->m) + 1); $i = 0;
        foreach ($this->o as $v) {
            if ($i >= $stop) { break; }
            $i++;
            if (Model::norm($v) !== Model::norm($this->m[0])) { $this->fail('::foreach:order', 'foreach gave ' . Rep::show($v)); }
            $this->take($v, 'foreach');
        }
    }
    public function op_reconstruct(): void {
        Rec::op("{$this->cls}::__construct again", '__construct again');
        $got = outcome(fn() => $this->o->__construct([1]));
        check($got[0] === 'throw', "{$this->cls}::__construct again:no-throw", 'second __construct did not throw');
    }
    public function op_round(): void {
        foreach ($this->m as $e) { if (is_object($e) || is_array($e)) { return; } }
        Rec::op("{$this->cls}::serialize", 'unserialize(serialize)');
        $this->same(unserialize(serialize($this->o)), $this->m, 'unserialized copy');
    }
    private function same(object $o, array $m, string $what): void {
        check($o instanceof $this->fq && count($o) === count($m), "{$this->cls}:copy", fn() => "count of $what");
        $x = [];
        while (!$o->isEmpty()) { $x[] = $o->extract(); }
        check($this->norms($x) === $this->norms($m), "{$this->cls}:copy", fn() => "$what extracts " . Rep::show($x) . ' instead of ' . Rep::show($m));
    }
    public function verify(): void {
        $n = count($this->m);
        Rec::max('largest collection', $n);
        check($this->o->count() === $n && $this->o->isEmpty() === ($n === 0), "{$this->cls}:state", fn() => "count is {$this->o->count()} on " . $this->show());
        $v = $this->o->values();
        $a = $this->norms($v); $b = $this->norms($this->m);
        if ($n) { check($a[0] === $b[0], "{$this->cls}:state", fn() => 'values() starts with ' . Rep::show($v[0]) . ' on ' . $this->show()); }
        $order = $a === $b;
        sort($a, SORT_STRING); sort($b, SORT_STRING);
        check(array_is_list($v) && $a === $b, "{$this->cls}:state", fn() => 'values() has ' . Rep::show($v) . ' on ' . $this->show());
        Rec::state($this->cls . '|' . Rep::list($this->m));
        if ($this->r->chance(1, 10)) {
            $want = Model::toArray(array_map(fn($x) => [$x, $x], $v));
            $got = outcome(fn() => $this->o->toArray());
            if ($want === null) { check($got[0] === 'throw', "{$this->cls}:views", 'toArray with keys that no array can have'); }
            else { checkSame($got, ['ret', $want], "{$this->cls}:views", 'toArray'); }
        }
    }
}
