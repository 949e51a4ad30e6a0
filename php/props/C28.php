<?php
/* Operations stay within their documented order of work. The work done inside the extension (basic blocks entered, bytes
   moved, bytes reallocated, allocations made: all deterministic) is measured at a size n and at 16 n. Work of order n gives
   a ratio near 16 and n log n one near 24; n * sqrt(n) gives 64 and n squared 256. */
const LIMIT = 56;

/** orders in which n distinct numbers arrive */
const ORDERS = ['up', 'down', 'shuffled', 'zigzag', 'inward', 'blocks', 'bitreversed', 'organ', 'strided'];
function order(string $how, int $n, Rng $r): array {
    switch ($how) {
        case 'up': return range(0, $n - 1);
        case 'down': return range($n - 1, 0);
        case 'shuffled': return $r->shuffle(range(0, $n - 1));
        case 'zigzag': $a = []; for ($i = 0; $i < $n; $i++) { $a[] = $i % 2 ? $n - 1 - intdiv($i, 2) : intdiv($i, 2); } return $a;
        case 'inward': $a = []; for ($i = 0; $i < $n; $i++) { $m = intdiv($n, 2); $a[] = $i % 2 ? $m - 1 - intdiv($i, 2) : $m + intdiv($i, 2); } return array_map(fn($x) => $x < 0 ? $x + 2 * $n : $x, $a);
        case 'blocks': $a = []; foreach (array_chunk(range(0, $n - 1), 17) as $c) { $a = [...$a, ...array_reverse($c)]; } return $a;
        case 'bitreversed': $a = []; for ($i = 0; count($a) < $n; $i++) { $x = 0; for ($b = 0; $b < 16; $b++) { $x |= ($i >> $b & 1) << (15 - $b); } $a[] = $x; } return $a;
        case 'organ': $a = []; for ($i = 0; $i < $n; $i++) { $a[] = $i < $n / 2 ? 2 * $i : 2 * ($n - $i) - 1; } return $a;
        default: $a = []; for ($i = 0; $i < $n; $i++) { $a[] = $i * 7919 % (16 * 65537); } return $a;
    }
}
/** keys of some type made from a number, in the same order */
const KINDS = ['int', 'shifted', 'high', 'neg', 'float', 'string', 'prefix', 'array', 'mixed'];
function keyOf(string $kind, int $i): mixed {
    return match ($kind) {
        'int' => $i, 'shifted' => $i << 12, 'high' => $i << 40, 'neg' => $i - 5000, 'float' => $i + 0.5, 'string' => sprintf('%07d', $i), 'prefix' => 'some/long/common/prefix/of/all/' . sprintf('%06d', $i),
        'array' => [$i >> 4, $i & 15], default => match ($i % 4) { 0 => $i, 1 => $i + 0.25, 2 => "k$i", default => [$i] },
    };
}
/** A scenario measures phases of itself at a given n: it yields phase names after each. @return array<string,array{int,int}> the steps and the bytes moved */
function measured(\Closure $scenario, int $n, bool $strings): array {
    $out = [];
    $gen = $scenario($n);
    $now = function () { $m = vmon_stats(); return [vmon_steps() + $m['allocs'], intdiv($m['moved'], 16)]; };
    $s = $now();
    foreach ($gen as $phase) {
        $e = $now();
        // the engine lets a smart_str (used for serializing, and for the content of an ImmutableSortedStringSet) grow by a page at a time: that is not the extension's doing
        if ($phase !== null) { $m = $phase === 'serialize' || $strings ? 0 : $e[1] - $s[1]; $out[$phase] = [($out[$phase][0] ?? 0) + $e[0] - $s[0] + $m, ($out[$phase][1] ?? 0) + 16 * $m]; }
        $s = $now();
    }
    return $out;
}
function compare(string $what, \Closure $scenario, int $n): void {
    gc_disable();
    try { $str = str_starts_with($what, 'ImmutableSortedStringSet'); $small = measured($scenario, $n, $str); $large = measured($scenario, 16 * $n, $str); } finally { gc_enable(); }
    foreach ($small as $phase => [$w, $bytes]) {
        // bytes moved grow as n does, whatever else is done: the storage that grows or shrinks a little at a time moves n squared of them
        $moved = $large[$phase][1] / max($bytes, 64 * $n);
        Rec::max('largest ratio of bytes moved (x10)', (int)round($moved * 10));
        check($moved <= LIMIT, "$what:$phase:moved", fn() => sprintf('%s, %s: %d bytes moved at n=%d, %d bytes at n=%d: the ratio is %.1f for 16 times the size', $what, $phase, $bytes, $n, $large[$phase][1], 16 * $n, $moved));
        $large[$phase] = $large[$phase][0];
        $ratio = $large[$phase] / max($w, 2 * $n);
        Rec::op("$what $phase", sprintf('%s, %s: n=%d %d steps, n=%d %d steps, ratio %.1f', $what, $phase, $n, $w, 16 * $n, $large[$phase], $ratio));
        Rec::max('steps in one measurement', $large[$phase]);
        Rec::max('largest ratio x10 of ' . strtok($what, ' ') . " $phase", (int)round($ratio * 10));
        Rec::max('largest ratio seen (x10)', (int)round($ratio * 10));
        Rec::state("$what $phase " . round($ratio));
        check($ratio <= LIMIT, "$what:$phase", fn() => sprintf('%s, %s: %d steps at n=%d, %d steps at n=%d: the ratio is %.1f for 16 times the size', $what, $phase, $w, $n, $large[$phase], 16 * $n, $ratio));
    }
}
function sequences(string $cls, Rng $r, int $n): void {
    $fq = "Teds\\$cls";
    $val = match ($cls) { 'BitVector' => fn(int $i) => ($i * 7 & 4) !== 0, 'IntVector' => fn(int $i) => $i, default => $r->pick([fn(int $i) => $i, fn(int $i) => "v$i", fn(int $i) => $i & 63, fn(int $i) => $i / 3, fn(int $i) => null, fn(int $i) => $i % 3 === 0, fn(int $i) => $i << 30, fn(int $i) => $i < 50 ? $i : "v$i", fn(int $i) => [$i]]) };
    $deque = $cls === 'Deque';
    $ends = $deque ? [['push', 'pop'], ['pushFront', 'popFront'], ['push', 'popFront'], ['pushFront', 'pop']] : [['push', 'pop']];
    switch ($r->int(0, 5)) {
        case 0: // fill and empty
            [$in, $out] = $r->pick($ends);
            compare("$cls fill/empty $in/$out", function (int $n) use ($fq, $val, $in, $out) {
                $o = new $fq(); for ($i = 0; $i < $n; $i++) { $o->$in($val($i)); } yield 'fill';
                while (count($o)) { $o->$out(); } yield 'empty';
                for ($i = 0; $i < $n; $i++) { $o->$in($val($i)); } yield 'refill'; }, $n);
            break;
        case 1: // move a little around a size that is a power of two, or not
            [$in, $out] = $r->pick($ends); $off = $r->int(-2, 2); $pow = $r->bool(); $k = $r->pick([1, 1, 2, 3, 4, 5, 6, 8, 12, 20]);
            $n = $pow ? 512 : $n;
            compare("$cls thrash $in/$out k=$k", function (int $n) use ($fq, $val, $in, $out, $off, $k) {
                $o = new $fq(); for ($i = 0; $i < $n + $off; $i++) { $o->$in($val($i)); } yield 'fill';
                for ($i = 0; $i < $n; $i++) { for ($j = 0; $j < $k; $j++) { $o->$in($val($j)); } for ($j = 0; $j < $k; $j++) { $o->$out(); } } yield 'thrash';
                for ($s = $n; $s > 2; $s >>= 1) { while (count($o) > $s) { $o->$out(); } yield null; for ($i = 0; $i < $s / 2 / $k; $i++) { for ($j = 0; $j < $k && count($o); $j++) { $o->$out(); } for ($j = 0; $j < $k; $j++) { $o->$in($val(1)); } } yield 'thrash on the way down'; } }, $n);
            break;
        case 2: // a random walk over both ends
            $seed = (string)$r->int(0, PHP_INT_MAX);
            compare("$cls walk", function (int $n) use ($fq, $val, $ends, $seed) {
                $r = new Rng($seed); $o = new $fq(); $len = max(1, intdiv($n, 20));
                for ($p = 0; $p < 40; $p++) {
                    [$in, $out] = $r->pick($ends); $up = $r->bool();
                    for ($i = 0; $i < $len; $i++) { if ($up || !count($o)) { $o->$in($val($i)); } else { $o->$out(); } }
                } yield 'walk'; }, $n);
            break;
        case 3: // access
            compare("$cls access", function (int $n) use ($fq, $val) {
                $a = []; for ($i = 0; $i < $n; $i++) { $a[] = $val($i); }
                $o = new $fq($a); yield 'construct from array';
                for ($i = 0; $i < $n; $i++) { $x = $o[$i * 7 % $n]; $x = $o->get($i); $x = isset($o[$i]); } yield 'read';
                for ($i = 0; $i < $n; $i++) { $o[$i] = $a[$n - 1 - $i]; $o->set($i, $a[$i]); } yield 'write';
                for ($i = 0; $i < $n; $i++) { $x = $o->first(); $x = $o->last(); $x = count($o); $x = $o->isEmpty(); } yield 'ends';
                $c = clone $o; yield 'clone'; $c = null; yield 'free';
                $x = $o->toArray(); $x = $o->values(); $x = (array)$o; yield 'to array';
                foreach ($o as $k => $v) { } yield 'foreach';
                $it = $o->getIterator(); for ($it->rewind(); $it->valid(); $it->next()) { $it->current(); $it->key(); } yield 'iterator';
                $s = serialize($o); yield 'serialize'; $u = unserialize($s); yield 'unserialize'; yield null;
                $o->contains(NAN === $a[0] ? 1 : $a[0]); $o->indexOf($a[$n - 1]); yield 'search';
                if (method_exists($o, 'map')) { $x = $o->map(fn($x) => $x); yield 'map'; } if (method_exists($o, 'filter')) { $x = $o->filter(fn($x) => true); yield 'filter'; }
                $o->clear(); yield 'clear'; }, $n);
            break;
        case 4: // from a generator, and appended in batches
            $b = $r->pick([1, 2, 3, 10]);
            compare("$cls batches of $b", function (int $n) use ($fq, $val, $b) {
                $o = new $fq((function () use ($n, $val) { for ($i = 0; $i < $n; $i++) { yield $val($i); } })()); yield 'construct from generator';
                for ($i = 0; $i < $n; $i++) { $o->push(...array_fill(0, $b, $val($i))); } yield 'push';
                for ($i = 0; $i < $n; $i++) { $o[] = $val($i); } yield 'append'; }, $n);
            break;
        default: // alternating phases of growth and shrinkage to a third
            [$in, $out] = $r->pick($ends);
            compare("$cls waves $in/$out", function (int $n) use ($fq, $val, $in, $out) {
                $o = new $fq();
                for ($w = 0; $w < 6; $w++) { while (count($o) < $n) { $o->$in($val($w)); } while (count($o) > $n / 3) { $o->$out(); } }
                yield 'waves'; }, $n);
    }
}
function dictionaries(string $cls, Rng $r, int $n): void {
    $fq = "Teds\\$cls"; $map = Beast::family($cls) === 'map';
    $kind = str_contains($cls, 'Int') ? 'int' : ($cls === 'ImmutableSortedStringSet' ? $r->pick(['string', 'prefix']) : $r->pick(KINDS));
    $vec = str_contains($cls, 'Vector') || str_starts_with($cls, 'Immutable');
    if ($vec && $kind === 'mixed') { $kind = 'float'; } // the order of arrival has to be known
    $arrive = $r->pick(ORDERS); $leave = $r->pick(ORDERS);
    $put = $map ? function ($o, $k) { $o[$k] = 1; } : function ($o, $k) { $o->add($k); };
    $del = $map ? function ($o, $k) { unset($o[$k]); } : function ($o, $k) { $o->remove($k); };
    $has = $map ? function ($o, $k) { return isset($o[$k]) && $o->containsKey($k) && $o[$k] === $o->get($k); } : function ($o, $k) { return $o->contains($k); };
    $seed = (string)$r->int(0, PHP_INT_MAX);
    $keys = fn(string $how, int $n) => array_map(fn($i) => keyOf($kind, $i), order($how, $n, new Rng($seed)));
    $make = function (array $ks, int $how) use ($fq, $map) {
        if ($map) { $p = array_map(fn($k) => [$k, 1], $ks); return $how === 0 ? $fq::fromPairs($p) : new $fq(Beast::gen($p)); }
        return new $fq($how === 0 ? $ks : (function () use ($ks) { yield from $ks; })());
    };
    $label = "$cls $kind";
    $immutable = in_array($cls, Beast::IMMUTABLE, true);
    $k = $r->int(0, $immutable ? 0 : 4);
    if ($k === 0) { // lookups and views after construction; elements arrive sorted where inserting elsewhere has to move the rest
        $how = $r->int(0, 1); $arr = $vec && !$immutable && ($map || $how === 1) ? 'up' : $arrive;
        compare("$label from $arr", function (int $n) use ($keys, $make, $has, $arr, $how, $map) {
            $ks = $keys($arr, $n); yield null;
            $o = $make($ks, $how); yield 'construct';
            foreach ($ks as $x) { $has($o, $x); } yield 'lookup present';
            for ($i = 0; $i < $n; $i++) { $has($o, $x = keyOf('int', $i + 3 * $n)); } yield 'lookup absent';
            if (!$map || method_exists($o, 'bottomKey')) { for ($i = 0; $i < $n; $i++) { $map ? $o->bottomKey() : (method_exists($o, 'first') ? $o->first() : 0); $map ? $o->topKey() : (method_exists($o, 'last') ? $o->last() : 0); count($o); } yield 'ends'; }
            foreach ($o as $a => $b) { } yield 'foreach';
            $x = $o->values(); $x = (array)$o; if ($map) { $x = $o->keys(); $x = $o->toPairs(); } yield 'views';
            $s = serialize($o); yield 'serialize'; $u = unserialize($s); yield 'unserialize'; yield null; $c = clone $o; yield 'clone'; $c = null; yield 'free'; }, $n);
    } elseif ($k === 1 && !$vec) { // fill in one order, look up, empty in another
        compare("$label in $arrive out $leave", function (int $n) use ($fq, $keys, $put, $del, $has, $arrive, $leave) {
            $in = $keys($arrive, $n); $out = $keys($leave, $n); $o = new $fq(); yield null;
            foreach ($in as $x) { $put($o, $x); } yield 'insert';
            foreach ($in as $x) { $has($o, $x); } yield 'lookup';
            foreach (array_slice($out, 0, intdiv(count($out), 2)) as $x) { $del($o, $x); } yield 'remove';
            foreach ($in as $x) { $has($o, $x); } yield 'lookup after removals';
            foreach ($in as $x) { $put($o, $x); } yield 'insert again';
            foreach ($out as $x) { $del($o, $x); } foreach ($in as $x) { $del($o, $x); } yield 'remove all'; }, $n);
    } elseif ($k === 2 && !$vec) { // a window that slides over the order: a queue
        $w = $r->pick([1, 3, 20, 100]);
        compare("$label window of $w over $arrive", function (int $n) use ($fq, $keys, $put, $del, $has, $arrive, $w) {
            $in = $keys($arrive, $n); $o = new $fq(); yield null;
            foreach ($in as $i => $x) { $put($o, $x); if ($i >= $w) { $del($o, $in[$i - $w]); } $has($o, $x); } yield 'slide';
            foreach ($o as $a => $b) { } count($o); yield 'iterate'; }, $n);
    } elseif ($k === 3 && method_exists($fq, 'pop')) { // taken from the ends
        $ms = $vec ? ['pop'] : $r->pick([['pop'], ['shift'], ['pop', 'shift']]); $arr = $vec ? 'up' : $arrive;
        compare("$label in $arr " . implode('/', $ms), function (int $n) use ($fq, $keys, $put, $ms, $arr) {
            $in = $keys($arr, $n); $o = new $fq(); yield null;
            foreach ($in as $x) { $put($o, $x); } yield 'insert';
            for ($i = 0; count($o) > $n / 8; $i++) { $m = $ms[$i % count($ms)]; $o->$m(); } yield 'take most';
            foreach ($in as $i => $x) { $put($o, $x); $m = $ms[$i % count($ms)]; $o->$m(); } yield 'put and take';
            while (count($o)) { $m = $ms[$i++ % count($ms)]; $o->$m(); } yield 'take all'; }, $n);
    } else { // the same few entries over and over in a large one; clearing
        $arr = $vec ? 'up' : $arrive;
        compare("$label churn in $arr", function (int $n) use ($fq, $keys, $put, $del, $has, $arr, $vec) {
            $in = $keys($arr, $n); $o = new $fq(); yield null;
            foreach ($in as $x) { $put($o, $x); } yield 'insert';
            $last = $in[count($in) - 1];
            for ($i = 0; $i < $n; $i++) { $x = $vec ? $last : $in[$i % 64]; $del($o, $x); $put($o, $x); } yield 'remove and add one';
            if (!$vec) { for ($i = 0; $i < $n; $i++) { $x = $in[$n - 1 - $i % 64]; $del($o, $x); $put($o, $x); foreach ($o as $a => $b) { break; } } yield 'remove and add another, looking at the first'; }
            for ($i = 0; $i < $n; $i++) { $put($o, $in[$i * 31 % $n]); } yield 'overwrite';
            $o->clear(); yield 'clear'; foreach ($in as $x) { $put($o, $x); } yield 'refill'; }, $n);
    }
}
function heaps(string $cls, Rng $r, int $n): void {
    $fq = "Teds\\$cls"; $kind = $r->pick(KINDS); $arrive = $r->pick([...ORDERS, 'equal']); $seed = (string)$r->int(0, PHP_INT_MAX); $w = $r->pick([1, 10, 40]);
    compare("$cls $kind $arrive w=$w", function (int $n) use ($fq, $kind, $arrive, $seed, $w) {
        $in = $arrive === 'equal' ? array_fill(0, $n, keyOf($kind, 7)) : array_map(fn($i) => keyOf($kind, $i), order($arrive, $n, new Rng($seed))); $o = new $fq(); yield null;
        foreach ($in as $x) { $o->add($x); } yield 'add';
        for ($i = 0; $i < $n; $i++) { $o->top(); } yield 'top';
        $c = clone $o; yield 'clone'; $x = $c->values(); yield 'values'; $s = serialize($c); yield 'serialize'; unserialize($s); yield 'unserialize';
        $b = $fq::__set_state($in); yield 'build'; $b = null; yield null;
        for ($i = 0; $i < $n; $i++) { $o->add($in[$i]); $o->extract(); } yield 'add and extract';
        while (count($o)) { $o->extract(); } yield 'extract';
        foreach ($c as $x) { } yield 'drain by foreach';
        foreach ($in as $i => $x) { $o->add($x); if ($i >= $w) { $o->extract(); } } yield 'window'; }, $n);
}
function iterables(string $cls, Rng $r, int $n): void {
    $fq = "Teds\\$cls"; $k = $r->pick(KINDS);
    compare("$cls $k", function (int $n) use ($fq, $k, $cls) {
        $p = []; for ($i = 0; $i < $n; $i++) { $p[] = [keyOf($k, $i), $i]; } yield null;
        $o = $fq::fromPairs($p); yield 'fromPairs'; $o = new $fq(Beast::gen($p)); yield 'construct';
        if ($cls === 'CachedIterable') { for ($i = 0; $i < $n; $i++) { $o->valueAt($i); $o->keyAt($i); } yield 'read as it is produced'; for ($i = 0; $i < $n; $i++) { $o->valueAt($i * 7 % $n); } yield 'read again';
            $q = new $fq(Beast::gen($p)); $its = [$q->getIterator(), $q->getIterator(), $q->getIterator()]; foreach ($its as $j => $it) { $it->rewind(); } for ($i = 0; $i < $n; $i++) { foreach ($its as $it) { if ($it->valid()) { $it->current(); $it->next(); } } } yield 'several readers'; }
        for ($i = 0; $i < $n; $i++) { $o->keyAt($i); $o->valueAt($i); count($o); } yield 'access';
        foreach ($o as $a => $b) { } yield 'foreach'; $x = $o->keys(); $x = $o->values(); $x = $o->toPairs(); yield 'views';
        $s = serialize($o); yield 'serialize'; unserialize($s); yield 'unserialize';
        $o->containsKey($p[$n - 1][0]); $o->indexOfValue($n - 1); yield 'search';
        if ($cls === 'MutableIterable') {
            $o = new $fq([]); yield null;
            for ($i = 0; $i < $n; $i++) { $o->push($i, $i); } yield 'push'; for ($i = 0; $i < $n; $i++) { $o->pop(); $o->push($i, $i); } yield 'thrash'; for ($i = 0; $i < $n; $i++) { $o->setKeyAt($i, 1); $o->setValueAt($i, 2); } yield 'set'; while (count($o)) { $o->pop(); } yield 'pop';
        } }, $n);
}
function functions(Rng $r, int $n): void {
    $kind = $r->pick([...KINDS, 'same']); $arrive = $r->pick(ORDERS); $seed = (string)$r->int(0, PHP_INT_MAX);
    compare("functions $kind $arrive", function (int $n) use ($kind, $arrive, $seed) {
        $a = array_map(fn($i) => $kind === 'same' ? $i % 5 : keyOf($kind, $i), order($arrive, $n, new Rng($seed))); yield null;
        \Teds\unique_values($a); yield 'unique_values'; \Teds\strict_hash($a); yield 'strict_hash'; $b = $a; $b[] = 1; array_pop($b); yield null; \Teds\strict_equals($a, $b); yield 'strict_equals'; \Teds\stable_compare($a, $b); yield 'stable_compare';
        \Teds\fold($a, fn($c, $x) => $c + 1, 0); \Teds\any($a, fn($x) => false); \Teds\all($a, fn($x) => true); \Teds\none($a, fn($x) => false); yield 'traversal'; \Teds\includes_value($a, NAN); yield 'includes_value';
        usort($a, 'Teds\stable_compare'); yield null; for ($i = 0; $i < $n; $i++) { \Teds\binary_search($a, $a[$i * 7 % $n], 'Teds\stable_compare'); } yield 'binary_search';
        for ($i = 0; $i < $n; $i++) { \Teds\array_value_first($a); \Teds\array_value_last($a); \Teds\is_same_array_handle($a, $b); } yield 'ends'; }, $n);
}
function run_case(int $case, Rng $r, string $tier): void {
    static $all = [...Beast::SEQ, ...Beast::MAPS, ...Beast::SETS, ...Beast::HEAPS, ...Beast::PAIRS, 'functions'];
    $cls = $all[$case % count($all)]; $n = $r->int(250, 600);
    if (vmon_steps() < 0) { throw new \Exception('no step counter'); }
    if ($cls === 'ImmutableSequence') {
        $fq = 'Teds\ImmutableSequence';
        compare($cls, function (int $n) use ($fq) { $a = range(0, $n - 1); yield null; $o = new $fq($a); yield 'construct'; $o = new $fq((function () use ($a) { yield from $a; })()); yield 'from generator'; for ($i = 0; $i < $n; $i++) { $x = $o[$i]; $o->get($i); isset($o[$i]); $o->first(); $o->last(); count($o); } yield 'read'; foreach ($o as $x) { } yield 'foreach'; $x = $o->toArray(); $x = $o->values(); yield 'views'; $c = clone $o; yield 'clone'; $s = serialize($o); yield 'serialize'; unserialize($s); yield 'unserialize'; $o->map(fn($x) => $x); $o->filter(fn($x) => $x % 2); yield 'map and filter'; $o->contains(-1); $o->indexOf($n - 1); yield 'search'; }, $n);
        return;
    }
    match (true) {
        $cls === 'functions' => functions($r, $n),
        in_array($cls, Beast::SEQ, true) => sequences($cls, $r, $n),
        in_array($cls, Beast::HEAPS, true) => heaps($cls, $r, $n),
        in_array($cls, Beast::PAIRS, true) => iterables($cls, $r, $n),
        default => dictionaries($cls, $r, $n),
    };
}
