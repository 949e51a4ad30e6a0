<?php
declare(strict_types=1);
/* Collections beyond 65535 elements: the same models, compared with the engine's own === on arrays (no NAN, no objects among the values). */

final class Big {
    const SIZES = [65535, 65536, 65537, 66000, 70000, 131072, 140000];
    public static function n(Rng $r): int { return $r->pick(self::SIZES) + ($r->bool() ? 0 : $r->int(0, 500)); }
    private static function eq(bool $ok, string $key, string $what): void { check($ok, $key, "big collection: $what"); }
    /** element $i of a big content */
    public static function maker(string $cls, Rng $r): \Closure {
        $k = match ($cls) { 'BitVector' => 9, 'IntVector', 'SortedIntVectorSet', 'ImmutableSortedIntSet' => $r->int(0, 3), 'LowMemoryVector' => $r->int(0, 9), 'ImmutableSortedStringSet' => 4, default => $r->pick([2, 4, 5, 6]) };
        $m = $r->int(1, 1 << 20) * 2 + 1;
        return match ($k) {
            0 => fn(int $i): int => ($i * $m >> 3) % 127 - 60,
            1 => fn(int $i): int => ($i * $m) % 32767,
            2 => fn(int $i): int => ($i * $m) & 0x7fffffff,
            3 => fn(int $i): int => ($i * $m) << 22 ^ $i,
            4 => fn(int $i): string => 'k' . $i,
            5 => fn(int $i): mixed => $i & 1 ? $i : "v$i",
            6 => fn(int $i): mixed => $i % 5 ? $i : [$i],
            7 => fn(int $i): float => $i / 3,
            8 => fn(int $i): ?bool => [true, false, null][($i * $m >> 2) % 3],
            default => fn(int $i): bool => (bool)(($i * $m >> 7) & 1),
        };
    }
    private static function list(int $n, \Closure $f): array { $a = []; for ($i = 0; $i < $n; $i++) { $a[] = $f($i); } return $a; }
    /** one of the ways to hand over a list */
    private static function src(array $a, Rng $r): iterable {
        return match ($r->int(0, 3)) { 0, 1 => $a, 2 => (function () use ($a) { foreach ($a as $v) { yield $v; } })(), default => new \ArrayIterator($a) };
    }

    public static function seq(string $cls, Rng $r): void {
        $fq = "Teds\\$cls"; $f = self::maker($cls, $r); $n = self::n($r);
        $m = self::list($n, $f);
        Rec::op("$cls::big", "big $cls of $n"); Rec::count('collections beyond 65535 elements'); Rec::max('largest collection', $n);
        if ($r->bool() || $cls === 'ImmutableSequence') { $o = new $fq(self::src($m, $r)); }
        else { $o = new $fq(); foreach (array_chunk($m, $r->pick([1, 7, 1000, 40000])) as $c) { $o->push(...$c); } }
        $its = [];
        $verify = function (string $after) use (&$o, &$m, $cls, $r, &$its): void {
            $n = count($m);
            self::eq($o->count() === $n && count($o) === $n, "$cls:big:count", "count() is {$o->count()} instead of $n after $after");
            self::eq($o->toArray() === $m, "$cls:big:content", "toArray() differs after $after");
            foreach ([0, 1, 32767, 32768, 65534, 65535, 65536, 65537, $n - 1, $r->int(0, $n - 1)] as $i) {
                if ($i < $n) { self::eq($o[$i] === $m[$i] && $o->get($i) === $m[$i] && isset($o[$i]) === ($m[$i] !== null), "$cls:big:get", "offset $i differs after $after"); }
            }
            foreach ($its as [$it, $p]) {
                self::eq($it->valid() === ($p < $n), "$cls:big:iterator", "an iterator at $p of $n is valid=" . var_export($it->valid(), true) . " after $after");
                if ($p < $n) { self::eq($it->key() === $p && $it->current() === $m[$p], "$cls:big:iterator", "an iterator expected at $p is at {$it->key()} after $after"); }
            }
            Rec::state("$cls big $n $after");
        };
        $verify('construction');
        if ($cls !== 'ImmutableSequence') {
            foreach ([$r->int(0, 65535), 65536 + $r->int(0, 60)] as $p) {
                $it = $o->getIterator(); $it->rewind(); for ($i = 0; $i < $p; $i++) { $it->next(); }
                $its[] = [$it, min($p, PHP_INT_MAX)];
            }
            for ($k = $r->int(4, 10); $k > 0; $k--) {
                $n = count($m);
                switch ($op = $r->pick(['push', 'pop', 'popFront', 'pushFront', 'insert', 'unset', 'set', 'shrink', 'clone', 'setSize'])) {
                    case 'push': $v = self::list($r->int(1, 3000), $f); $o->push(...$v); array_push($m, ...$v); break;
                    case 'pop': for ($j = $r->int(1, 400); $j > 0; $j--) { self::itRemove($its, count($m) - 1, count($m)); self::eq($o->pop() === array_pop($m), "$cls:big:pop", 'pop() gave another value'); } break;
                    case 'popFront': for ($j = $r->int(1, 60); $j > 0; $j--) { self::itRemove($its, 0, count($m)); self::eq($o->popFront() === array_shift($m), "$cls:big:popFront", 'popFront() gave another value'); } break;
                    case 'pushFront': $v = self::list($r->int(1, 700), $f); self::itInsert($its, 0, count($v), $n); $o->pushFront(...$v); $m = array_merge(array_reverse($v), $m); break;
                    case 'insert': $v = self::list($r->int(1, 700), $f); $at = $r->pick([$r->int(0, $n), 65535, 65536, $n]); $at = min($at, $n); self::itInsert($its, $at, count($v), $n); $o->insert($at, ...$v); array_splice($m, $at, 0, $v); break;
                    case 'unset': $at = $r->pick([$r->int(0, $n - 1), 65535, 65536, $n - 1]); $at = min($at, $n - 1); self::itRemove($its, $at, $n); unset($o[$at]); array_splice($m, $at, 1); break;
                    case 'set': $at = $r->pick([$r->int(0, $n - 1), 65535, 65536, $n - 1]); $at = min($at, $n - 1); $v = $f($r->int(0, 1 << 30)); $o[$at] = $v; $m[$at] = $v; break;
                    case 'shrink': if ($cls === 'Vector') { $o->shrinkToFit(); $o->reserve($n + 1000); } break;
                    case 'clone': $c = clone $o; $o->push($f(1)); $m2 = $m; $m[] = $f(1); self::eq($c->toArray() === $m2, "$cls:big:clone", 'the clone differs'); break;
                    case 'setSize': if ($cls === 'Vector' || $cls === 'BitVector') { $t = $n + $r->int(-500, 70000); $v = $f(3); $o->setSize($t, $v); $m = $t < $n ? array_slice($m, 0, $t) : array_merge($m, array_fill(0, $t - $n, $v)); } break;
                }
                Rec::op("$cls::big.$op");
                $verify($op);
            }
            if ($cls === 'BitVector') {
                $s = $o->toBinaryString(); $k = $r->int(0, strlen($s) - 2); $b = 0; for ($j = 0; $j < 8; $j++) { if ($m[$k * 8 + $j]) { $b |= 1 << $j; } }
                self::eq(ord($s[$k]) === $b && $o->getUInt8($k) === $b, "$cls:big:bytes", "byte $k differs");
            }
        }
        if ($cls !== 'BitVector') {
            $v = $m[$r->int(0, count($m) - 1)]; $i = array_search($v, $m, true);
            self::eq($o->indexOf($v) === $i && $o->contains($v), "$cls:big:indexOf", 'indexOf of a present value is not ' . $i);
        }
        $i = 0; $ok = true;
        foreach ($o as $key => $v) { if ($key !== $i || $v !== $m[$i]) { $ok = false; break; } $i++; }
        self::eq($ok && $i === count($m), "$cls:big:foreach", "foreach differs at $i");
        // down to a small collection again
        if ($cls !== 'ImmutableSequence') {
            $keep = $r->int(0, 40); $its = [];
            if ($r->bool() || $cls === 'Vector' || $cls === 'IntVector' || $cls === 'LowMemoryVector' || $cls === 'BitVector') { while (count($m) > $keep) { if ($o->pop() !== array_pop($m)) { self::eq(false, "$cls:big:pop", 'pop() gave another value'); } } }
            else { $at = 0; $n = count($m); while ($n - $at > $keep) { if ($o->popFront() !== $m[$at++]) { self::eq(false, "$cls:big:popFront", 'popFront() gave another value'); } } $m = array_slice($m, $at); }
            self::eq($o->toArray() === $m, "$cls:big:content", 'toArray() differs after draining');
        }
    }
    private static function itRemove(array &$its, int $off, int $n): void { foreach ($its as &$it) { if ($it[1] >= $off && $it[1] < $n) { $it[1]--; } } }
    private static function itInsert(array &$its, int $off, int $k, int $n): void { foreach ($its as &$it) { if ($it[1] >= $off && $it[1] < $n) { $it[1] += $k; } } }

    /** maps and sets over int and string keys */
    public static function dict(string $cls, Rng $r): void {
        $fq = "Teds\\$cls"; $n = self::n($r); $map = str_ends_with($cls, 'Map'); $hash = str_contains($cls, 'Hash');
        $ints = str_contains($cls, 'Int'); $strs = $cls === 'ImmutableSortedStringSet'; $immutable = str_starts_with($cls, 'Immutable');
        $f = $ints ? [fn(int $i): int => $i * 3, fn(int $i): int => $i * 65537 - (1 << 31), fn(int $i): int => $i * 1000003 << 10][$r->int(0, 2)] : ($strs || $r->bool() ? fn(int $i): string => sprintf('k%06d', $i) : fn(int $i): int => $i * 7);
        $keys = self::list($n, $f); // ascending
        $order = str_contains($cls, 'SortedVector') && !$ints ? $keys : $r->shuffle($keys);
        Rec::op("$cls::big", "big $cls of $n"); Rec::count('collections beyond 65535 elements'); Rec::max('largest collection', $n);
        $m = []; // key => value in the expected order
        if ($r->bool() || $immutable) {
            if ($map) { $o = $r->bool() ? $fq::fromPairs(array_map(fn($k) => [$k, "v$k"], $order)) : new $fq((function () use ($order) { foreach ($order as $k) { yield $k => "v$k"; } })()); }
            else { $o = new $fq(self::src($order, $r)); }
        } else { $o = new $fq(); foreach ($order as $k) { if ($map) { $o[$k] = "v$k"; } else { $o->add($k); } } }
        foreach ($hash ? $order : $keys as $k) { $m[$k] = $map ? "v$k" : true; }
        $verify = function (string $after) use (&$o, &$m, $cls, $map, $r, $f): void {
            $n = count($m); $keys = array_keys($m);
            self::eq($o->count() === $n, "$cls:big:count", "count() is {$o->count()} instead of $n after $after");
            if ($map) { self::eq($o->keys() === $keys && $o->values() === array_values($m), "$cls:big:content", "keys() or values() differ after $after"); }
            else { self::eq($o->values() === $keys, "$cls:big:content", "values() differ after $after"); }
            for ($i = 0; $i < 300; $i++) {
                $k = $f($r->int(-5, $n + 5)); $in = array_key_exists($k, $m);
                self::eq(($map ? $o->containsKey($k) : $o->contains($k)) === $in, "$cls:big:lookup", "the key $k is " . ($in ? 'not ' : '') . "found after $after");
                if ($map && $in) { self::eq($o[$k] === $m[$k], "$cls:big:lookup", "the value of $k differs after $after"); }
            }
            Rec::state("$cls big $n $after");
        };
        $verify('construction');
        if ($immutable) { return; }
        for ($round = $r->int(1, 3); $round > 0; $round--) {
            // remove a third, add some back, in mixed order; sorted vectors from the end to stay fast
            $keys = array_keys($m); $out = [];
            $sortedVec = str_contains($cls, 'Sorted');
            if ($sortedVec) { for ($i = 0; $i < 300; $i++) { $out[] = $r->pick($keys); } $out = array_unique($out); }
            else { foreach ($keys as $i => $k) { if ($r->chance(1, 3)) { $out[] = $k; } } $out = $r->shuffle($out); }
            foreach ($out as $k) { if ($map) { unset($o[$k]); } else { $o->remove($k); } unset($m[$k]); }
            Rec::op("$cls::big.remove");
            $verify('removals');
            $back = array_slice($out, 0, $r->int(0, count($out)));
            foreach ($back as $k) { if ($map) { $o[$k] = 'again'; } else { $o->add($k); } $m[$k] = $map ? 'again' : true; }
            if (!$hash) { ksort($m, is_string($keys[0]) ? SORT_STRING : SORT_REGULAR); }
            Rec::op("$cls::big.add");
            $verify('additions');
            $c = clone $o; $k = array_key_first($m);
            if ($map) { $c[$k] = 'changed'; self::eq($o[$k] === $m[$k], "$cls:big:clone", 'changing the clone changed the original'); unset($c[$k]); } else { $c->remove($k); }
            $c = null; $verify('clone');
        }
        $i = 0; $ok = true; $keys = array_keys($m);
        foreach ($o as $key => $v) { if ($map ? $key !== $keys[$i] || $v !== $m[$keys[$i]] : $v !== $keys[$i]) { $ok = false; break; } $i++; }
        self::eq($ok && $i === count($m), "$cls:big:foreach", "foreach differs at $i");
    }
    public static function heap(string $cls, Rng $r): void {
        $n = self::n($r); $fq = "Teds\\$cls"; $min = $cls === 'StrictMinHeap'; $mul = $r->int(1, 1 << 20) * 2 + 1;
        Rec::op("$cls::big", "big $cls of $n"); Rec::count('collections beyond 65535 elements'); Rec::max('largest collection', $n);
        $a = self::list($n, fn(int $i): int => ($i * $mul) & 0xffff);
        if ($r->bool()) { $o = new $fq(self::src($a, $r)); } else { $o = new $fq(); foreach ($a as $v) { $o->add($v); } }
        sort($a); if ($min) { $a = array_reverse($a); } // the next one is last
        for ($k = 0; $k < 2; $k++) {
            for ($j = $r->int(1, 5000); $j > 0; $j--) { if ($o->extract() !== array_pop($a)) { self::eq(false, "$cls:big:extract", 'extract() gave another value'); } }
            for ($j = 0; $j < 3; $j++) { $v = $min ? -$j : 70000 + $j; $o->add($v); $a[] = $v; }
            self::eq($o->count() === count($a) && $o->top() === $a[count($a) - 1], "$cls:big:top", 'count() or top() differs');
        }
        $c = clone $o; $b = $a;
        foreach ($c as $v) { if ($v !== array_pop($b)) { self::eq(false, "$cls:big:foreach", 'foreach gave another value'); } }
        self::eq(!$b && $c->isEmpty(), "$cls:big:foreach", 'iteration did not empty the heap');
        self::eq($o->count() === count($a), "$cls:big:clone", 'iterating over the clone changed the original');
        Rec::state("$cls big $n");
    }
    public static function pairs(string $cls, Rng $r): void {
        $n = self::n($r); $fq = "Teds\\$cls";
        Rec::op("$cls::big", "big $cls of $n"); Rec::count('collections beyond 65535 elements'); Rec::max('largest collection', $n);
        $m = self::list($n, fn(int $i): array => [$i & 1 ? "k$i" : $i % 1000, $i]);
        $gen = fn() => (function () use ($m) { foreach ($m as [$k, $v]) { yield $k => $v; } })();
        $o = match ($r->int(0, 1)) { 0 => $fq::fromPairs($m), default => new $fq($gen()) };
        foreach ([0, 65535, 65536, $n - 1, 65534] as $i) { if ($i < $n) { self::eq($o->keyAt($i) === $m[$i][0] && $o->valueAt($i) === $m[$i][1], "$cls:big:at", "position $i differs"); } }
        self::eq($o->indexOfValue($n - 1) === $n - 1 && $o->contains(66) && $o->indexOfKey($m[$n - 1][0]) === array_search($m[$n - 1][0], array_column($m, 0), true), "$cls:big:indexOf", 'indexOf differs');
        if ($cls === 'MutableIterable') {
            for ($k = 0; $k < 300; $k++) { self::eq($o->pop() === array_pop($m), "$cls:big:pop", 'pop() differs'); }
            $t = count($m) + $r->int(-200, 70000); $o->setSize($t); $m = $t < count($m) ? array_slice($m, 0, $t) : array_merge($m, array_fill(0, $t - count($m), [null, null]));
            for ($k = 0; $k < 300; $k++) { $o->push($k, "p$k"); $m[] = [$k, "p$k"]; }
        }
        self::eq($o->count() === count($m) && $o->toPairs() === $m, "$cls:big:content", 'toPairs() differs');
        $i = 0; $ok = true;
        foreach ($o as $k => $v) { if ($m[$i][0] !== $k || $m[$i][1] !== $v) { $ok = false; break; } $i++; }
        self::eq($ok && $i === count($m), "$cls:big:foreach", "foreach differs at $i");
        Rec::state("$cls big $n");
    }
    /** collections of $n sorted distinct elements, built in every way there is: medium sizes, one by one */
    public static function sweep(string $cls, int $n, Rng $r): void {
        $fq = "Teds\\$cls"; $fam = Beast::family($cls); $pairs = $fam === 'map' || $fam === 'pairs';
        Rec::op("$cls::sweep", "$cls of $n elements"); Rec::count('sizes swept'); Rec::max('largest collection', $n);
        $f = match (true) { $fam === 'seq' => self::maker($cls, $r), str_contains($cls, 'Int') => [fn(int $i): int => $i % 120, fn(int $i): int => $i * 3, fn(int $i): int => $i * 1000003 << 10][$r->int($n > 120 ? 1 : 0, 2)], $cls === 'ImmutableSortedStringSet' || $r->bool() => fn(int $i): string => sprintf('k%06d', $i), default => fn(int $i): int => $i * 5 - 300 };
        $a = self::list($n, $pairs ? fn(int $i): array => [$f($i), "v$i"] : $f);
        $src = $a; $rev = $r->chance(1, 4);
        if ($fam === 'heap') { sort($a); if ($cls === 'StrictMaxHeap') { $a = array_reverse($a); } $src = $r->shuffle($a); }
        elseif ($fam !== 'seq' && $fam !== 'pairs' && !str_contains($cls, 'Hash') && $rev) { $src = array_reverse($a); }
        $get = fn(object $x): array => $pairs ? $x->toPairs() : ($fam === 'heap' ? iterator_to_array(clone $x, false) : $x->values());
        $same = function (object $c, string $route) use ($get, &$a, $cls, $pairs, $n): void {
            self::eq($c->count() === count($a) && $get($c) === $a, "$cls:sweep:content", "$route of $n elements differs");
            if (method_exists($c, 'debugIsBalanced')) { DictSubject::redBlack($c, $pairs ? array_column($a, 0) : $a, "$cls:sweep"); }
            Rec::state("$cls sweep $route $n");
        };
        $keyed = fn() => (function () use ($src) { foreach ($src as [$k, $v]) { yield $k => $v; } })();
        $routes = $pairs ? ['generator' => fn() => new $fq($keyed()), 'fromPairs' => fn() => $fq::fromPairs($src), 'set_state' => fn() => $fq::__set_state($src)]
            : ['array' => fn() => new $fq($src), 'generator' => fn() => new $fq((function () use ($src) { foreach ($src as $v) { yield $v; } })()), 'set_state' => fn() => $fq::__set_state($src)];
        if ($fam === 'map') { $routes['array'] = fn() => new $fq(array_column($src, 1, 0)); }
        if ($fam === 'seq') { $routes['copy'] = fn() => new $fq(new \Teds\Vector($src)); }
        foreach ($routes as $route => $make) {
            $o = $make(); $same($o, $route);
            if ($cls !== 'CachedIterable') { $c = clone $o; $same($c, "clone of $route"); }
            $same(unserialize(serialize($o)), "unserialize of $route");
        }
        if (in_array($cls, Beast::IMMUTABLE, true)) { return; }
        // grow one by one past the sizes at which the storage changes, and take out again
        $o = $routes[$r->pick(array_keys($routes))]();
        for ($k = $r->int(1, 40); $k > 0 && $a; $k--) {
            $j = $r->int(0, count($a) - 1);
            switch ($fam) {
                case 'seq': if ($r->bool()) { $v = $f($k); $o->push($v); $a[] = $v; } else { unset($o[$j]); array_splice($a, $j, 1); } break;
                case 'map': unset($o[$a[$j][0]]); array_splice($a, $j, 1); break;
                case 'set': $o->remove($a[$j]); array_splice($a, $j, 1); break;
                case 'heap': self::eq($o->extract() === array_shift($a), "$cls:sweep:extract", 'extract() gave another value'); break;
                default: $o->push($k, "p$k"); $a[] = [$k, "p$k"];
            }
        }
        $same($o, 'changes');
    }
    /** every way to copy or rebuild a big collection (C19) */
    public static function routes(string $cls, Rng $r): void {
        if (str_starts_with($cls, 'Empty')) { return; }
        $fq = "Teds\\$cls"; $fam = Beast::family($cls); $n = self::n($r);
        $f = match (true) { $fam === 'seq' => self::maker($cls, $r), str_contains($cls, 'Int') => [fn(int $i): int => $i * 3, fn(int $i): int => $i * 1000003 << 10][$r->int(0, 1)], $cls === 'ImmutableSortedStringSet' => fn(int $i): string => sprintf('k%06d', $i), default => fn(int $i): int => $i * 5 };
        Rec::op("$cls::big", "big $cls of $n"); Rec::count('collections beyond 65535 elements');
        $pairs = $fam === 'map' || $fam === 'pairs';
        $a = self::list($n, $pairs ? fn(int $i): array => [$f($i), "v$i"] : $f);
        if ($cls === 'StrictMaxHeap') { $a = array_reverse($a); }
        $o = $pairs ? $fq::fromPairs($a) : new $fq($a);
        $get = fn(object $x): array => $pairs ? $x->toPairs() : ($fam === 'heap' ? iterator_to_array(clone $x, false) : $x->values());
        $same = function (mixed $c, string $route) use ($get, $a, $cls, $fq): void {
            Rec::op("$cls::big.$route"); Rec::state("$cls big $route " . count($a));
            self::eq($c instanceof $fq && $c->count() === count($a) && $get($c) === $a, "$cls:$route:content", "$route of " . count($a) . ' elements differs');
        };
        $same($o, 'construction');
        $same(unserialize(serialize($o)), 'unserialize');
        if ($cls !== 'CachedIterable') { $same(clone $o, 'clone'); }
        $same($fq::__set_state((array)$o), '__set_state');
        if (method_exists($o, 'serialize')) { $same($fq::unserialize($o->serialize()), 'own-serialize'); }
        if (method_exists($o, 'toBinaryString') && count($o) % 8 === 0) { $same($fq::fromBinaryString($o->toBinaryString()), 'binary-string'); }
        if ($o instanceof \JsonSerializable) { self::eq(json_decode(json_encode($o), true) == $a, "$cls:json:content", 'json differs'); }
    }
}
