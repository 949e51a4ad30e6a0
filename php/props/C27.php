<?php
/* Memory stays proportional to the content. A case prepares a program of phases, runs it on one collection, and reads the heap
   bytes held by the collection after every phase (all elements are scalars or shared, so that every byte is the collection's
   own; nothing else allocates between the readings). Each reading is compared with a bound computed from the number of
   elements, the widest element and, where the class does not give memory back for an operation, the largest size since it
   last did. */
const BASE = 240;
const GROWN = 5.0;   // after any history
const FRESH = 2.2;   // just built, copied or unserialized

/** bytes one element takes at the given width */
const UNIT = ['Vector' => 16, 'Deque' => 16, 'ImmutableSequence' => 16, 'StrictHashMap' => 40, 'StrictHashSet' => 32, 'StrictTreeMap' => 56, 'StrictTreeSet' => 40, 'StrictSortedVectorMap' => 32, 'StrictSortedVectorSet' => 16,
    'StrictMinHeap' => 16, 'StrictMaxHeap' => 16, 'MutableIterable' => 32, 'ImmutableIterable' => 32, 'CachedIterable' => 32];
/** removing in these ways gives memory back */
const SHRINKS = [
    'Vector' => ['pop', 'shift', 'popFront', 'unset first', 'unset last', 'setSize'], 'Deque' => ['pop', 'shift', 'popFront', 'unset first', 'unset last'],
    'LowMemoryVector' => ['pop', 'shift', 'popFront', 'unset first', 'unset last'], 'IntVector' => ['pop', 'shift', 'popFront', 'unset first', 'unset last'], 'BitVector' => ['pop', 'shift', 'popFront', 'unset first', 'unset last', 'setSize'],
    'StrictTreeMap' => ['pop', 'shift', 'unset'], 'StrictTreeSet' => ['pop', 'shift', 'remove'], 'StrictSortedVectorMap' => ['pop'], 'StrictSortedVectorSet' => ['pop', 'shift'], 'SortedIntVectorSet' => ['pop', 'remove'],
    'MutableIterable' => ['pop', 'setSize'], 'StrictHashMap' => [], 'StrictHashSet' => [], 'StrictMinHeap' => [], 'StrictMaxHeap' => [],
];
const REMOVES = [
    'Vector' => ['pop', 'shift', 'popFront', 'unset first', 'unset last', 'setSize'], 'Deque' => ['pop', 'shift', 'popFront', 'unset first', 'unset last'],
    'LowMemoryVector' => ['pop', 'shift', 'popFront', 'unset first', 'unset last'], 'IntVector' => ['pop', 'shift', 'popFront', 'unset first', 'unset last'], 'BitVector' => ['pop', 'shift', 'popFront', 'unset first', 'unset last', 'setSize'],
    'StrictTreeMap' => ['pop', 'shift', 'unset'], 'StrictTreeSet' => ['pop', 'shift', 'remove'], 'StrictSortedVectorMap' => ['pop', 'shift', 'unset'], 'StrictSortedVectorSet' => ['pop', 'shift', 'remove'], 'SortedIntVectorSet' => ['pop', 'remove'],
    'MutableIterable' => ['pop', 'setSize'], 'StrictHashMap' => ['unset'], 'StrictHashSet' => ['remove'], 'StrictMinHeap' => ['extract', 'drain'], 'StrictMaxHeap' => ['extract', 'drain'],
];
const ADDS = [
    'Vector' => ['push', 'append', 'unshift', 'insert', 'batch', 'setSize'], 'Deque' => ['push', 'append', 'unshift', 'batch'], 'LowMemoryVector' => ['push', 'append', 'unshift', 'insert', 'batch'], 'IntVector' => ['push', 'append', 'unshift', 'insert', 'batch'],
    'BitVector' => ['push', 'append', 'unshift', 'insert', 'batch', 'setSize'], 'StrictTreeMap' => ['put'], 'StrictSortedVectorMap' => ['put'], 'StrictHashMap' => ['put'], 'StrictTreeSet' => ['add'], 'StrictHashSet' => ['add'], 'StrictSortedVectorSet' => ['add'],
    'SortedIntVectorSet' => ['add'], 'StrictMinHeap' => ['add'], 'StrictMaxHeap' => ['add'], 'MutableIterable' => ['push pair', 'setSize'],
];
const COMPACT = ['LowMemoryVector', 'IntVector', 'SortedIntVectorSet'];
function intWidth(int $lo, int $hi): int { return match (true) { $lo >= -128 && $hi <= 127 => 1, $lo >= -32768 && $hi <= 32767 => 2, $lo >= -2147483648 && $hi <= 2147483647 => 4, default => 8 }; }

/** Adds one element of the given kind; $i counts up over the whole program, so that keys are distinct. */
function addOne(object $o, string $how, mixed $v): void {
    switch ($how) {
        case 'push': $o->push($v); break;
        case 'append': $o[] = $v; break;
        case 'unshift': $o->pushFront($v); break;
        case 'insert': $o->insert(count($o) >> 1, $v); break;
        case 'batch': $o->push($v, $v, $v); break;
        case 'put': $o[$v] = true; break;
        case 'add': $o->add($v); break;
        case 'push pair': $o->push($v, null); break;
    }
}
function removeOne(object $o, string $how): void {
    switch ($how) {
        case 'pop': $o->pop(); break;
        case 'shift': $o->shift(); break;
        case 'popFront': $o->popFront(); break;
        case 'extract': $o->extract(); break;
        case 'unset first': unset($o[0]); break;
        case 'unset last': unset($o[count($o) - 1]); break;
        case 'drain': foreach ($o as $x) { break; } $o->extract(); break;
        case 'unset': foreach ($o as $k => $x) { unset($o[$k]); break; } break;
        case 'remove': foreach ($o as $x) { $o->remove($x); break; } break;
    }
}
/** All views, results dropped: looking leaves nothing behind. */
function lookAt(object $o): void {
    $x = $o->values(); $x = (array)$o; $x = count($o); $x = null;
    if (!($o instanceof \Teds\StrictMinHeap || $o instanceof \Teds\StrictMaxHeap)) { $x = json_encode($o->toArray()); $n = 0; foreach ($o as $k => $v) { if (++$n > 20) { break; } } $k = $v = null; }
    $x = serialize($o); $x = null; $x = clone $o; $x = null; ob_start(); var_dump(count($o) < 300 ? $o : 0); ob_end_clean(); $x = $o == $o; $x = isset($o->nothing); gc_collect_cycles();
}
function widthOf(string $cls, array $vals): int {
    if ($cls === 'BitVector' || isset(UNIT[$cls])) { return 0; }
    $t = []; foreach ($vals as $v) { $t[is_bool($v) || $v === null ? 'b' : gettype($v)] = 1; }
    if (count($t) > 1 || isset($t['string'])) { return 16; }
    return isset($t['b']) ? 1 : (isset($t['double']) ? 8 : intWidth(min($vals), max($vals)));
}
function run_case(int $case, Rng $r, string $tier): void {
    static $all = ['Vector', 'Deque', 'LowMemoryVector', 'IntVector', 'BitVector', 'StrictHashMap', 'StrictTreeMap', 'StrictSortedVectorMap', 'StrictHashSet', 'StrictTreeSet', 'StrictSortedVectorSet', 'SortedIntVectorSet', 'StrictMinHeap', 'StrictMaxHeap', 'MutableIterable',
        'LowMemoryVector', 'IntVector', 'fresh', 'fresh'];
    $cls = $all[$case % count($all)];
    if ($cls === 'fresh') { freshCase($r); return; }
    $keyed = in_array($cls, [...Beast::MAPS, ...Beast::SETS], true);
    // the values a phase adds: lo..hi of ints, or another kind
    $kinds = match ($cls) {
        'BitVector' => ['bool'], 'IntVector', 'SortedIntVectorSet' => ['i8', 'i8', 'i16', 'i32', 'i64'], 'LowMemoryVector' => ['bool', 'null', 'i8', 'i8', 'i16', 'i16', 'i32', 'i64', 'float', 'mixed'],
        'Vector', 'Deque', 'MutableIterable' => ['i64', 'float', 'null'], default => ['i16', 'i32', 'float', 'i64'] };
    $vals = function (string $k) use ($r, $keyed): array {
        if ($keyed) { $base = match ($k) { 'i8' => -128, 'i16' => -3000, 'i32' => 100000, 'i64' => 1 << 40, default => 0 }; $step = match ($k) { 'i8' => 1, 'i16' => $r->int(1, 3), 'i32' => $r->int(1, 5000), default => $r->int(1, 1 << 30) }; }
        $out = [];
        for ($i = 0; $i < ($keyed && $k === 'i8' ? 256 : 6000); $i++) {
            $out[] = $keyed ? ($k === 'float' ? $i + 0.5 : $base + $i * $step) : match ($k) { 'bool' => ($i & 3) === 1, 'null' => null, 'i8' => $i % 250 - 125, 'i16' => $i - 3000, 'i32' => $i * 300000 - 900000000, 'i64' => ($i << 33) - (1 << 40), 'float' => $i + 0.5, default => $i % 2 ? $i : 0.5 };
        }
        return $out;
    };
    $kind = $r->pick($kinds); $pool = ['a' => $vals($kind)];
    $kind2 = $r->chance(1, 2) ? $kind : $r->pick($kinds); $pool['b'] = $kind2 === $kind ? $pool['a'] : $vals($kind2);
    $max = $kind === 'i8' && $keyed ? 250 : $r->pick([300, 1000, 3000, 5500]);
    if ($keyed && in_array($cls, ['StrictSortedVectorMap', 'StrictSortedVectorSet', 'SortedIntVectorSet'], true)) { $max = min($max, 1500); }
    // prepare the program
    $prog = []; $n = 0;
    for ($p = 0, $np = $r->int(3, 9); $p < $np; $p++) {
        $k = $n === 0 ? 0 : $r->int(0, 9);
        if ($k <= 2) { $to = $r->int($n, $max); $prog[] = ['grow', $r->pick(ADDS[$cls]), $r->chance(3, 4) ? 'a' : 'b', $to]; $n = $to; }
        elseif ($k <= 5) { $to = $r->pick([0, 1, $r->int(0, $n), intdiv($n, 20), intdiv($n, 50)]); $prog[] = ['cut', $r->pick(REMOVES[$cls]), '', $to]; $n = $to; }
        elseif ($k === 6) { $prog[] = ['clear', '', '', 0]; $n = 0; }
        elseif ($k === 7) { $prog[] = ['look', '', '', 0]; }
        elseif ($k === 8) { $prog[] = ['churn', '', '', $r->int(1, 3000)]; }
        else { $prog[] = $r->chance(1, 3) && in_array($cls, ['Vector', 'MutableIterable'], true) ? ['shrinkToFit', '', '', 0] : ($cls === 'Vector' && $r->chance(1, 3) ? ['reserve', '', '', $r->int(1, 2 * $max)] : ['copy', $r->pick(['clone', 'serialize', 'self']), '', 0]); }
    }
    $fq = "Teds\\$cls"; $churnAdd = $r->pick(array_diff(ADDS[$cls], ['setSize', 'batch'])); $churnDel = $r->pick(array_diff(REMOVES[$cls], ['setSize']));
    if (in_array($cls, ['StrictSortedVectorMap', 'StrictSortedVectorSet'], true)) { $churnDel = 'pop'; }
    $empty = fn() => $cls === 'MutableIterable' ? new $fq([]) : new $fq();
    $warm = $empty(); lookAt($warm); $warm = null; $s = serialize($empty()); unserialize($s); $s = null;
    $N = count($prog); $bytes = array_fill(0, $N, 0); $sizes = array_fill(0, $N, 0); $caps = array_fill(0, $N, -1); $hasCap = method_exists($fq, 'capacity');
    $p = $i = $j = $op = $how = $to = $src = $k = 0; $v = null; $c = null; $cursor = 0;
    // twice: what the engine sets up on first use is not counted
    for ($round = 0; $round < 2; $round++) {
    gc_collect_cycles(); $cursor = 0;
    $base = vmon_bytes();
    $o = $empty();
    foreach ($prog as $p => [$op, $how, $src, $to]) {
        switch ($op) {
            case 'grow':
                if ($how === 'setSize') { if ($to > count($o)) { $o->setSize($to); } break; }
                if ($keyed || $cls === 'StrictMinHeap' || $cls === 'StrictMaxHeap') { $k = count($pool[$src]); for ($j = 0; $j < $k && count($o) < $to; $j++) { addOne($o, $how, $pool[$src][$j]); } break; }
                while (count($o) < $to) { addOne($o, $how, $pool[$src][$cursor]); $cursor = $cursor + 1 < count($pool[$src]) ? $cursor + 1 : 0; }
                break;
            case 'cut': if ($how === 'setSize') { if ($to < count($o)) { $o->setSize($to); } break; } while (count($o) > $to) { removeOne($o, $how); } break;
            case 'clear': $o->clear(); break;
            case 'look': lookAt($o); break;
            case 'churn':
                for ($j = 0; $j < $to && count($o) > 0; $j++) { removeOne($o, $churnDel); addOne($o, $churnAdd, $pool['a'][($j * 7) % count($pool['a'])]); } break;
            case 'shrinkToFit': $o->shrinkToFit(); break;
            case 'reserve': if ($to > count($o)) { $o->reserve($to); } break;
            case 'copy': if ($how === 'clone') { $o = clone $o; } elseif ($how === 'serialize') { $o = unserialize(serialize($o)); } break;
        }
        $bytes[$p] = vmon_bytes() - $base; $sizes[$p] = count($o);
        if ($hasCap) { $caps[$p] = $o->capacity(); }
    }
    $v = $c = null;
    $end = vmon_bytes(); $o = null; $held = $end - vmon_bytes(); $left = vmon_bytes() - $base;
    }
    // judge
    $width = 0; $m = 0; $line = ''; $vals = [];
    foreach ($prog as $p => [$op, $how, $src, $to]) {
        $n = $sizes[$p]; $got = $bytes[$p]; $factor = GROWN; $before = $p ? $sizes[$p - 1] : 0;
        switch ($op) {
            case 'grow': if ($n > $before) { $width = max($width, widthIn($cls, $vals, $how === 'setSize' ? [null, 0] : $pool[$src])); } $m = max($m, $n, $how === 'setSize' ? $to : 0); break;
            case 'cut': if ($n < $before && in_array($how, SHRINKS[$cls], true)) { $m = $n; } break;
            case 'clear': $m = 0; $width = 0; $vals = []; $factor = 0; break;
            case 'churn': $width = max($width, $before ? widthIn($cls, $vals, $pool['a']) : 0); $m = in_array($churnDel, SHRINKS[$cls], true) && $before ? $n + 1 : max($m, $before); break;
            case 'shrinkToFit': $m = $n; $factor = 1.0; break;
            case 'reserve': $m = max($m, $to); break;
            case 'copy': if ($how === 'serialize') { $m = $n; $factor = FRESH * (str_contains($cls, 'Hash') ? 2 : 1); } break;
        }
        $unit = $cls === 'BitVector' ? 0.125 : (UNIT[$cls] ?? max(1, $width));
        $slack = $op === 'clear' || $op === 'shrinkToFit' ? 0 : 16 * $unit;
        $bound = (int)(BASE + $slack + $factor * $unit * $m);
        $desc = "$op $how" . ($op === 'grow' ? " ($src)" : '') . " to $to: $n elements, $got bytes, bound $bound" . ($caps[$p] >= 0 ? ", capacity $caps[$p]" : '');
        Rec::op("$cls $op $how", $desc);
        check($got - ($left > 0 ? $left : 0) <= $bound, "$cls:bytes after $op", fn() => "$cls: $desc (unit $unit, counted size $m)");
        check($got >= 0, "$cls:bytes", fn() => "$cls: $desc");
        if ($hasCap) {
            check($caps[$p] >= $n, "$cls:capacity below count", fn() => "$cls: $desc");
            check($caps[$p] * $unit <= $bound, "$cls:capacity beyond bound", fn() => "$cls: $desc");
        }
        Rec::max("largest use of the bound in percent, $cls", (int)(100 * $got / $bound));
        Rec::max('largest collection measured in bytes', $got);
        Rec::state("$cls $unit $n $m $op $how");
        $line .= "$op ";
    }
    check(abs($held - $bytes[$N - 1]) <= 0 || $left !== 0, "$cls:released", fn() => "$cls: held $bytes[$N] released $held");
    check($left === 0, "$cls:left after release", fn() => "$cls: $left bytes stay after the collection is gone (program: $line)");
    Rec::count('collections measured');
}
/** width needed once these values are in as well; $seen remembers what came before */
function widthIn(string $cls, array &$seen, array $new): int {
    if (!in_array($cls, COMPACT, true)) { return 0; }
    foreach ($new as $v) { $seen[] = $v; }
    $ints = array_filter($seen, 'is_int'); $others = array_filter($seen, fn($v) => !is_int($v));
    if (!$others) { $seen = [min($ints), max($ints)]; return intWidth(min($ints), max($ints)); }
    $w = widthOf($cls, $seen);
    $seen = array_values(array_unique($seen, SORT_REGULAR)); if (count($seen) > 4) { $seen = array_slice($seen, 0, 4); }
    return $w;
}
function held(\Closure $make): array { $o = $make(); $n = count($o); $b = vmon_bytes(); $o = null; return [$b - vmon_bytes(), $n]; }
/** Collections just built, of every class and from every kind of source. */
function freshCase(Rng $r): void {
    $cls = $r->pick([...array_keys(UNIT), 'BitVector', 'LowMemoryVector', 'IntVector', 'SortedIntVectorSet', 'ImmutableSortedIntSet', 'LowMemoryVector', 'ImmutableSortedStringSet']);
    $n = $r->pick([$r->int(0, 20), $r->int(20, 300), (1 << $r->int(3, 10)) + $r->int(-1, 1), $r->int(300, 3000)]);
    $kind = match (true) { $cls === 'BitVector' => 'bool', $cls === 'ImmutableSortedStringSet' => 'string', str_contains($cls, 'Int') => $r->pick(['i8', 'i16', 'i32', 'i64']), default => $r->pick(['bool', 'null', 'i8', 'i16', 'i32', 'i64', 'float', 'boolnull', 'mixed']) };
    $keyed = in_array($cls, [...Beast::MAPS, ...Beast::SETS], true); $heap = in_array($cls, Beast::HEAPS, true);
    if (in_array($cls, ['StrictSortedVectorMap', 'StrictSortedVectorSet', 'SortedIntVectorSet'], true)) { $n = min($n, 800); }
    if ($keyed && $kind !== 'string') { if (!str_contains($cls, 'Int')) { $kind = $r->pick(['i32', 'float']); } if ($kind === 'i8') { $n = min($n, 250); } if ($kind === 'i16') { $n = min($n, 3000); } }
    $len = $r->int(1, 30); $vals = [];
    for ($i = 0; $i < $n; $i++) {
        $vals[] = match ($kind) { 'bool' => ($i & 3) === 1, 'null' => null, 'boolnull' => [null, true, false][$i % 3], 'i8' => $i % 250 - 125, 'i16' => $i - 1500, 'i32' => $i * 300000 - 900000000, 'i64' => ($i << 33) - (1 << 40), 'float' => $i + 0.5, 'string' => str_pad((string)$i, $len, '-'), default => $i % 2 ? $i : (float)$i };
    }
    $unit = match (true) {
        $cls === 'BitVector' => 0.125, isset(UNIT[$cls]) => UNIT[$cls], $cls === 'ImmutableSortedStringSet' => $n ? array_sum(array_map('strlen', $vals)) / $n + 4 : 0,
        default => match ($kind) { 'bool', 'null', 'boolnull' => 1, 'i8' => 1, 'i16' => $n ? intWidth(min($vals), max($vals)) : 1, 'i32' => $n ? intWidth(min($vals), max($vals)) : 1, 'i64' => 8, 'float' => 8, 'mixed' => $n > 1 ? 16 : 8 } };
    if ($cls === 'ImmutableSortedStringSet') { $unit += 4; }
    $fq = "Teds\\$cls"; $pairs = Beast::family($cls) === 'map' || in_array($cls, Beast::PAIRS, true);
    $ps = $pairs ? array_map(fn($v) => [$v, 1], $vals) : [];
    $route = $r->pick(['array', 'generator', 'clone', 'unserialize', 'set_state', 'collection']);
    if ($cls === 'CachedIterable' && $route === 'clone') { $route = 'unserialize'; }
    $src = $route === 'collection' ? ($pairs ? \Teds\ImmutableIterable::fromPairs($ps) : new \Teds\ImmutableSequence($vals)) : null;
    $arr = function () use ($fq, $pairs, $ps, $vals) { return $pairs ? $fq::fromPairs($ps) : new $fq($vals); };
    $finish = fn($o) => $o instanceof \Teds\CachedIterable ? [count($o), $o][1] : $o;
    $make = match ($route) {
        'array' => fn() => $finish($arr()), 'generator' => fn() => $finish(new $fq($pairs ? Beast::gen($ps) : (function () use ($vals) { yield from $vals; })())),
        'clone' => fn() => clone $arr(), 'unserialize' => fn() => unserialize(serialize($arr())), 'set_state' => fn() => $fq::__set_state($pairs ? $ps : $vals), 'collection' => fn() => $finish(new $fq($src)) };
    $probe = held($make); [$got, $count] = held($make);
    $base = BASE + ($cls === 'CachedIterable' ? 1000 : 0);
    $bound = (int)($base + FRESH * (str_contains($cls, 'Hash') ? 2 : 1) * $unit * $n);
    $desc = "$cls of $n ($kind) by $route: $got bytes, bound $bound";
    Rec::op("$cls fresh $route", $desc);
    check($got <= $bound, "$cls:bytes of a fresh one", fn() => $desc . " (unit $unit)");
    // packed: what is known in advance is allocated exactly, apart from a rounding
    Rec::max("largest use of the fresh bound in percent, $cls", (int)(100 * $got / $bound));
    Rec::state("$cls $kind $n $route");
    Rec::count('fresh collections measured');
}
