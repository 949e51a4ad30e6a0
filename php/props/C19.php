<?php
/* Serialized, exported, cloned, rebuilt and JSON forms carry the whole content. */

/** Structural text of a value: collections by class and content, shared objects by order of first appearance. */
final class Deep {
    private array $seen = [];
    private array $hold = [];
    public static function of(mixed $v): string { return (new self)->t($v, 0); }
    public function t(mixed $v, int $d): string {
        if ($d > 30) { return '*deep*'; }
        if (is_array($v)) { $s = 'a' . count($v) . '['; foreach ($v as $k => $x) { $s .= (is_int($k) ? $k : "'$k'") . '=' . $this->t($x, $d + 1) . ','; } return $s . ']'; }
        if (!is_object($v)) { return Rep::of($v); }
        $id = spl_object_id($v);
        if (isset($this->seen[$id])) { return '&' . $this->seen[$id]; }
        $this->seen[$id] = count($this->seen); $this->hold[] = $v;
        if ($v instanceof \UnitEnum) { return $v::class . '::' . $v->name; }
        if ($v instanceof \Teds\Collection) {
            $s = $v::class . '(';
            $c = Beast::short($v); $f = Beast::family($c);
            if ($f === 'map' || $f === 'pairs') { foreach ($v->toPairs() as [$k, $x]) { $s .= $this->t($k, $d + 1) . '=>' . $this->t($x, $d + 1) . ','; } }
            else { foreach ($v->values() as $x) { $s .= $this->t($x, $d + 1) . ','; } }
            if ($f === 'heap') { $s .= '|'; foreach (clone $v as $x) { $s .= $this->t($x, $d + 1) . ','; } }
            return $s . ')';
        }
        return $v::class . '{' . $this->t(get_object_vars($v), $d + 1) . '}';
    }
}
/** Values that survive serialization, with nesting and sharing. Objects are not used where the class orders its members by object. */
function portable(Gen $g, int $depth, array &$pool, bool $objects): mixed {
    $r = $g->r;
    $k = $r->int(0, 9);
    if ($k <= 5 || $depth >= 3) { return $g->fresh($r->pick(['plain', 'plain', 'string', 'tiny', 'edge', 'float'])); }
    if ($k === 6) { $a = []; for ($i = $r->int(0, 3); $i > 0; $i--) { $v = portable($g, $depth + 1, $pool, $objects); if ($r->bool() && !array_key_exists(PHP_INT_MAX, $a)) { $a[] = $v; } else { $a[$g->string()] = $v; } } return $a; }
    if (!$objects) { return $g->fresh('plain'); }
    if ($k === 7 && $pool) { return $r->pick($pool); }
    if ($k === 8) { $o = (object)['p' => portable($g, $depth + 1, $pool, true)]; $pool[] = $o; return $o; }
    $o = content($g, $r->pick(Beast::ALL), $r->int(0, 4), $depth + 1, $pool);
    $pool[] = $o;
    return $o;
}
function content(Gen $g, string $cls, int $n, int $depth, array &$pool): object {
    $r = $g->r; $fq = "Teds\\$cls"; $fam = Beast::family($cls);
    if (str_starts_with($cls, 'Empty')) { return constant("$fq::INSTANCE"); }
    $ordered = $fam === 'heap' || in_array($fam, ['map', 'set'], true) && !str_contains($cls, 'Hash');
    $kind = $r->pick(Beast::kindsOf($cls, 'portable'));
    if ($cls === 'LowMemoryVector' && $r->bool()) { $kind = $r->pick(['tiny', 'i8', 'i16', 'i32', 'int', 'edge', 'bool', 'boolnull', 'null', 'float']); }
    $one = fn(bool $key) => $kind === 'portable' ? portable($g, $depth, $pool, !($key && $ordered)) : $g->val($kind);
    $a = [];
    $long = $cls === 'ImmutableSortedStringSet' && $depth === 0 && $r->chance(1, 3);
    if ($long) { for ($i = $r->int(1, 4); $i > 0; $i--) { $a[] = str_repeat($r->pick(['k', 'x', "\0"]), $r->pick(Gen::LENGTHS) + $r->int(-1, 1)); } }
    while ($n-- > 0) { $a[] = $fam === 'map' || $fam === 'pairs' ? [$one(true), $one(false)] : $one(true); }
    if ($fam === 'heap') { $o = new $fq(); foreach ($a as $v) { $o->add($v); } return $o; }
    if ($fam === 'map' || $fam === 'pairs') { return $r->bool() ? $fq::fromPairs($a) : new $fq(Beast::gen($a)); }
    return new $fq($g->iterable($a));
}
function exportable(mixed $v): bool {
    if (is_array($v)) { foreach ($v as $x) { if (!exportable($x)) { return false; } } return true; }
    if (is_object($v)) {
        if ($v instanceof \Teds\LowMemoryVector) { return false; } // prints no content, by design
        if ($v instanceof \Teds\Collection) { foreach ((array)$v as $x) { if (!exportable($x)) { return false; } } return true; }
        return $v instanceof \UnitEnum || $v instanceof \stdClass && exportable(get_object_vars($v));
    }
    return true;
}
/** object sharing is not kept by var_export: compare without identities */
function unshared(mixed $v): string { return preg_replace('/&\d+/', '&', Deep::of($v)); }
function has_shared(mixed $v): bool { return str_contains(Deep::of($v), '&'); }

function run_case(int $case, Rng $r, string $tier): void {
    if ($case % 97 === 11) { Big::routes(Beast::ALL[intdiv($case, 97) % count(Beast::ALL)], $r); return; }
    $g = new Gen($r);
    $cls = Beast::ALL[$case % count(Beast::ALL)]; $fq = "Teds\\$cls"; $fam = Beast::family($cls);
    $pool = [];
    $o = content($g, $cls, $r->chance(1, 6) ? 0 : ($r->chance(1, 12) ? $r->pick([126, 127, 128, 252, 253, 254, 255, 256, 257, 300]) : $r->size(60)), 0, $pool);
    $empty = str_starts_with($cls, 'Empty');
    // a history that leaves spare room, holes or promoted storage behind
    $b = new Beast($cls, $g, 'plain', 0, $o);
    $b->odd = 0;
    if (!$empty) { $b->grow($r->int(0, 20)); if ($r->chance(1, 6) && method_exists($o, 'clear') && !in_array($cls, Beast::IMMUTABLE, true)) { $o->clear(); $b->grow($r->int(0, 3)); } }
    if ($r->chance(1, 5) && in_array($cls, ['Vector', 'Deque', 'MutableIterable', 'StrictHashMap', 'StrictHashSet', 'LowMemoryVector'], true)) { // it holds itself
        Rec::op("$cls::self", 'holds itself');
        match ($fam) { 'seq' => $o->push($o), 'map' => $o['self'] = $o, 'set' => $o->add($o), default => $o->push('self', $o) };
    }
    $want = Deep::of($o);
    Rec::note("$cls: " . substr($want, 0, 300));
    $same = function (mixed $c, string $route) use ($o, $want, $cls): void {
        Rec::op("$cls::@$route", $route);
        check(is_object($c) && $c::class === $o::class, "$cls:$route:class", fn() => "$route gave " . get_debug_type($c));
        $got = Deep::of($c);
        check($got === $want, "$cls:$route:content", fn() => "$route gave $got instead of $want");
        Beast::consistent($c, $route);
        Rec::state("$cls $route $want");
    };
    $copies = [];
    // serialize
    $s = serialize($o);
    $c = unserialize($s);
    $same($c, 'unserialize'); $copies['unserialize'] = $c;
    check(Deep::of($o) === $want, "$cls:serialize:changed-original", 'serialize changed the original');
    if ($r->chance(1, 3)) { $c2 = unserialize(serialize([$o, $o])); check($c2[0] === $c2[1], "$cls:unserialize:sharing", 'two references to one collection became two collections'); $same($c2[0], 'unserialize-nested'); }
    if (!$empty && $r->bool()) { $same(unserialize(serialize($c)), 'unserialize-twice'); }
    // clone
    if (!$empty && $cls !== 'CachedIterable') { $c = clone $o; if (!str_contains($want, '&')) { $same($c, 'clone'); } $copies['clone'] = $c; }
    // rebuilding
    if (!$empty) {
        $list = $fam === 'map' || $fam === 'pairs' ? $o->toPairs() : $o->values();
        $shared = str_contains($want, '&');
        if (!$shared) {
            $c = $fq::__set_state((array)$o); $same($c, '__set_state'); $copies['__set_state'] = $c;
            if ($fam === 'map' || $fam === 'pairs') { $same($fq::fromPairs($list), 'fromPairs'); $same(new $fq(Beast::gen($list)), 'rebuild'); if ($fam === 'pairs') { $same(new $fq($o), 'rebuild-from-itself'); } }
            elseif ($fam !== 'heap') { $same(new $fq($list), 'rebuild'); if ($fam === 'seq') { $same(new $fq($o), 'rebuild-from-itself'); } }
        }
    }
    // own binary formats
    if (method_exists($o, 'serialize')) { $c = $fq::unserialize($o->serialize()); $same($c, 'own-serialize'); $copies['own-serialize'] = $c; }
    if (method_exists($o, 'toBinaryString') && count($o) % 8 === 0) { $same($fq::fromBinaryString($o->toBinaryString()), 'binary-string'); }
    // var_export
    if (!$empty && !str_contains($want, '&') && exportable($o)) {
        $code = var_export($o, true);
        $c = eval('return ' . $code . ';');
        if (!str_contains($want, '-NAN')) { $same($c, 'var_export'); $copies['var_export'] = $c; }
    }
    // JSON
    if ($o instanceof \JsonSerializable && !str_contains($want, '&')) {
        $list = ($fam === 'map' && !$empty) || $fam === 'pairs' ? $o->toPairs() : $o->values();
        $flags = $r->pick([0, JSON_PRETTY_PRINT, JSON_PARTIAL_OUTPUT_ON_ERROR, JSON_INVALID_UTF8_SUBSTITUTE | JSON_PARTIAL_OUTPUT_ON_ERROR]);
        $j1 = json_encode($o, $flags); $e1 = json_last_error(); $j2 = json_encode($list, $flags); $e2 = json_last_error();
        Rec::op("$cls::@json", 'json_encode');
        check($j1 === $j2 && $e1 === $e2, "$cls:json:content", fn() => 'json_encode gave ' . substr((string)$j1, 0, 200) . ' instead of ' . substr((string)$j2, 0, 200));
    }
    if ($empty) { return; }
    // the same further operations on original and copy: nothing tells them apart. Only operations whose results depend on content alone.
    $name = $r->pick(array_keys($copies)); $c = $copies[$name];
    if (str_contains($want, '&') || !$c) { return; }
    $seed = (string)$r->int(0, PHP_INT_MAX);
    $x = new Beast($cls, new Gen(new Rng($seed)), 'plain', 0, $o); $y = new Beast($cls, new Gen(new Rng($seed)), 'plain', 0, $c);
    $x->odd = $y->odd = 2; $x->oddKind = $y->oddKind = 'plain';
    $ops = array_values(array_diff($x->ops(), ['capacity', 'debugGetTreeRepresentation', 'getIterator', '@serialize', '@dump', '@clone', '__serialize', '__unserialize', 'serialize', 'unserialize', '@nested']));
    $pick = new Rng($seed . 'ops');
    for ($i = $r->int(5, 30); $i > 0; $i--) {
        $m = $pick->chance(2, 3) ? $pick->pick($ops) : $pick->pick(array_values(array_intersect(Beast::MUTATORS, $ops)) ?: $ops);
        $a = $x->call($m); $d = array_key_last(Rec::$trace) !== null ? Rec::$trace[array_key_last(Rec::$trace)] : $m; $bb = $y->call($m);
        $ta = $a[0] . Deep::of($a[1]); $tb = $bb[0] . Deep::of($bb[1]);
        check($ta === $tb, "$cls:$name:later-behaviour", fn() => "$d gives $ta on the original but $tb on the copy");
        $ta = Deep::of($o); $tb = Deep::of($c);
        check($ta === $tb, "$cls:$name:later-behaviour", fn() => "after $d the original is $ta but the copy is $tb");
    }
}
