<?php
/* Nothing leaks; every value is released exactly once and in time. */
final class ImpGen extends Gen {
    /** what this generator handed out */
    public array $born = [];
    private function imp(): Imp { $i = new Imp(); $this->born[] = \WeakReference::create($i); return $i; }
    public function val(string $kind): mixed {
        if (!in_array($kind, ['mixed', 'obj', 'array'], true)) { return parent::val($kind); }
        return match ($this->r->int(0, 5)) { 0, 1, 2 => $this->imp(), 3 => [$this->imp(), 1], 4 => $this->fresh('scalar'), default => ['k' => [$this->imp()]] };
    }
    public function fresh(string $kind, int $depth = 0): mixed {
        return match ($kind) { 'mixed', 'obj' => $this->r->bool() ? $this->imp() : parent::fresh('scalar'), 'array' => [$this->imp()], default => parent::fresh($kind) };
    }
}
function imps(mixed $v, array &$seen): void {
    if ($v instanceof Imp) { $seen[spl_object_id($v)] = true; }
    elseif (is_array($v)) { foreach ($v as $x) { imps($x, $seen); } }
}
/** one program of the world; returns what is left behind: [blocks, objects] */
function program(string $seed, ?string $only, int $steps, bool $noisy): array {
    $blocks = vmon_blocks(); $objects = Imp::$made - Imp::$dead + Obj::$made - Obj::$dead;
    $w = new World($seed, $only);
    $w->engineIterators = false;
    $w->run($steps);
    $w->end($noisy);
    $w = null;
    for ($i = 0; $i < 20 && gc_collect_cycles() > 0; $i++) { }
    return [vmon_blocks() - $blocks, Imp::$made - Imp::$dead + Obj::$made - Obj::$dead - $objects];
}
/** the only holder of these objects is the collection: what is not in it any more is gone */
function timely(int $case, Rng $r): void {
    $cls = Beast::REAL[$case % count(Beast::REAL)];
    $g = new ImpGen($r);
    $live0 = Imp::$made - Imp::$dead;
    $b = new Beast($cls, $g, in_array($cls, ['IntVector', 'BitVector', 'SortedIntVectorSet', 'ImmutableSortedIntSet', 'ImmutableSortedStringSet'], true) ? null : $r->pick(['mixed', 'obj', 'array']), 0);
    $b->odd = 2;
    $b->o = $b->build($r->size(40));
    count($b->o);
    $o = $b->o;
    $ops = array_values(array_diff($b->ops(), ['__serialize', '@serialize'])); $ms = array_values(array_intersect([...Beast::MUTATORS, 'clear'], $b->ops()));
    $look = function (string $after) use ($b, $cls, $live0) {
        $seen = [];
        imps($b->o->values(), $seen);
        if ($b->fam === 'map' || $b->fam === 'pairs') { imps($b->o->keys(), $seen); }
        $live = Imp::$made - Imp::$dead - $live0;
        if ($live !== count($seen)) { gc_collect_cycles(); $live = Imp::$made - Imp::$dead - $live0; }
        check($live === count($seen), "$cls:held-too-long", fn() => "after $after $live objects are alive, but the collection only shows " . count($seen));
    };
    $look('construction');
    $iter = null;
    for ($n = $r->int(5, 40); $n > 0; $n--) {
        $m = $ms && $r->chance(2, 3) ? $r->pick($ms) : $r->pick($ops);
        $out = $b->call($m);
        if ($r->chance(1, 8) && $b->fam !== 'heap') { $iter = $o->getIterator(); $iter->rewind(); for ($i = $r->int(0, 3); $i > 0; $i--) { $iter->next(); } }
        Rec::state("timely $cls $m " . $out[0] . ($iter ? ' it' : ''));
        $out = null;
        if ($r->chance(1, 4)) { $iter = null; }
        if ($iter === null || !str_contains($cls, 'Tree') && !str_contains($cls, 'Hash')) { $look($m); } // a live iterator may hold on to the entry it stands on
    }
    $iter = null; $b->o = new \stdClass(); $o = null;
    check(Imp::$made - Imp::$dead === $live0 || gc_collect_cycles() >= 0 && Imp::$made - Imp::$dead === $live0, "$cls:held-too-long", fn() => 'the collection is gone, but ' . (Imp::$made - Imp::$dead - $live0) . ' objects are still alive');
}
/** a cycle through any one place of the collection, with nothing outside that refers to it, is found by the cycle collector */
function cycle(int $case, Rng $r): void {
    $classes = array_values(array_diff(Beast::REAL, ['IntVector', 'BitVector', 'SortedIntVectorSet', 'ImmutableSortedIntSet', 'ImmutableSortedStringSet', 'CachedIterable']));
    for ($i = 0; $i < 4; $i++) { $classes[] = 'CachedIterable'; }
    $cls = $classes[$case % count($classes)];
    $live0 = Imp::$made - Imp::$dead;
    $g = new ImpGen($r);
    $b = new Beast($cls, $g, $r->pick(['mixed', 'obj', 'array']), 0);
    $b->odd = 2;
    $b->o = $b->build($r->size(20));
    $ops = array_values(array_diff($b->ops(), ['__serialize', '@serialize'])); $ms = array_values(array_intersect([...Beast::MUTATORS], $b->ops()));
    for ($n = $r->int(0, 20); $n > 0; $n--) {
        if ($cls === 'CachedIterable') { // fetch some, rarely all
            $k = $r->int(0, 6); foreach ($b->o as $x) { if (--$k < 0) { break; } } $x = null;
            if ($r->bool()) { break; }
            continue;
        }
        $m = $ms && $r->chance(4, 5) ? $r->pick($ms) : $r->pick($ops);
        try { $b->call($m); } catch (\Throwable) { }
    }
    if ($r->chance(1, 4)) { try { $b->o = clone $b->o; } catch (\Error) { } }
    $alive = array_values(array_filter(array_map(fn($w) => $w->get(), $g->born)));
    $g->born = [];
    if (!$alive) { Rec::count('cycles without an object'); }
    else {
        $i = $r->pick($alive);
        $i->link = $r->bool() ? $b->o : [1, [$b->o]];
        $i = null;
    }
    $n = count($alive); $alive = null;
    gc_collect_cycles();
    if ($r->bool()) { $seen = []; try { $cls === 'CachedIterable' ? 0 : imps($b->o->values(), $seen); } catch (\Throwable) { } foreach ($seen as $_) { break; } $seen = null; }
    $b = $g = null;
    for ($k = 0; $k < 5 && gc_collect_cycles() > 0; $k++) { }
    Rec::state("cycle $cls $n");
    Rec::count('cycles');
    check(Imp::$made - Imp::$dead === $live0, "$cls:cycle-not-collected", fn() => "a $cls and an object it holds refer to each other, nothing else refers to them, and " . (Imp::$made - Imp::$dead - $live0) . " of $n objects are still alive after a collection");
}
function run_case(int $case, Rng $r, string $tier): void {
    static $installed = false;
    if (!$installed) {
        $installed = true;
        $prev = set_error_handler(null);
        set_error_handler(function (...$a) use ($prev) { $prev(...$a); World::poke('error handler'); return true; });
    }
    if ($case % 3 === 2) { timely(intdiv($case, 3), $r); return; }
    if ($case % 9 === 1) { for ($i = 0; $i < 20; $i++) { cycle(intdiv($case, 9) * 20 + $i, $r); } return; }
    $k = intdiv($case, 3);
    $only = $case % 3 === 0 ? null : Beast::REAL[$k % count(Beast::REAL)];
    $seed = (string)$r->int(0, PHP_INT_MAX); $steps = $r->int(3, 40); $noisy = $r->bool();
    [$b0, $o0] = program($seed, $only, $steps, $noisy);
    Rec::$mute = true;
    $left = [];
    try {
        $pb = $po = 0;
        for ($i = 0; $i < 4; $i++) {
            $l = program($seed, $only, $steps, $noisy);
            $left[] = $l;
            if ($l[0] <= 0 && $l[1] === 0) { break; }
        }
        if (count($left) === 4 && (getenv('VERBOSE'))) { $s = vmon_seq(); vmon_trace(true); program($seed, $only, $steps, $noisy); vmon_print_live_since($s); }
    } finally { Rec::$mute = false; }
    $last = end($left);
    Rec::count('programs measured', count($left));
    check($last[1] === 0, 'leak:objects', fn() => "every run of the program leaves objects alive (or destroys too many): " . json_encode(array_column($left, 1)));
    check($last[0] <= 0, 'leak:blocks', fn() => "every run of the program leaves heap blocks behind: " . json_encode(array_column($left, 0)));
    check(Imp::$twice === 0, 'destroyed-twice', 'a destructor ran twice');
}
