<?php
/* Iterators stay correct while the collection is modified: the visits of every live iterator are checked against the log of modifications. */
final class Track {
    /** @var array<int,bool> tokens visited, tokens it has to visit before it may end */
    public array $visited = []; public array $must = [];
    public bool $started = false; public bool $ended = false; public ?int $at = null;
    public int $sinceFeed = 0;
    public function __construct(public string $name, public object $it, public bool $manual) {}
}
final class IterWorld {
    public object $o; public string $fam; public string $cls; public Rng $r;
    /** @var list<int> tokens held, in iteration order */
    public array $m = [];
    /** @var list<Track> */
    public array $tracks = [];
    private int $next = 1;
    private array $used = [];
    private bool $strings; private bool $sorted;
    public int $spread;
    const CLS = ['Vector', 'Deque', 'LowMemoryVector', 'IntVector', 'MutableIterable', 'StrictHashMap', 'StrictHashSet', 'StrictTreeMap', 'StrictTreeSet', 'StrictSortedVectorMap', 'StrictSortedVectorSet', 'SortedIntVectorSet'];
    public function __construct(string $cls, Rng $r) {
        $this->cls = $cls; $this->r = $r; $this->fam = Beast::family($cls);
        $this->sorted = in_array($this->fam, ['map', 'set'], true) && !str_contains($cls, 'Hash');
        $this->strings = !in_array($cls, ['IntVector', 'SortedIntVectorSet'], true) && $r->chance(1, 3);
        $this->spread = $r->pick([20, 60, 200, 100000]);
        $fq = "Teds\\$cls";
        $this->o = $this->fam === 'pairs' ? new $fq([]) : new $fq();
        for ($n = $r->pick([0, 1, 2, 3, 5, 8, 9, 16, 17, 32, 40, 63, 64, 64, 65]); $n > 0; $n--) { $this->add(); }
        if ($r->chance(1, 3)) { for ($n = $r->pick([1, 1, 2, $r->int(1, 9)]); $n > 0 && $this->m; $n--) { $this->remove(); } }
    }
    /** the value stored for a token */
    public function v(int $t): mixed { return $this->strings ? sprintf('t%07d', $t) : $t; }
    public function token(mixed $v): int { return $this->strings ? (int)substr($v, 1) : $v; }
    private function fresh(): int {
        if (!$this->sorted) { return $this->next++; }
        for ($i = 0; $i < 20; $i++) { $t = $this->r->int(1, $this->spread); if (!isset($this->used[$t])) { $this->used[$t] = true; return $t; } }
        $this->spread *= 2;
        return $this->fresh();
    }
    private function log(string $op, string $d): void { Rec::op("{$this->cls}::$op", $d); }
    public function add(): void {
        $r = $this->r; $o = $this->o; $t = $this->fresh(); $v = $this->v($t); $n = count($this->m);
        if ($this->fam === 'seq') {
            $k = $r->int(0, 5);
            if ($k <= 2) { $this->log('push', "push(t$t)"); if ($k) { $o->push($v); } else { $o[] = $v; } array_push($this->m, $t); $this->appended($t); return; }
            if ($k === 3) { $this->log('pushFront', "pushFront(t$t)"); $o->pushFront($v); array_unshift($this->m, $t); $this->fed(); return; }
            $i = $r->int(0, $n); $cnt = $r->int(1, 3); $ts = [$t];
            while (count($ts) < $cnt) { $ts[] = $this->fresh(); }
            $this->log('insert', "insert($i, t" . implode(', t', $ts) . ')');
            $o->insert($i, ...array_map($this->v(...), $ts));
            array_splice($this->m, $i, 0, $ts);
            if ($i === $n) { foreach ($ts as $x) { $this->appended($x); } } else { $this->fed(); }
            return;
        }
        if ($this->fam === 'pairs') { $this->log('push', "push(t$t)"); $o->push("k$t", $v); $this->m[] = $t; $this->appended($t); return; }
        $this->log('add', "add(t$t)");
        if ($this->fam === 'map') { $o[$v] = "val$t"; } else { $o->add($v); }
        if (!$this->sorted) { $this->m[] = $t; $this->appended($t); return; }
        $i = 0;
        while ($i < $n && $this->m[$i] < $t) { $i++; }
        array_splice($this->m, $i, 0, [$t]);
        if ($i === $n) { $this->appended($t); } else { $this->fed(); }
    }
    private function appended(int $t): void { foreach ($this->tracks as $x) { if ($x->started && !$x->ended) { $x->must[$t] = true; } $x->sinceFeed = 0; } }
    private function fed(): void { foreach ($this->tracks as $x) { $x->sinceFeed = 0; } }
    private function gone(int $t): void { foreach ($this->tracks as $x) { unset($x->must[$t]); } }
    public function remove(?int $i = null): void {
        $r = $this->r; $o = $this->o; $n = count($this->m);
        if (!$n) { return; }
        // prefer entries around the live iterators
        if ($i === null && $this->tracks && $r->chance(2, 3)) {
            $at = $r->pick($this->tracks)->at;
            $p = $at === null ? false : array_search($at, $this->m, true);
            if ($p !== false) { $i = max(0, min($n - 1, $p + $r->int(-2, 2))); }
        }
        $i ??= $r->int(0, $n - 1);
        $k = $r->int(0, 5);
        $ends = method_exists($o, 'popFront');
        if ($this->fam === 'pairs' || $k === 0 && method_exists($o, 'pop')) { $i = $n - 1; $this->log('pop', 'pop() of t' . $this->m[$i]); $o->pop(); }
        elseif ($k === 1 && $ends) { $i = 0; $this->log('popFront', 'popFront() of t' . $this->m[$i]); $o->popFront(); }
        elseif ($this->fam === 'seq') { $this->log('offsetUnset', "unset($i) t" . $this->m[$i]); unset($o[$i]); }
        elseif ($this->fam === 'map') { $this->log('offsetUnset', 'unset(t' . $this->m[$i] . ')'); unset($o[$this->v($this->m[$i])]); }
        else { $this->log('remove', 'remove(t' . $this->m[$i] . ')'); $o->remove($this->v($this->m[$i])); }
        $t = $this->m[$i];
        array_splice($this->m, $i, 1);
        $this->gone($t);
    }
    public function replace(): void {
        $n = count($this->m);
        if (!$n) { return; }
        $i = $this->r->int(0, $n - 1);
        if ($this->fam === 'map') { $v = $this->v($this->m[$i]); $this->log('offsetSet', '[t' . $this->m[$i] . '] = again'); $this->o[$v] = 'val' . $this->m[$i]; return; }
        if ($this->fam !== 'seq') { return; }
        $t = $this->fresh();
        $this->log('set', "[$i] = t$t for t" . $this->m[$i]);
        $this->o[$i] = $this->v($t);
        $this->gone($this->m[$i]);
        $this->m[$i] = $t;
    }
    /** things that must not disturb any iterator */
    public function other(): void {
        $o = $this->o;
        switch ($this->r->int(0, 4)) {
            case 0: $this->log('clone', 'clone is changed'); $c = clone $o; if (method_exists($c, 'clear')) { $c->clear(); } break;
            case 1: $this->log('values', 'values()'); $o->values(); count($o); break;
            case 2: if (method_exists($o, 'shrinkToFit')) { $this->log('shrinkToFit', 'shrinkToFit()'); $o->shrinkToFit(); } break;
            case 3: if (method_exists($o, 'reserve')) { $k = $this->r->int(0, 150); $this->log('reserve', "reserve($k)"); $o->reserve($k); } break;
            default: if ($this->m) { $this->log('contains', 'contains()'); $o->contains($this->v($this->m[0])); }
        }
    }
    public function newTrack(): void {
        $manual = $this->r->bool(); $o = $this->o;
        $n = 'it' . count($this->tracks) . ($manual ? '' : '(foreach)');
        $it = $manual ? $o->getIterator() : (static function () use ($o) { foreach ($o as $k => $v) { yield [$k, $v]; } })();
        $this->log('getIterator', "$n starts");
        $this->tracks[] = new Track($n, $it, $manual);
    }
    private function bad(Track $x, string $what, string $msg): never { fail("{$this->cls}:iterator-$what", "{$x->name}: $msg; held: t" . implode(' t', $this->m) . '; visited: t' . implode(' t', array_keys($x->visited))); }
    public function step(Track $x): void {
        $it = $x->it;
        if (!$x->started) { $x->started = true; $x->must = array_fill_keys($this->m, true); if ($x->manual) { $it->rewind(); } $ok = $it->valid(); }
        else { $it->next(); $ok = $it->valid(); }
        Rec::$checks++;
        $x->sinceFeed++;
        if (!$ok) {
            Rec::op("{$this->cls}::end", "{$x->name} ends");
            $x->ended = true; $x->at = null;
            $miss = array_diff_key($x->must, $x->visited);
            if ($miss) { $this->bad($x, 'skipped', 'ended without visiting t' . implode(' t', array_keys($miss))); }
            Rec::count('iterations followed to their end');
            return;
        }
        if ($x->sinceFeed > count($this->m) + 200) { $this->bad($x, 'endless', 'does not end'); }
        [$k, $v] = $x->manual ? [$it->key(), $it->current()] : $it->current();
        $t = $this->entry($x, $k, $v);
        Rec::op("{$this->cls}::visit", "{$x->name} visits t$t");
        if (isset($x->visited[$t])) { $this->bad($x, 'repeated', "visited t$t again"); }
        $x->visited[$t] = true; $x->at = $t;
    }
    /** the token of what an iterator shows; checks that the collection holds it right now and that key and value belong together */
    private function entry(Track $x, mixed $k, mixed $v): int {
        $t = match ($this->fam) { 'map' => $this->tokenOr($k), default => $this->tokenOr($v) };
        $p = $t === null ? false : array_search($t, $this->m, true);
        Rec::$checks++;
        if ($p === false) { $this->bad($x, 'stale', 'shows ' . Rep::show($k) . ' => ' . Rep::show($v) . ', which the collection does not hold'); }
        $want = match (true) { $this->fam === 'seq' || $this->cls === 'SortedIntVectorSet' => [$p, $this->v($t)], $this->fam === 'map' => [$this->v($t), "val$t"], $this->fam === 'pairs' => ["k$t", $this->v($t)], default => [$this->v($t), $this->v($t)] };
        if (!Rep::same([$k, $v], $want)) { $this->bad($x, 'wrong-entry', 'shows ' . Rep::show([$k, $v]) . ' instead of ' . Rep::show($want)); }
        return $t;
    }
    private function tokenOr(mixed $v): ?int { return $this->strings ? (is_string($v) && ($v[0] ?? '') === 't' ? $this->token($v) : null) : (is_int($v) ? $v : null); }
    /** look at a manual iterator without moving it */
    public function peek(Track $x): void {
        if (!$x->manual || !$x->started || $x->ended || !$x->it->valid()) { return; }
        $this->entry($x, $x->it->key(), $x->it->current());
        Rec::count('looks at an iterator between modifications');
    }
}
function run_case(int $case, Rng $r, string $tier): void {
    if ($case % 4 === 3) { // the sequences and dictionaries beside their models, with iterators doing most of the work (also BitVector, whose entries cannot be told apart)
        $g = new Gen($r);
        $c = $r->pick(['BitVector', 'BitVector', 'Vector', 'Deque', 'LowMemoryVector', 'IntVector', ...Beast::MAPS, 'StrictHashSet', 'StrictTreeSet', 'StrictSortedVectorSet', 'SortedIntVectorSet']);
        $s = Beast::family($c) === 'seq' ? new SeqSubject($c, $g) : new DictSubject($c, $g);
        for ($i = $r->int(5, 40); $i > 0; $i--) { $s->op_iter(); if ($r->bool()) { $s->step(); } }
        Rec::$soft = []; // findings listed under C07 and C12
        return;
    }
    $w = new IterWorld($r->pick(IterWorld::CLS), $r);
    $feed = $r->int(0, 40); $cut = $r->int(0, 40);
    for ($i = $r->int(10, 120); $i > 0; $i--) {
        if (count($w->tracks) < 4 && $r->chance(1, 6)) { $w->newTrack(); }
        $live = array_values(array_filter($w->tracks, fn($x) => !$x->ended));
        $k = $r->int(0, 99);
        if ($live && $k < 45) { $w->step($r->pick($live)); }
        elseif ($k < 45 + intdiv($feed, 2) && count($w->m) < 90) { $w->add(); }
        elseif ($k < 45 + intdiv($feed, 2) + intdiv($cut, 2)) { $w->remove(); }
        elseif ($k < 92) { $w->replace(); }
        else { $w->other(); }
        foreach ($w->tracks as $x) { $w->peek($x); }
        Rec::state($w->cls . '|' . count($w->m) . '|' . implode(',', array_map(fn($x) => $x->ended ? 'e' : ($x->at === null ? '-' : (string)array_search($x->at, $w->m, true)), $w->tracks)));
    }
    foreach ($w->tracks as $x) { for ($n = 0; !$x->ended; $n++) { if ($n > count($w->m) + 300) { fail("{$w->cls}:iterator-endless", 'does not end without being fed'); } $w->step($x); } }
    // one pass over the final content, undisturbed
    $seen = [];
    foreach ($w->o as $k => $v) { $seen[] = $w->token($w->fam === 'map' ? $k : $v); }
    check($seen === $w->m, "{$w->cls}:content", fn() => 'final content t' . implode(' t', $seen) . ' instead of t' . implode(' t', $w->m));
}
