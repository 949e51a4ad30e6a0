<?php
/* Copies and originals are independent; outside references never alias in. */
final class Relative {
    public ?string $was = null;
    public array $iters = [];
    public function __construct(public string $name, public ?Beast $b, public ?array $a = null) {}
    public function see(): string {
        if ($this->b) {
            $s = Beast::snap($this->b->o);
            foreach ($this->iters as $it) { $s .= ' it:' . ($it->valid() ? Rep::of($it->key()) . '=>' . Rep::of($it->current()) : 'end'); }
            return $s;
        }
        return Rep::of($this->a);
    }
}
function run_case(int $case, Rng $r, string $tier): void {
    $g = new Gen($r);
    $cls = Beast::REAL[$case % count(Beast::REAL)];
    $fq = "Teds\\$cls";
    $b = new Beast($cls, $g);
    $b->odd = 1;
    $vars = []; $keys = [];
    $refgroup = [];
    // content that outside variables refer to
    if ($r->chance(2, 3) && $b->fam !== 'heap') {
        $n = $r->size(20);
        for ($i = 0; $i < $n; $i++) { $vars[$i] = $b->value(); $keys[$i] = $b->key(); }
        $src = [];
        $pairs = $b->fam === 'map' || $b->fam === 'pairs';
        $how = $r->int(0, 4);
        if ($pairs && $how <= 1) { foreach ($vars as $i => $_) { $src[] = [&$keys[$i], &$vars[$i]]; } }
        else { foreach ($vars as $i => $_) { $src[$i] = &$vars[$i]; } }
        Rec::op("$cls::build", "built from references, route $how, $n");
        $b->o = match (true) {
            $pairs && $how === 0 => $fq::fromPairs($src),
            $pairs && $how === 1 => $fq::__set_state($src),
            !$pairs && $how === 0 => $fq::__set_state($src),
            $how === 2 => new $fq((function &() use (&$vars, &$keys, $pairs) { foreach ($vars as $i => &$v) { if ($pairs) { $k = &$keys[$i]; yield $k => $v; } else { yield $v; } } })()),
            $how === 3 => new $fq(new \ArrayIterator($src)),
            default => new $fq($src),
        };
        $refgroup[] = new Relative('source array', null, $src);
    } elseif ($r->chance(1, 3) && in_array($cls, ['Vector', 'Deque', 'LowMemoryVector'], true)) {
        foreach ($b->g->vals($b->kind, 5) as $i => $v) { $vars[$i] = $v; $q = &$vars[$i]; $b->o->push($q); unset($q); }
    }
    if ($b->fam === 'map') { $x = [1, 2]; $y = &$x; outcome(fn() => $b->o['ref'] = $y); $b->o['ref2'] = $x; $vars[] = &$x; }
    $b->grow($r->int(0, 12));
    $rels = [new Relative('original', $b)];
    $iter = fn(Relative $x) => $x->b && $x->b->o instanceof \IteratorAggregate;
    for ($step = $r->int(8, 30); $step > 0; $step--) {
        foreach ($rels as $x) { $x->was = $x->see(); }
        $k = $r->int(0, 9);
        $who = $rels[$r->int(0, count($rels) - 1)];
        $free = [$who];
        if ($k <= 2 && count($rels) < 7 && $who->b) {
            $o = $who->b->o;
            switch ($r->int(0, 4)) {
                case 4:
                    if (!method_exists($o, 'map') || !count($o) || $cls === 'IntVector' || $cls === 'BitVector') { break; }
                    Rec::op("$cls::map", "map of {$who->name} with a callback that returns by reference");
                    $mine = [];
                    $new = $o->map(function &($v) use (&$mine) { $mine[] = $v; return $mine[count($mine) - 1]; });
                    $as = Beast::snap($new);
                    foreach ($mine as $i => $_) { $mine[$i] = 'changed'; }
                    check(Beast::snap($new) === $as, "$cls::map:aliased", fn() => "the result of map() changed with the variables its callback returned: from $as to " . Beast::snap($new));
                    if (get_class($new) === $fq) { $rel = new Relative("map of {$who->name}", new Beast($cls, $g, null, null, $new)); $rel->b->kind = $b->kind; $rel->b->vkind = $b->vkind; $rel->b->odd = 1; $rels[] = $rel; }
                    break;
                case 0: case 1:
                    if ($cls === 'CachedIterable') { break; }
                    Rec::op("$cls::@clone", "{$who->name} cloned");
                    $c = clone $o;
                    $new = new Relative('clone of ' . substr($who->name, 0, 30), new Beast($cls, $g, null, null, $c));
                    $new->b->kind = $b->kind; $new->b->vkind = $b->vkind; $new->b->odd = 1;
                    check(Beast::snap($c) === Beast::snap($o), "$cls::clone:differs", fn() => 'clone shows ' . Beast::snap($c) . ' instead of ' . Beast::snap($o));
                    $rels[] = $new; break;
                case 2:
                    $m = $r->pick(['values', 'cast', 'toArray', 'json', 'pairs', '__serialize']);
                    $t = outcome(fn() => match ($m) { 'values' => $o->values(), 'cast' => (array)$o, 'toArray' => $o->toArray(), 'json' => $o instanceof \JsonSerializable ? $o->jsonSerialize() : [], 'pairs' => method_exists($o, 'toPairs') ? $o->toPairs() : $o->values(), '__serialize' => $o->__serialize() });
                    Rec::op("$cls::$m", "$m of {$who->name}");
                    if ($t[0] === 'ret') { $rels[] = new Relative("$m of {$who->name}", null, $t[1]); }
                    break;
                case 3: if ($iter($who) && count($who->iters) < 3) { Rec::op("$cls::getIterator", "iterator of {$who->name}"); $it = $o->getIterator(); $it->rewind(); for ($j = $r->int(0, 3); $j > 0; $j--) { if ($it->valid()) { $it->next(); } } $who->iters[] = $it; } break;
            }
        } elseif ($k === 3 && $vars) {
            Rec::op("$cls::@vars", 'outside variables are changed');
            foreach ($vars as $i => $_) { if ($r->bool()) { if (is_array($vars[$i])) { $vars[$i][] = 'changed'; } else { $vars[$i] = $r->pick(['changed', 7, null]); } } if (isset($keys[$i]) && $r->bool()) { $keys[$i] = 'changed key'; } }
            $free = [];
        } elseif ($who->b === null) {
            Rec::op('array write', "{$who->name} is written to");
            $a = &$who->a;
            $k2 = $a ? $r->pick(array_keys($a)) : 0;
            $d = $a[$k2] ?? null;
            if (is_array($d)) { $a[$k2][] = 'changed'; if (isset($a[$k2][1]) && $r->bool()) { $a[$k2][1] = 'changed'; $q = &$a[$k2][0]; $q = 'changed'; unset($q); } }
            elseif ($r->bool()) { $q = &$a[$k2]; $q = 'changed'; unset($q); } else { $a[$k2] = 'changed'; }
            if ($r->bool()) { try { $a[] = 'more'; } catch (\Error $e) { } }
            unset($a);
        } elseif ($k === 4 && $who->b->o instanceof \ArrayAccess) {
            $o = $who->b->o; $key = $who->b->anyKey(); $free = [];
            $n = $r->int(0, 5);
            Rec::op("$cls::@nested", "nested write $n at " . Rep::show($key) . " of {$who->name}");
            outcome(function () use ($o, $key, $n) {
                switch ($n) {
                    case 0: $o[$key][] = 'changed'; break;
                    case 1: $o[$key]['x'] = 'changed'; break;
                    case 2: $q = &$o[$key]; $q = 'changed'; break;
                    case 3: $q = &$o[$key][0]; $q = 'changed'; break;
                    case 4: unset($o[$key][0]); break;
                    case 5: $f = function (&$p) { $p = 'changed'; }; $f($o[$key]); break;
                }
            });
        } elseif ($k === 5) {
            $o = $who->b->o; $free = [];
            Rec::op("$cls::@taken", "values taken from {$who->name} are changed");
            if ($b->fam !== 'heap') { foreach ($o as $kk => $v) { if (is_array($v)) { $v[] = 'changed'; } $q = &$v; $q = 'changed'; unset($q); $kk = 'x'; } }
            foreach ($o->values() as $i => $v) { if (is_array($v)) { $v[] = 'changed'; } $v = 'changed'; }
            $it = $iter($who) ? $o->getIterator() : null;
            if ($it) { $it->rewind(); if ($it->valid()) { $v = $it->current(); if (is_array($v)) { $v[] = 'changed'; } $it->next(); } }
        } elseif ($k === 6 && $iter($who) && $who->iters) {
            Rec::op("$cls::iterator", "iterator of {$who->name} advances");
            $it = $r->pick($who->iters); if ($it->valid()) { $it->next(); } else { $it->rewind(); }
        } else {
            $ms = array_values(array_filter([...Beast::MUTATORS, 'clear'], fn($m) => $m[0] === '@' ? $who->b->o instanceof \ArrayAccess : method_exists($who->b->o, $m)));
            $m = $ms ? $r->pick($ms) : $r->pick($who->b->ops());
            Rec::note("on {$who->name}:");
            $who->b->call($m);
        }
        foreach ($rels as $x) {
            if ($x->was === null || in_array($x, $free, true)) { continue; }
            $now = $x->see();
            check($now === $x->was, "$cls:aliased", fn() => "{$x->name} changed while {$who->name} was worked on: from {$x->was} to $now");
        }
        Rec::state("$cls {$who->name} $k " . min(12, count($b->o)));
    }
    foreach ($rels as $x) { if ($x->b) { Beast::consistent($x->b->o, 'changes to relatives'); } }
}
