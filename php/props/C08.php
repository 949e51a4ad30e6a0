<?php
/* Immutable and empty collections never change, and refuse every modification. */
const FROZEN = ['ImmutableSequence', 'ImmutableIterable', 'ImmutableSortedIntSet', 'ImmutableSortedStringSet', 'EmptySequence', 'EmptySet', 'EmptyMap'];
const WOULD_MODIFY = ['push', 'pop', 'pushfront', 'popfront', 'shift', 'unshift', 'insert', 'set', 'offsetset', 'offsetunset', 'add', 'remove', 'clear', '@append', '@set', '@unset', '@prop', '@foreachref', '__construct', '__unserialize',
    'setsize', 'reserve', 'setkeyat', 'setvalueat', 'extract', 'pushints'];
function run_case(int $case, Rng $r, string $tier): void {
    $g = new Gen($r);
    $cls = FROZEN[$case % count(FROZEN)];
    $fq = "Teds\\$cls";
    $b = new Beast($cls, $g);
    $vars = []; $src = [];
    $later = [];
    if (!str_starts_with($cls, 'Empty') && $r->chance(2, 3)) {
        // built from material that stays reachable from outside: arrays of references, iterators, mutable collections
        $n = $r->size(30);
        for ($i = 0; $i < $n; $i++) { $vars[$i] = $b->value(); }
        $how = $r->int(0, 6);
        if ($b->fam === 'pairs') { $keys = array_map(fn() => $b->key(), $vars); }
        $inner = $b->fam === 'pairs' ? [] : null;
        switch (true) {
            case $b->fam === 'pairs' && $how <= 2:
                foreach ($vars as $i => $_) { $src[$i] = [&$keys[$i], &$vars[$i]]; }
                Rec::op("$cls::fromPairs", "fromPairs(pairs of references) $n");
                $b->o = $how === 0 ? $fq::fromPairs($src) : ($how === 1 ? $fq::__set_state($src) : $fq::fromPairs(new \ArrayIterator($src)));
                $later[] = function () use (&$keys, $r) { if ($keys) { $keys[$r->int(0, count($keys) - 1)] = 'changed key'; } };
                break;
            case $how <= 1:
                foreach ($vars as $i => $_) { $src[$i] = &$vars[$i]; }
                Rec::op("$cls::__construct", "new $cls(array of references) $n");
                $b->o = new $fq($src);
                break;
            case $how === 2 && $b->fam !== 'pairs':
                foreach ($vars as $i => $_) { $src[$i] = &$vars[$i]; }
                Rec::op("$cls::__set_state", "__set_state(array of references) $n");
                $b->o = $fq::__set_state($src);
                break;
            case $how === 3:
                Rec::op("$cls::__construct", "new $cls(reference generator) $n");
                $b->o = new $fq((function &() use (&$vars) { foreach ($vars as $i => &$v) { yield $i => $v; } })());
                break;
            case $how === 4:
                $it = new \ArrayObject($vars);
                Rec::op("$cls::__construct", "new $cls(ArrayObject) $n");
                $b->o = new $fq($it);
                $later[] = function () use ($it) { foreach (array_keys($it->getArrayCopy()) as $k) { $it[$k] = 'changed'; } $it[] = 'more'; };
                break;
            default:
                $m = new \Teds\Vector($vars);
                Rec::op("$cls::__construct", "new $cls(Vector) $n");
                $b->o = new $fq($m);
                $later[] = function () use ($m) { for ($i = 0; $i < count($m); $i++) { $m[$i] = 'changed'; } $m->push('more'); $m->popFront(); $m->clear(); };
        }
    }
    $b->odd = $r->int(0, 6);
    $o = $b->o;
    $before = Beast::snap($o);
    Rec::state($before);
    Beast::consistent($o, 'construction');
    $b->hook = function (string $w) use ($o, $before, $cls, $r) {
        if ($r->chance(1, 4)) { check(Beast::snap($o) === $before, "$cls:changed", "changed during a $w"); }
    };
    $iters = [];
    $kept = [];
    $refs = [];
    foreach ($vars as $i => $_) { $refs[] = &$vars[$i]; }
    $ops = array_merge($b->ops(), ['@prop', '@vars', '@later', '@returned', '@iterate', 'push', 'set', 'clear', 'add', 'remove', '@append', '@unset', '@set', '__construct', '__unserialize']);
    $ops = array_values(array_filter($ops, fn($m) => $m[0] === '@' || method_exists($o, $m)));
    if (!$o instanceof \ArrayAccess) { $ops = array_values(array_diff($ops, ['@append', '@unset', '@set', '@get'])); }
    for ($i = $r->int(10, 40); $i > 0; $i--) {
        $m = $r->pick($ops);
        $got = null; $n = count($o);
        switch ($m) {
            case '@prop': Rec::op("$cls::@prop", '->x = 1'); $got = outcome(function () use ($o) { $o->x = 1; }); break;
            case '@foreachref': Rec::op("$cls::@foreachref", 'foreach by reference'); $got = outcome(function () use ($o) { foreach ($o as &$v) { $v = 'changed'; } }); break;
            case '@vars':
                Rec::op("$cls::@vars", 'the referenced variables are changed');
                foreach ($refs as $k => $_) { if ($r->bool()) { $refs[$k] = $r->pick([1, 'changed', null, [1]]); } }
                if ($src) { $src[0] = 'changed'; unset($src[1]); }
                break;
            case '@later': foreach ($later as $f) { Rec::op("$cls::@later", 'the source is changed'); $f(); } break;
            case '@returned':
                Rec::op("$cls::@returned", 'returned arrays are changed');
                foreach ([(array)$o, $o->toArray(...), $o->values(...), $o instanceof \JsonSerializable ? $o->jsonSerialize() : []] as $a) {
                    if ($a instanceof \Closure) { $t = outcome($a); if ($t[0] === 'throw') { continue; } $a = $t[1]; }
                    foreach ($a as $k => &$v) { if (is_array($v)) { $v[] = 'changed'; } else { $v = 'changed'; } } unset($v);
                    try { $a[] = 'more'; } catch (\Error $e) { }
                    $kept[] = $a;
                }
                break;
            case '@iterate':
                Rec::op("$cls::@iterate", 'iterators advance');
                if (count($iters) < 4) { $it = $o instanceof \IteratorAggregate ? $o->getIterator() : $o; $it->rewind(); $iters[] = $it; }
                foreach ($iters as $it) { if ($it->valid()) { $x = $it->current(); if (is_array($x)) { $x[] = 'changed'; } $x = null; $it->next(); } }
                break;
            default:
                [$desc, $f] = $b->prepare($m);
                $present = null;
                if ($m === 'add' || $m === 'remove') { $x = $r->bool() ? $b->member() : $b->value(); $desc = "$m(" . Rep::show($x) . ')'; $present = in_array(Model::norm($x), array_map([Model::class, 'norm'], $o->values()), true); $f = fn() => $o->$m($x); }
                Rec::op("$cls::$m", $desc);
                $got = outcome($f);
                // operations that would change the content must be refused
                $noop = ($m === 'clear' && $n === 0) || ($m === 'add' && $present) || ($m === 'remove' && !$present) || ($cls === 'EmptyMap' && in_array(strtolower($m), ['offsetunset', '@unset'], true))
                    || (in_array(strtolower($m), ['push', 'pushfront', 'unshift', 'insert'], true) && str_ends_with($desc, '()'));
                if (in_array(strtolower($m), WOULD_MODIFY, true) && !$noop) { check($got[0] === 'throw', "$cls::$m:not-refused", fn() => "$desc was not refused on " . Rep::show($o->values())); Rec::count('modifications refused'); }
        }
        if ($m === '@prop' || $m === '@foreachref') { check($got[0] === 'throw' || count($o) === 0 && $m === '@foreachref', "$cls::$m:not-refused", "$m was not refused"); }
        check(Beast::snap($o) === $before, "$cls:changed", fn() => "$m changed it from $before to " . Beast::snap($o));
        Rec::state("$cls $m " . ($got[0] ?? '') . ' ' . min(9, $n));
    }
    Beast::consistent($o, 'all attempts');
}
