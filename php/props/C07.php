<?php
/** more bits than 32 bits can count: every way to reach a bit beyond the 2^32nd */
function huge(Rng $r): void {
    $edge = 1 << 32; $n = $edge + $r->int(64, 500);
    $o = new \Teds\BitVector(); $set = [];
    Rec::op('huge', "setSize($n) and access beyond 2^32 bits");
    $bit = function (int $i) use (&$set): bool { return $set[$i] ?? false; };
    $at = function () use ($r, $edge, &$n): int { $i = $r->pick([$n - 1, $edge - 1, $edge, $edge + 1, $edge + 63, 0, 1, 63, 1 << 31, (1 << 31) - 1, $n - $r->int(1, 200), $edge + $r->int(0, 60), $r->int(0, 200), $r->int(0, $n - 1)]); return max(0, min($i, $n - 1)); };
    $look = function (string $after) use (&$o, &$n, &$set, $at, $bit) {
        checkSame(count($o), $n, 'huge:count', "count after $after");
        for ($i = 0; $i < 12; $i++) { $k = $at(); checkSame($o[$k], $bit($k), 'huge:bit', "bit $k of $n after $after"); checkSame($o->get($k), $bit($k), 'huge:bit', "get($k) of $n after $after"); }
        checkSame($o->first(), $bit(0), 'huge:bit', "first after $after"); checkSame($o->last(), $bit($n - 1), 'huge:bit', "last after $after");
        check(isset($o[$n - 1]) && !isset($o[$n]) && $o->containsKey($n - 1) && !$o->containsKey($n), 'huge:range', "isset/containsKey at the end after $after");
        check(outcome(fn() => $o->get($n))[1] === 'OutOfBoundsException' || outcome(fn() => $o->get($n))[0] === 'throw', 'huge:range', "get at the end after $after");
        check($o->capacity() >= $n, 'huge:capacity', 'capacity ' . $o->capacity());
    };
    $o->setSize($n, false); $look('setSize');
    for ($k = $r->int(15, 30); $k > 0; $k--) {
        $i = $at(); $v = $r->chance(2, 3);
        switch ($r->int(0, 7)) {
            case 0: case 1: $o[$i] = $v; $set[$i] = $v; $what = "[$i] ="; break;
            case 2: $r->bool() ? $o->set($i, $v) : $o->offsetSet($i, $v); $set[$i] = $v; $what = "set($i)"; break;
            case 3: $o->push($v, !$v); $set[$n] = $v; $set[$n + 1] = !$v; $n += 2; $what = 'push'; break;
            case 4: checkSame($o->pop(), $bit($n - 1), 'huge:pop', 'pop'); $n--; unset($set[$n]); $what = 'pop'; break;
            case 5: case 6:
                $w = $r->pick([8, 16, 32, 64]); $c = intdiv($n, $w) - 1; $j = min(intdiv($i, $w), $c);
                $x = $r->int(PHP_INT_MIN, PHP_INT_MAX) >> (64 - $w);
                $o->{"setInt$w"}($j, $x); checkSame($o->{"getInt$w"}($j), $x, 'huge:word', "getInt$w($j) after writing it");
                for ($b = 0; $b < $w; $b++) { $set[$j * $w + $b] = (bool)($x >> $b & 1); }
                for ($b = 0; $b < $w; $b++) { checkSame($o[$j * $w + $b], $set[$j * $w + $b], 'huge:word', "bit $b of word $j of width $w"); }
                check(outcome(fn() => $o->{"getInt$w"}(intdiv($n, $w) + 1))[0] === 'throw', 'huge:word', "getInt$w beyond the end does not throw");
                $what = "setInt$w($j)"; break;
            default: $m = $r->pick([$edge - 1, $edge, $edge + 1, $edge + $r->int(2, 300), $n - $r->int(0, 30)]); $v = $r->chance(1, 4) && $m - $n < 1000;
                $old = $n; $o->setSize($m, $v); $n = $m; foreach (array_keys($set) as $q) { if ($q >= $n) { unset($set[$q]); } } if ($v) { for ($q = $old; $q < $n; $q++) { $set[$q] = true; } }
                $what = "setSize($m)";
        }
        $look($what);
    }
    if ($n % 8) { $o->setSize($n += 8 - $n % 8, false); }
    $c = clone $o; $o[$n - 1] = true; checkSame($c[$n - 1], $bit($n - 1), 'huge:clone', 'the clone after a change to the original'); $set[$n - 1] = true; $c = null; $look('clone');
    $s = $o->serialize(); checkSame(intdiv(strlen($s), 1 << 20), intdiv($n >> 3, 1 << 20), 'huge:serialize', 'length of the serialized form');
    $o = null; $o = \Teds\BitVector::unserialize($s); $s = null; $look('unserialize');
    $it = $o->getIterator(); $it->rewind(); checkSame($it->current(), $bit(0), 'huge:iterator', 'first of the iterator'); $it = null;
    Rec::state('huge');
}
function run_case(int $case, Rng $r, string $tier): void {
    if ($case % 8000 === 5) { huge($r); return; }
    if ($case % 10 === 3) { Big::sweep(['BitVector'][intdiv($case, 10) % 1], $case % 40 === 3 ? $r->int(400, 3000) : intdiv($case, 10), $r); return; }
    if ($case % 250 === 11) { Big::seq('BitVector', $r); return; }
    $s = new SeqSubject('BitVector', new Gen($r));
    for ($i = 0, $n = $r->int(5, 60); $i < $n; $i++) { $s->step(); }
}
