<?php
/* The iterable functions against their documented definitions written in PHP, including the exact sequence of callback calls. */
class CallLog {
    public array $seen = []; public int $throwAt = -1; public array $answers; public int $i = 0;
    public function __construct(array $answers) { $this->answers = $answers; }
    public function hit(mixed ...$args): mixed {
        $this->seen[] = $args;
        $k = $this->i++;
        if ($k === $this->throwAt) { throw new \DomainException('stop'); }
        return $this->answers[$k % count($this->answers)];
    }
    public function __call(string $name, array $args): mixed { return $this->hit(...$args); }
    public function &byRef(mixed ...$args): mixed { $x = $this->hit(...$args); return $x; }
}
final class UserIter implements \Iterator {
    private int $i = 0; public array $log = [];
    public function __construct(private array $v, private int $throwAt = -1, private string $where = '') {}
    private function at(string $w): void { $this->log[] = $w; if ($this->where === $w && $this->i === $this->throwAt) { throw new \LogicException($w); } }
    public function rewind(): void { $this->i = 0; $this->at('rewind'); }
    public function valid(): bool { $this->at('valid'); return $this->i < count($this->v); }
    public function current(): mixed { $this->at('current'); return $this->v[$this->i]; }
    public function key(): mixed { $this->at('key'); return $this->i; }
    public function next(): void { $this->i++; $this->at('next'); }
}
/** the same values as an iterable; second: the exception its iteration ends with, after how many values */
function source(Gen $g, array $vals): array {
    $r = $g->r;
    switch ($r->int(0, 11)) {
        case 0: $at = $r->int(0, count($vals)); $w = $r->pick(['current', 'valid', 'next', 'rewind']);
            $n = match ($w) { 'current', 'valid' => min($at, count($vals)), 'next' => $at, 'rewind' => 0 };
            if ($w === 'current' && $at >= count($vals)) { return [new UserIter($vals), null]; }
            if ($w === 'next' && $at === 0) { return [new UserIter($vals), null]; }
            if ($w === 'rewind') { $at = 0; }
            return [new UserIter($vals, $at, $w), $n];
        case 1: $at = $r->int(0, count($vals));
            return [(function () use ($vals, $at) { foreach ($vals as $i => $v) { if ($i === $at) { throw new \LogicException('gen'); } yield $v; } if ($at === count($vals)) { throw new \LogicException('gen'); } })(), $at];
        case 2: return [new \Teds\Deque($vals), null];
        case 3: return [new \Teds\ImmutableSequence($vals), null];
        case 4: return [(function () use ($vals) { $x = null; foreach ($vals as $v) { $x = $v; yield $x; $x = null; } })(), null]; // yields the same variable
        case 5: return [(function &() use (&$vals) { foreach ($vals as &$v) { yield $v; } })(), null]; // by reference
        case 6: return [new UserIter($vals), null];
        case 7: return [\Teds\MutableIterable::fromPairs(array_map(fn($v) => [[1], $v], $vals)), null];
        default: return [$g->iterable($vals), null];
    }
}
/** outcome of a definition that consumes values; $end = number of values after which iteration throws */
function defined_result(string $f, array $vals, ?int $end, ?CallLog $log, mixed $extra): array {
    $acc = $extra;
    try {
        $seen = [];
        foreach ($vals as $i => $v) {
            if ($i === $end) { throw new \LogicException('iter'); }
            $t = null;
            if (in_array($f, ['any', 'all', 'none', 'find'], true)) { $t = $log ? (bool)$log->hit($v) : (bool)$v; }
            switch ($f) {
                case 'any': if ($t) { return ['ret', true]; } break;
                case 'all': if (!$t) { return ['ret', false]; } break;
                case 'none': if ($t) { return ['ret', false]; } break;
                case 'find': if ($t) { return ['ret', $v]; } break;
                case 'fold': $acc = $log->hit($acc, $v); break;
                case 'includes_value': if ($v === $extra) { return ['ret', true]; } break;
                case 'unique_values': $seen[Model::norm($v)] ??= [$v]; break;
            }
        }
        if ($end !== null && $end >= count($vals)) { throw new \LogicException('iter'); }
        return ['ret', match ($f) { 'any' => false, 'all' => true, 'none' => true, 'find' => $extra, 'fold' => $acc, 'includes_value' => false, 'unique_values' => array_values(array_column($seen, 0)) }];
    } catch (\Throwable $e) { return ['throw', $e::class]; }
}
/** arrays whose elements are references that somebody else holds, and changes during the call or afterwards */
function referenced(Gen $g): void {
    $r = $g->r;
    $vals = $g->vals($r->pick(['mixed', 'tiny', 'scalar', 'obj', 'string']), $r->chance(1, 3) ? 1 : max(1, $r->size(12)));
    $n = count($vals); $slots = $vals; $it = []; $refs = [];
    foreach ($vals as $i => $v) {
        $k = $r->chance(1, 6) ? "k$i" : $i;
        if ($r->chance(1, $n === 1 ? 1 : 2)) { $it[$k] = &$slots[$i]; $refs[] = $i; } else { $it[$k] = $v; }
    }
    $f = $r->pick(['any', 'all', 'none', 'find', 'fold', 'includes_value', 'unique_values', 'array_value_first', 'array_value_last']);
    $cb = in_array($f, ['any', 'all', 'none', 'find', 'fold'], true);
    $change = []; for ($i = 0; $i < $n; $i++) { $change[$i] = $refs && $r->chance(1, 3) ? [$r->pick($refs), $g->val('scalar')] : null; }
    $last = $r->int(0, $n + 1);
    $run = function (\Closure $go) use (&$slots, $vals, $refs, $change, $last, $f) {
        foreach ($refs as $i) { $slots[$i] = $vals[$i]; }
        $seen = [];
        $call = function (mixed ...$a) use (&$slots, &$seen, $change, $last, $f) {
            $k = count($seen); $seen[] = Rep::list($a);
            if (isset($change[$k])) { $slots[$change[$k][0]] = $change[$k][1]; }
            return $f === 'fold' ? $a[1] : ($f === 'all') !== ($k === $last);
        };
        return [outcome(fn() => $go($call)), $seen];
    };
    $extra = $vals && $r->bool() ? $r->pick($vals) : $g->val('mixed');
    Rec::op("$f(array of references)", "$f(" . Rep::show($vals) . ', references at ' . json_encode($refs) . ($cb ? ', changed by the callback: ' . Rep::show($change) : '') . ')');
    [$got, $s1] = $run(fn($call) => match ($f) {
        'any', 'all', 'none' => ("Teds\\$f")($it, $call), 'find' => Teds\find($it, $call, $extra), 'fold' => Teds\fold($it, $call, $extra),
        'includes_value' => Teds\includes_value($it, $extra), 'unique_values', 'array_value_first', 'array_value_last' => ("Teds\\$f")($it) });
    $shown = Rep::of($got); $held = $got[1];
    [$want, $s2] = $run(function ($call) use ($it, $f, $extra) {
        $acc = $extra; $seen = []; $first = $last = null; $k = 0;
        foreach ($it as $v) {
            if ($k++ === 0) { $first = $v; } $last = $v;
            switch ($f) {
                case 'any': if ($call($v)) { return true; } break;
                case 'all': if (!$call($v)) { return false; } break;
                case 'none': if ($call($v)) { return false; } break;
                case 'find': if ($call($v)) { return $v; } break;
                case 'fold': $acc = $call($acc, $v); break;
                case 'includes_value': if ($v === $extra) { return true; } break;
                case 'unique_values': $seen[Model::norm($v)] ??= [$v]; break;
            }
        }
        return match ($f) { 'any', 'includes_value' => false, 'all', 'none' => true, 'find' => $extra, 'fold' => $acc, 'unique_values' => array_values(array_column($seen, 0)), 'array_value_first' => $first, 'array_value_last' => $last };
    });
    check($shown === Rep::of($want), "$f:references", fn() => "$f gave " . $shown . ' instead of ' . Rep::show($want));
    check($s1 === $s2, "$f:references-calls", fn() => 'callback was called with ' . json_encode($s1, JSON_PARTIAL_OUTPUT_ON_ERROR) . ' instead of ' . json_encode($s2, JSON_PARTIAL_OUTPUT_ON_ERROR));
    foreach ($refs as $i) { $slots[$i] = 'written later'; }
    check(Rep::of([$got[0], $held]) === $shown, "$f:alias", fn() => "what $f returned changes with a reference held elsewhere: $shown became " . Rep::of([$got[0], $held]));
    if (is_array($held)) { foreach ($held as &$x) { $x = 'written too'; } unset($x); }
    foreach ($refs as $i) { check($slots[$i] === 'written later', "$f:alias", "writing to what $f returned changes a variable elsewhere"); }
    Rec::state("references $f $shown");
}
function run_case(int $case, Rng $r, string $tier): void {
    $g = new Gen($r);
    referenced($g);
    for ($round = $r->int(1, 6); $round > 0; $round--) {
        $vals = $g->vals($r->pick(['mixed', 'tiny', 'scalar', 'boolnull', 'obj', 'numeric', 'string']), $r->size(40));
        [$it, $end] = source($g, $vals);
        $f = $r->pick(['any', 'all', 'none', 'find', 'fold', 'includes_value', 'unique_values']);
        $cb = in_array($f, ['find', 'fold'], true) || (in_array($f, ['any', 'all', 'none'], true) && $r->chance(2, 3));
        // the callback answers some truth values, or echoes mixed values
        $answers = $r->chance(1, 3) ? $g->vals('mixed', $r->int(1, 9)) : array_map(fn() => $r->chance(1, $f === 'all' ? 9 : 6) === ($f !== 'all') ? 1 : 0, range(0, 30));
        $l1 = new CallLog($answers); $l2 = new CallLog($answers);
        if ($cb && $r->chance(1, 5)) { $l1->throwAt = $l2->throwAt = $r->int(0, max(0, count($vals) - 1)); }
        $how = $r->int(0, 4);
        $call = match ($how) { 0, 1 => $l1->hit(...), 2 => [$l1, 'hit'], 3 => [$l1, 'viaMagicCall'], 4 => [$l1, 'byRef'] };
        $extra = $f === 'includes_value' ? ($vals && $r->bool() ? $r->pick($vals) : $g->val('mixed')) : ($f === 'find' || $f === 'fold' ? $g->val('mixed') : null);
        $src = is_array($it) ? 'array' : $it::class;
        Rec::op("$f(" . ($src) . ($cb ? ', callback' : '') . ')', "$f($src " . Rep::show($vals) . ($cb ? ", callback$how answering " . Rep::show($answers) . " throwing at {$l1->throwAt}" : '') . ($extra !== null ? ', ' . Rep::show($extra) : '') . ($end !== null ? ", iteration throws after $end" : '') . ')');
        $before = Rep::list($vals);
        $got = outcome(fn() => match ($f) {
            'any', 'all', 'none' => $cb ? ("Teds\\$f")($it, $call) : ($r->bool() ? ("Teds\\$f")($it) : ("Teds\\$f")($it, null)),
            'find' => Teds\find($it, $call, $extra),
            'fold' => Teds\fold($it, $call, $extra),
            'includes_value' => Teds\includes_value($it, $extra),
            'unique_values' => Teds\unique_values($it),
        });
        $want = defined_result($f, $vals, $end, $cb ? $l2 : null, $extra);
        check($got[0] === $want[0], "$f:outcome", fn() => "$f gave " . Rep::show($got) . ' instead of ' . Rep::show($want));
        checkSame($got[1], $want[1], "$f:result", "$f result");
        if ($f === 'unique_values' && $got[0] === 'ret') { check(array_is_list($got[1]), "$f:list", 'result is not a list'); $got[1][] = 'x'; }
        check(Rep::list($l1->seen) === Rep::list($l2->seen), "$f:calls", fn() => 'callback was called with ' . Rep::show($l1->seen) . ' instead of ' . Rep::show($l2->seen));
        check(Rep::list($vals) === $before, "$f:input", 'the input changed');
        if (is_array($it)) { check(Rep::list(array_values($it)) === $before, "$f:input", 'the input array changed'); }
        Rec::count('callback calls compared', count($l1->seen));
        Rec::state("$f|" . Rep::list($vals) . '|' . Rep::of($got));
        // array_value_first / array_value_last
        $a = $g->iterable($vals);
        if (is_array($a)) {
            $r->bool() ? next($a) : null;
            $p = key($a);
            Rec::op('array_value_first/last');
            checkSame(Teds\array_value_first($a), $vals[0] ?? null, 'array_value_first:result', 'array_value_first of ' . Rep::show($a));
            checkSame(Teds\array_value_last($a), $vals ? $vals[count($vals) - 1] : null, 'array_value_last:result', 'array_value_last of ' . Rep::show($a));
            checkSame(key($a), $p, 'array_value_first:pointer', 'internal array pointer');
        }
    }
}
