<?php
declare(strict_types=1);
/* Value generators. Values come from small per-case pools so that equal, identical and near-equal values collide. */

class Gen {
    public Rng $r;
    /** @var array<string,list<mixed>> */
    private array $pools = [];
    public function __construct(Rng $r) { $this->r = $r; }

    const INT_EDGES = [0, 1, -1, 2, 63, 64, 127, 128, 129, -127, -128, -129, 255, 256, 257, 32766, 32767, 32768, -32767, -32768, -32769, 65535, 65536,
        2147483646, 2147483647, 2147483648, -2147483647, -2147483648, -2147483649, 4294967295, 4294967296, PHP_INT_MAX, PHP_INT_MAX - 1, PHP_INT_MIN, PHP_INT_MIN + 1];
    /** lengths around which size prefixes change their form */
    const LENGTHS = [1, 65536, 252, 253, 254, 255, 65534, 256, 257, 300, 65535, 65537, 70000, 127, 128];
    public function int(string $range = 'any'): int {
        $r = $this->r;
        switch ($range) {
            case 'tiny': return $r->int(0, 9);
            case 'i8': return $r->chance(1, 4) ? $r->pick([-128, 127, 0, -1]) : $r->int(-128, 127);
            case 'i16': return $r->chance(1, 4) ? $r->pick([-32768, 32767, 128, -129, 255]) : $r->int(-32768, 32767);
            case 'i32': return $r->chance(1, 4) ? $r->pick([-2147483648, 2147483647, 32768, -32769]) : $r->int(-2147483648, 2147483647);
            case 'edge': return $r->pick(self::INT_EDGES);
        }
        $k = $r->int(0, 5);
        if ($k <= 1) { return $r->int(-5, 12); }
        if ($k <= 3) { return $r->pick(self::INT_EDGES); }
        if ($k == 4) { return $r->int(-(1 << 20), 1 << 20); }
        return $r->int(PHP_INT_MIN, PHP_INT_MAX);
    }
    public function float(): float {
        return $this->r->pick([0.0, -0.0, 1.0, -1.0, 1.5, 2.0, NAN, INF, -INF, 1e100, -1e100, 9007199254740992.0, 9007199254740993.0,
            9.2233720368547758e18, -9.2233720368547758e18, 9.3e18, 0.1, 5e-324, 127.0, 128.0, 3.0000000000000004, (float)$this->r->int(-5, 12), (float)PHP_INT_MAX]);
    }
    public function string(): string {
        $r = $this->r;
        $k = $r->int(0, 9);
        if ($k <= 3) { return $r->pick(['', '0', '1', '01', '1.0', ' 1', '-1', '1e0', 'a', 'b', 'A', 'ab', "\0", "a\0", "\xff", "\xff\xfe", '9', '10', 'NaN', 'true', "é"]); }
        if ($k <= 6) { return implode('', array_map(fn() => chr($r->int(97, 99)), range(0, $r->int(0, 4)))); } // non-interned
        if ($k == 7) { return str_repeat($r->pick(['x', 'ab', "\0"]), $r->int(1, 300)); }
        if ($k == 8) { return $this->numstr(); }
        return $r->bytes($r->int(0, 12));
    }
    /** strings that are numbers, or nearly: as strings they sort and compare otherwise than as numbers */
    public function numstr(): string {
        $r = $this->r; $k = $r->int(0, 7);
        if ($k <= 4) { return (string)$r->int(-12, $r->pick([12, 120, 1200])); }
        if ($k == 5) { return $r->pick(['1e1', '10.0', '010', '+10', ' 10', '10 ', '1.50', '1.5', '-0', '0.0', '00', '0x1A', '1e1000', '-1e1000', '9223372036854775807', '9223372036854775808', '-9223372036854775808', '18446744073709551616', '0e1', '0e2', '.5', '5.']); }
        if ($k == 6) { return $r->int(0, 30) . $r->pick(['', 'a', ' ', "\0", '.0', 'e1']); }
        return (string)($r->int(-50, 50) / 4);
    }
    public function array(int $depth = 0): array {
        $r = $this->r;
        $n = $r->int(0, 4);
        $a = [];
        $list = $r->bool();
        for ($i = 0; $i < $n; $i++) {
            $v = $depth < 2 ? $this->fresh('mixed', $depth + 1) : $this->fresh('scalar');
            if ($list) { $a[] = $v; } elseif ($r->bool()) { $a[$r->int(-2, 5)] = $v; } else { $a[$r->pick(['a', 'b', 'k', '', '01', '-0'])] = $v; }
        }
        if ($n > 1 && $r->chance(1, 6)) { array_pop($a); }
        return $depth === 0 ? $this->shared($a) : $a;
    }
    /** sometimes the array as opcache hands out literals: immutable and outside the heap (when it holds plain values only) */
    public function shared(array $a): array {
        if (!$a || $this->r->int(0, 2)) { return $a; }
        Rec::count('immutable arrays handed in');
        return \vmon_immutable($a);
    }
    public function object(): object {
        $k = $this->r->int(0, 5);
        if ($k <= 2) { return new Obj(); }
        if ($k == 3) { return (object)['p' => $this->r->int(0, 3)]; }
        if ($k == 4) { return $this->r->pick(Suit::cases()); }
        return static fn() => 1;
    }
    /** a brand new value of a kind */
    public function fresh(string $kind, int $depth = 0): mixed {
        $r = $this->r;
        switch ($kind) {
            case 'tiny': case 'i8': case 'i16': case 'i32': case 'edge': return $this->int($kind);
            case 'int': return $this->int();
            case 'bool': return $r->bool();
            case 'boolnull': return $r->pick([true, false, null]);
            case 'float': return $this->float();
            case 'string': return $this->string();
            case 'numstr': return $this->numstr();
            case 'obj': return $this->object();
            case 'array': return $this->array($depth);
            case 'plain': /* survives serialize / var_export */
                return $this->fresh($r->pick(['int', 'int', 'bool', 'float', 'string', 'null']));
            case 'null': return null;
            case 'scalar': return $this->fresh($r->pick(['int', 'tiny', 'bool', 'boolnull', 'float', 'string', 'string', 'null']));
            case 'numeric': return $this->fresh($r->pick(['tiny', 'float', 'edge', 'int']));
            case 'strint': return $this->fresh($r->pick(['tiny', 'string']));
            case 'mixed': default:
                return $this->fresh($r->pick(['int', 'tiny', 'boolnull', 'float', 'string', 'string', $depth < 2 ? 'array' : 'tiny', 'obj']));
        }
    }
    /** a value of a kind: pooled values recur */
    public function val(string $kind): mixed {
        if (!isset($this->pools[$kind])) {
            $p = [];
            for ($i = 0, $n = $this->r->int(2, 14); $i < $n; $i++) { $p[] = $this->fresh($kind); }
            $this->pools[$kind] = $p;
        }
        $k = $this->r->int(0, 15);
        return $k < 12 ? $this->r->pick($this->pools[$kind]) : ($k < 14 ? $this->near($kind) : $this->fresh($kind));
    }
    /** a value that differs from $v, but only in the bits, bytes or type that a shortened comparison misses */
    public static function alias(mixed $v, Rng $r): mixed {
        if (is_int($v)) {
            if ($r->chance(1, 5)) { return $r->pick([(float)$v, (string)$v, [$v], $v !== 0]); }
            return $v ^ $r->pick([1 << 7, 1 << 8, 3 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 5 << 32, 1 << 40, 1 << 48, PHP_INT_MIN, -1 << 8, -1 << 16, -1 << 32]);
        }
        if (is_float($v)) { return abs($v) < 1e15 && $r->bool() ? (int)$v : unpack('d', pack('q', unpack('q', pack('d', $v))[1] ^ $r->pick([1, 1 << 31, 1 << 32, 1 << 40, PHP_INT_MIN])))[1]; }
        if (is_string($v)) { return $r->pick([$v . "\0", $v . ' ', substr($v, 0, -1), is_numeric($v) ? $v + 0 : 0, strtoupper($v), [$v]]); }
        if ($v === null || is_bool($v)) { return $r->pick([null, false, true, 0, 1, '', '1', 0.0, []]); }
        if (is_array($v)) { return $v ? $r->pick([array_reverse($v, true), array_slice($v, 1, null, true), (object)$v, count($v)]) : $r->pick([null, 0, '', false]); }
        return $v;
    }
    /** a value that almost equals a pooled one, which sometimes joins the pool */
    public function near(string $kind): mixed {
        $r = $this->r;
        $v = $r->pick($this->pools[$kind]);
        if (is_string($v)) {
            $v = match ($r->int(0, 9)) { 0 => $v . "\0", 1 => $v . chr($r->int(0, 255)), 2 => substr($v, 0, -1), 3 => "\0" . $v, 4 => $v . $v,
                5 => $v === '' ? '' : substr($v, 0, -1) . chr((ord($v[-1]) + $r->pick([1, 255, 128])) & 255), 6 => $v === '' ? '' : chr((ord($v[0]) + 128) & 255) . substr($v, 1),
                7 => strtoupper($v), 8 => str_pad($v, $r->pick([8, 15, 16, 17, 24, 127, 128, 255, 256]), $r->pick(['x', "\0", "\xff"])), default => strrev($v) };
        } elseif (is_int($v) && in_array($kind, ['int', 'mixed', 'scalar', 'plain', 'numeric'], true)) {
            $w = $v + $r->pick([1, -1, 2, -2, 128, -128, 256, -256, 32768, 65536, -65536, 1 << 31, -(1 << 31), 1 << 32, -(1 << 32), 1 << 53]);
            $v = is_int($w) && $r->chance(7, 8) ? $w : ($kind !== 'int' && $r->bool() ? (float)$v : ~$v);
        } elseif (is_float($v)) {
            $b = unpack('q', pack('d', $v))[1];
            $v = $r->chance(1, 4) ? -$v : unpack('d', pack('q', $b ^ $r->pick([1, 2, PHP_INT_MIN, 1 << 51, 1 << 52])))[1];
        } elseif (is_array($v) && $v) {
            switch ($r->int(0, 4)) {
                case 0: $v = array_reverse($v, true); break;
                case 1: array_pop($v); break;
                case 2: $v[] = null; break;
                case 3: $k = array_key_last($v); $v[$k] = is_int($v[$k]) ? (string)$v[$k] : (is_string($v[$k]) ? $v[$k] . "\0" : null); break;
                case 4: $v = array_combine(array_map(fn($k) => is_int($k) ? "k$k" : $k, array_keys($v)), array_values($v)); break;
            }
        } else {
            return $this->fresh($kind);
        }
        if ($r->chance(1, 3)) { $this->pools[$kind][] = $v; }
        return $v;
    }
    public function vals(string $kind, int $n): array {
        $a = [];
        for ($i = 0; $i < $n; $i++) { $a[] = $this->val($kind); }
        return $a;
    }
    /** Wrap values into some iterable whose values() are exactly $vals. */
    public function iterable(array $vals, ?array $keys = null): iterable {
        $r = $this->r;
        $vals = array_values($vals);
        $k = $r->int(0, 8);
        switch ($k) {
            case 0: case 1: return $this->shared($vals);
            case 2: // hash array with string/sparse keys, holes
                $a = [];
                foreach ($vals as $i => $v) { $a[$i % 3 == 0 ? "k$i" : $i * 7 + 3] = $v; }
                if ($r->bool()) { $a = ['hole' => 1] + $a; unset($a['hole']); }
                return $this->shared($a);
            case 3: // packed with a hole
                $a = $vals; $a[] = 'x'; array_pop($a);
                if (count($a) > 0) { array_unshift($a, 'dummy'); unset($a[0]); }
                return $a;
            case 4: // array of references
                $a = [];
                foreach ($vals as $i => $v) { $a[$i] = $v; if ($i % 2) { $x[$i] = &$a[$i]; } }
                return $a;
            case 5: return (function () use ($vals) { foreach ($vals as $v) { yield $v; } })();
            case 6: return (function () use ($vals) { foreach ($vals as $i => $v) { yield [$i] => $v; } })();
            case 7: return new \ArrayIterator($vals);
            default: return new \Teds\Vector($vals);
        }
    }
}
