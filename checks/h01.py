import math
from fractions import Fraction

import numpy as np
import sympy

from discretehelpers.a import (binom, decimal_length, evil_to_index, exposet_to_int, index_to_evil, index_to_odious, int_to_exposet, int_to_factoradic,
                               int_to_weight, integer_determinant, is_natural, is_power_of_two, log_ceil, log_floor, log_int, multi_lcm, multigrade_bitwise, odious_to_index, prime_factors,
                               type_like_int, vector_to_int)
from discretehelpers.binv.a import binary_length
from discretehelpers.boolf.a import intval_to_arity, intval_to_tt_length

from lib.core import scenario

PROPERTY = 'H01'
RULE = ('Every integer below 300 and all neighbours of powers of 2 and 10 up to 2**2000 (striped over the cases), random integers of random bit length, lists of them, and non-integers to be refused. '
        'The oracle is exact integer arithmetic by comparison with powers, counting of digits and multiplication back. A state is the helper family with the bit length of the argument; trivial for 0.')
REQUIRED = ['lengths', 'logs', 'power-of-two', 'binary', 'evil-odious', 'arity', 'factoradic', 'factors', 'lcm', 'binom', 'bitwise', 'natural', 'refused', 'determinant']


def boundary():
    out = set(range(300))
    for k in range(2001):
        out.update((2 ** k + d) for d in (-2, -1, 0, 1, 2))
    for k in range(600):
        out.update((10 ** k + d) for d in (-1, 0, 1))
    return sorted(n for n in out if n >= 0)


BOUNDARY = boundary()
STEP = 250          # cases needed for one sweep over the boundary values


def numbers(c):
    rng = c.rng
    out = BOUNDARY[c.index % STEP::STEP]
    for _ in range(10):
        out.append(rng.getrandbits(rng.choice([8, 30, 53, 54, 63, 64, 65, 100, 500, 2000])))
    return out


@scenario(quick=500, thorough=5000)
def magnitudes(c):
    for n in numbers(c):
        c.note(n.bit_length())
        c.state('int', n.bit_length(), n & (n - 1) == 0, trivial=n == 0)
        digits = bin(n)[2:] if n else ''
        dec = str(n) if n else ''
        c.eq('lengths', int(binary_length(n)), len(digits), n)
        c.eq('lengths', int(decimal_length(n)), len(dec), n)
        if n:
            fl = len(digits) - 1
            c.true('logs', int(log_floor(n)) == fl and 2 ** fl <= n < 2 ** (fl + 1), n)
            ce = int(log_ceil(n))
            c.true('logs', 2 ** ce >= n and (ce == 0 or 2 ** (ce - 1) < n), n, ce)
            if digits.count('1') == 1:
                c.eq('logs', int(log_int(n)), fl, n)
            else:
                c.raises('refused', lambda: log_int(n), ValueError, n)
        else:
            for fn in (log_floor, log_ceil, log_int):
                c.raises('refused', lambda: fn(0), ValueError, fn.__name__)
        c.eq('power-of-two', bool(is_power_of_two(n)), digits.count('1') == 1, n)
        expo = [i for i, d in enumerate(digits[::-1]) if d == '1']
        c.eq('binary', int(int_to_weight(n)), len(expo), n)
        c.eq('binary', list(int_to_exposet(n)), expo, n)
        shuffled = c.rng.sample(expo, len(expo))
        c.eq('binary', exposet_to_int(c.rng.choice([list, set, tuple])(shuffled)), n, n)
        c.eq('binary', vector_to_int([c.rng.choice([int, bool])(d == '1') for d in digits[::-1]] + [0] * c.rng.randrange(3)), n, n)
        ev, od = index_to_evil(n), index_to_odious(n)
        c.eq('evil-odious', {ev, od}, {2 * n, 2 * n + 1}, n)
        c.true('evil-odious', bin(ev).count('1') % 2 == 0 and bin(od).count('1') % 2 == 1, n, ev, od)
        c.eq('evil-odious', evil_to_index(ev), n, n)
        c.eq('evil-odious', odious_to_index(od), n, n)
        c.raises('refused', lambda: evil_to_index(od), ValueError, od)
        c.raises('refused', lambda: odious_to_index(ev), ValueError, ev)
        a = int(intval_to_arity(n))
        c.true('arity', n < 2 ** 2 ** a and (a == 0 or n >= 2 ** 2 ** (a - 1)), n, a)
        c.eq('arity', int(intval_to_tt_length(n)), 2 ** a, n)
        c.true('natural', is_natural(n) and type_like_int(n), n)
        c.true('natural', not is_natural(-n - 1) and type_like_int(-n - 1), n)
        fac = int_to_factoradic(n)
        c.true('factoradic', all(0 <= d <= i for i, d in enumerate(fac)) and (not fac or fac[-1] > 0), n, fac)
        c.eq('factoradic', sum(d * math.factorial(i) for i, d in enumerate(fac)), n, n)


@scenario(quick=1500, thorough=15000)
def arithmetic(c):
    rng = c.rng
    big = rng.choice([10, 100, 10 ** 6])
    ns = [rng.randint(1, big) for _ in range(rng.randint(1, 6))]
    if rng.random() < .3:
        ns = [n * 2 ** rng.choice([60, 70]) * 3 ** 30 for n in ns]
    c.state('lists', len(ns), max(ns).bit_length())
    c.note(ns)
    m = multi_lcm(rng.choice([list, tuple])(ns))
    want = 1
    for n in ns:
        want = want // math.gcd(want, n) * n
    c.eq('lcm', m, want, ns)
    n = rng.choice([rng.randint(0, 12), rng.randint(0, 300)])
    k = rng.randint(0, n)
    c.eq('binom', binom(n, k), math.comb(n, k), n, k)
    # factors: built from known primes, and small integers by trial
    exps = {p: rng.randint(1, 4) for p in rng.sample([2, 3, 5, 7, 11, 13, 97, 101, 9973], rng.randint(0, 4))}
    n = math.prod(p ** e for p, e in exps.items())
    c.eq('factors', prime_factors(n), exps, n)
    exp = rng.sample(sorted({*exps, 2, 3, 17}), len({*exps, 2, 3, 17}))
    c.eq('factors', list(prime_factors(n, expected_factors=rng.choice([list, set, tuple])(exp))), [exps.get(p, 0) for p in sorted(exp)], n, exp)
    if exps:
        gone = max(exps)
        c.raises('refused', lambda: prime_factors(n, expected_factors=[p for p in exp if p != gone]), Exception, n, exp, gone)
    n = rng.randint(1, 10 ** 5)
    got = prime_factors(n)
    c.true('factors', math.prod(p ** e for p, e in got.items()) == n and all(sympy.isprime(p) for p in got) and list(got) == sorted(got), n, got)
    vs = [rng.getrandbits(rng.choice([4, 64, 200])) for _ in range(rng.randint(2, 7))]
    for op, fn in (('and', lambda b: all(b)), ('or', lambda b: any(b)), ('xor', lambda b: sum(b) % 2)):
        bits = [fn([v >> i & 1 for v in vs]) for i in range(max(vs).bit_length())]
        c.eq('bitwise', multigrade_bitwise(rng.choice([list, tuple])(vs), op), sum(int(b) << i for i, b in enumerate(bits)), vs, op)
    c.raises('refused', lambda: multigrade_bitwise(vs, 'nand'), ValueError)


@scenario(quick=600, thorough=6000)
def determinants(c):
    rng = c.rng
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 12])
    lo, hi = rng.choice([(0, 1), (0, 1), (-1, 1), (-9, 9), (-1000, 1000), (-10 ** 12, 10 ** 12)])
    m = [[rng.randint(lo, hi) for _ in range(n)] for _ in range(n)]
    if n > 1 and rng.random() < .3:
        m[rng.randrange(n)] = list(m[rng.randrange(n)])
    if n > 1 and rng.random() < .3:
        for i in range(rng.randint(1, n)):
            m[i][i] = 0
    before = [list(r) for r in m]
    c.state('det', n, lo, hi, trivial=n == 0)
    c.note(m)
    want = det(m)
    c.eq('determinant', int(integer_determinant(m)), want, m)
    c.eq('determinant', m, before, 'input changed')
    form = rng.choice([lambda x: np.array(x, dtype=int), lambda x: tuple(map(tuple, x))])      # entries of 64 bits, results beyond
    c.eq('determinant', int(integer_determinant(form(m))), want, m, 'as array or tuples')
    if (lo, hi) == (0, 1):
        c.eq('determinant', int(integer_determinant([[bool(v) for v in row] for row in m])), want, m, 'as Boolean values')


def det(m):
    """exact elimination with fractions"""
    m = [[Fraction(v) for v in row] for row in m]
    out = Fraction(1)
    for i in range(len(m)):
        p = next((j for j in range(i, len(m)) if m[j][i]), None)
        if p is None:
            return 0
        if p != i:
            m[i], m[p] = m[p], m[i]
            out = -out
        out *= m[i][i]
        for j in range(i + 1, len(m)):
            q = m[j][i] / m[i][i]
            m[j] = [a - q * b for a, b in zip(m[j], m[i])]
    return int(out)


NOT_NATURAL = [-1, -5, 0.5, -1.1, 1e-9, '1', '01', None, [1], (2,), float('nan'), float('inf'), Fraction(1, 2), -2 ** 70]


@scenario(quick=60, thorough=200)
def refusals(c):
    for v in NOT_NATURAL:
        c.true('natural', not is_natural(v), repr(v))
        c.true('power-of-two', not is_power_of_two(v), repr(v))
        for fn in (binary_length, decimal_length):
            c.raises('refused', lambda: fn(v), ValueError, fn.__name__, repr(v))
        if isinstance(v, (int, float)):
            for fn in (log_floor, log_ceil, log_int, intval_to_arity, intval_to_tt_length):
                c.raises('refused', lambda: fn(v), ValueError, fn.__name__, repr(v))
    for v in (0.0, 1.0, 8.0, Fraction(6, 2), True, False, 2.0 ** 80):
        c.true('natural', is_natural(v) and type_like_int(v), repr(v))
    for k in range(0, 200):
        c.eq('logs', [int(fn(2.0 ** k)) for fn in (log_floor, log_ceil, log_int)], [k] * 3, k)
        c.eq('lengths', int(binary_length(2.0 ** k)), k + 1, k)
    for n in (0, -1, -3):
        for fn in (index_to_evil, index_to_odious, evil_to_index, odious_to_index):
            if n:
                c.raises('refused', lambda: fn(n), ValueError, fn.__name__, n)
