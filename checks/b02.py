from discretehelpers.binv import Binv

from lib import hooks, gen
from lib.core import scenario

PROPERTY = 'B02'
RULE = ('Each case draws equally long operands (independent, nested, equal, complementary, one bit apart, empty) or a random expression '
        'tree over them and compares every operator with position-wise logic on lists of bools; order cases draw unequal lengths. '
        'A state is the tuple of operand bits; trivial when the length is below 2.')
REQUIRED = ['and', 'or', 'xor', 'not', 'concat', 'index', 'slice', 'flip', 'bitwise_smaller', 'order', 'sorted', 'tree',
            'operands-unchanged', 'binv-and', 'binv-or', 'binv-xor']


def prepare():
    hooks.install_binv()


def s(bits):
    return ''.join('01'[b] for b in bits)


def operands(rng, i):
    a = gen.bits(rng, i, 120 if rng.random() < .97 else 300)
    n = len(a)
    k = rng.randrange(6)
    if k == 0:
        b = [rng.random() < .5 for _ in a]
    elif k == 1:                       # superset
        b = [x or rng.random() < .3 for x in a]
    elif k == 2:                       # subset
        b = [x and rng.random() < .7 for x in a]
    elif k == 3:
        b = list(a)
    elif k == 4:
        b = [not x for x in a]
    else:
        b = list(a)
        if n:
            j = rng.choice([0, n - 1, rng.randrange(n)])
            b[j] = not b[j]
    return a, b


@scenario(quick=9000, thorough=120000)
def pairs(c):
    a, b = operands(c.rng, c.index)
    n = len(a)
    A, B = Binv(list(a)), Binv(list(b))
    ctx = (s(a), s(b))
    c.state(*ctx, trivial=n < 2)
    c.sample(f'{A} with {B}')
    if c.rng.random() < .5:            # derived data computed before or after
        (A.exposet, B.complement, A.intval, B.string)
    c.eq('and', (A & B).vector, [x and y for x, y in zip(a, b)], *ctx)
    c.eq('or', (A | B).vector, [x or y for x, y in zip(a, b)], *ctx)
    c.eq('xor', (A ^ B).vector, [x != y for x, y in zip(a, b)], *ctx)
    c.eq('not', (~A).vector, [not x for x in a], *ctx)
    c.eq('and', (A & B).intval, A.intval & B.intval, *ctx)
    c.eq('or', (A | B).intval, A.intval | B.intval, *ctx)
    c.eq('xor', (A ^ B).intval, A.intval ^ B.intval, *ctx)
    sub = all(y or not x for x, y in zip(a, b))
    c.eq('bitwise_smaller', bool(A.bitwise_smaller(B)), sub and a != b, *ctx)
    sup = all(x or not y for x, y in zip(a, b))
    c.eq('bitwise_smaller', bool(B.bitwise_smaller(A)), sup and a != b, *ctx)
    if n:
        k = c.rng.randrange(n)
        c.eq('flip', A.flip_bit(k).vector, a[:k] + [not a[k]] + a[k + 1:], k, *ctx)
        c.true('flip', A.flip_bit(k).flip_bit(k) == A, k, *ctx)
        c.eq('index', [bool(A[k]), bool(A[-1 - k])], [a[k], a[-1 - k]], k, *ctx)
    lo, hi = c.rng.randint(-n - 1, n + 1), c.rng.randint(-n - 1, n + 1)
    st = c.rng.choice([None, 1, 2, 3, -1, -2])
    sl = slice(c.rng.choice([lo, None]), c.rng.choice([hi, None]), st)
    c.eq('slice', list(A[sl]), a[sl], str(sl), *ctx)
    c.eq('operands-unchanged', [A.vector, B.vector, str(A), str(B)], [a, b, str(Binv(a)), str(Binv(b))], *ctx)


@scenario(quick=4000, thorough=60000)
def concat_and_order(c):
    a = gen.bits(c.rng, c.index, 60)
    m = c.rng.randrange(4)
    if m == 0:
        b = gen.bits(c.rng, c.index, 60)
    elif m == 1:                       # common prefix, then different or shorter
        k = c.rng.randint(0, len(a))
        b = a[:k] + [c.rng.random() < .5 for _ in range(c.rng.randint(0, 4))]
    elif m == 2:
        b = list(a)
    else:
        b = a + [c.rng.random() < .5]
    A, B = Binv(list(a)), Binv(list(b))
    ctx = (s(a), s(b))
    c.state(*ctx, trivial=len(a) + len(b) < 3)
    c.sample(f'{A} with {B}')
    c.eq('concat', (A + B).vector, a + b, *ctx)
    c.eq('concat', (B + A).length, len(a) + len(b), *ctx)
    c.eq('order', [A < B, A > B, A <= B, A >= B, A == B, A != B],
         [a < b, a > b, a <= b, a >= b, a == b, a != b], *ctx)
    c.eq('operands-unchanged', [A.vector, B.vector], [a, b], *ctx)


@scenario(quick=1500, thorough=20000)
def sorting(c):
    n = c.rng.randint(0, 8)
    pool = [gen.bits(c.rng, 0, 20)[:c.rng.randint(0, 10)] for _ in range(c.rng.randint(2, 20))]
    if c.rng.random() < .5:
        pool = [(p + [False] * n)[:n] for p in pool]
    vs = [Binv(list(p)) for p in pool]
    c.state(tuple(s(p) for p in pool))
    c.eq('sorted', [v.vector for v in sorted(vs)], sorted(pool), pool)
    c.eq('sorted', [min(vs).vector, max(vs).vector], [min(pool), max(pool)], pool)
    c.eq('distinct', len(set(vs)), len(set(tuple(p) for p in pool)), pool)


@scenario(quick=2500, thorough=40000)
def trees(c):
    n = c.rng.choice([1, 2, 3, 4, 8, 17, 33])
    leaves = [[c.rng.random() < .5 for _ in range(n)] for _ in range(3)]
    objs = [Binv(list(x)) for x in leaves]

    def build(depth):
        r = c.rng.random()
        if depth == 0 or r < .15:
            k = c.rng.randrange(3)
            return objs[k], leaves[k], f'x{k}'
        if r < .3:
            o, m, t = build(depth - 1)
            return ~o, [not e for e in m], f'~{t}'
        if r < .38:
            o, m, t = build(depth - 1)
            k = c.rng.randrange(n)
            return o.flip_bit(k), m[:k] + [not m[k]] + m[k + 1:], f'flip{k}({t})'
        if r < .45:
            o, m, t = build(depth - 1)
            return o.reverse, m[::-1], f'rev({t})'
        o1, m1, t1 = build(depth - 1)
        o2, m2, t2 = build(depth - 1)
        k = c.rng.randrange(3)
        t = f'({t1}{"&|^"[k]}{t2})'
        if k == 0:
            return o1 & o2, [x and y for x, y in zip(m1, m2)], t
        if k == 1:
            return o1 | o2, [x or y for x, y in zip(m1, m2)], t
        return o1 ^ o2, [x != y for x, y in zip(m1, m2)], t

    o, m, t = build(c.rng.randint(2, 5))
    ctx = (t, [s(x) for x in leaves])
    c.state(*ctx, trivial=len(t) < 4)
    c.sample(f'{t} over {[s(x) for x in leaves]}')
    c.eq('tree', o.vector, m, *ctx)
    c.eq('tree', [o.weight, o.intval, o.string], [sum(m), sum(b << i for i, b in enumerate(m)), s(m)], *ctx)
    c.eq('operands-unchanged', [x.vector for x in objs], leaves, *ctx)
