from math import lcm

from discretehelpers.perm import Perm
from discretehelpers.perm.ex import OtherPerilenMismatchError
from discretehelpers.walsh_perm import WalshPerm

from lib import hooks, gen
from lib.core import scenario
from lib.ref import gf2_apply, gf2_canon, gf2_mul, gf2_inv, gf2_power, gf2_transpose, RefPerm

PROPERTY = 'W02'
RULE = ('Cases draw pairs, triples and words of Walsh permutations of mixed degrees up to 9, including matrices whose integer inverse is not integral, and ordinary periodic permutations; '
        'product, inverse, power and transpose are compared with exact linear algebra modulo two and pointwise. A state is the tuple of operands; trivial when all are neutral.')
REQUIRED = ['product', 'inverse', 'power', 'transpose', 'associative', 'word', 'pointwise', 'with-perm', 'mixed-refused', 'operands-unchanged', 'non-integral-inverse']


def prepare():
    hooks.install_perm()


def draw(rng, top=6):
    cols = gf2_canon(gen.invertible_matrix(rng, rng.choice([k for k in (0, 1, 2, 3, 3, 4, 4, 5, 6, 7, 8) if k <= top])))
    return WalshPerm(list(cols)), cols


def agree(c, monitor, w, cols, *ctx):
    c.true(monitor, isinstance(w, WalshPerm), 'not a Walsh permutation', *ctx)
    c.eq(monitor, w.vector(), cols, *ctx)
    n = len(cols)
    k = min(1 << (n + 1), 64)
    c.eq(monitor, [w[i] for i in range(k)], [gf2_apply(cols, i) for i in range(k)], *ctx)
    tr = gf2_transpose(cols)
    c.eq(monitor, w.transpose_vector(), tr + [1 << i for i in range(len(tr), n)], *ctx)


def det_is_unit(cols):
    import sympy
    n = len(cols)
    return abs(sympy.Matrix(n, n, lambda i, j: cols[j] >> i & 1).det()) == 1 if n else True


@scenario(quick=1600, thorough=15000)
def pairs(c):
    a, x = draw(c.rng, 8 if c.index % 8 == 0 else 5)
    b, y = draw(c.rng, 5)
    d, z = draw(c.rng, 4)
    c.state(tuple(x), tuple(y), trivial=not x and not y)
    c.sample(f'{a} * {b}')
    p = a * b
    agree(c, 'product', p, gf2_mul(x, y), x, y)
    n = 1 << max(len(x), len(y))
    c.eq('pointwise', [p[i] for i in range(n)], [a[b[i]] for i in range(n)], x, y)
    c.true('associative', (a * b) * d == a * (b * d), x, y, z)
    i = a.inverse
    agree(c, 'inverse', i, gf2_inv(x), x)
    c.true('inverse', (a * i).neutral and (i * a).neutral and i.inverse == a, x)
    c.eq('pointwise', [i[a[k]] for k in range(1 << len(x))], list(range(1 << len(x))), x)
    if len(x) <= 4 and not det_is_unit(x):
        c.hit('non-integral-inverse')
    t = a.transpose
    agree(c, 'transpose', t, gf2_transpose(x), x)
    c.true('transpose', t.transpose == a and (a * b).transpose == b.transpose * a.transpose and a.inverse.transpose == t.inverse, x, y)
    k = c.rng.randint(-5, 6)
    q = a ** k
    agree(c, 'power', q, gf2_power(x, k), k, x)
    j = c.rng.randint(-3, 3)
    c.true('power', (a ** j) * q == a ** (j + k), j, k, x)
    if len(x) <= 4:
        c.true('power', (a ** int(a.order)).neutral, x)
    agree(c, 'operands-unchanged', a, x)
    agree(c, 'operands-unchanged', b, y)


@scenario(quick=800, thorough=8000)
def with_permutations(c):
    w, x = draw(c.rng, 4)
    m = c.rng.choice([2, 3, 4, 5, 6, 8])
    s = gen.perm_seq(c.rng, m)
    p, r = Perm(s, perilen=m), RefPerm(s, m)
    c.state(tuple(x), tuple(s), trivial=not x or r.neutral)
    n = 2 * lcm(1 << len(x), m) + 2
    wp, pw = w * p, p * w
    c.eq('with-perm', [wp[i] for i in range(n)], [gf2_apply(x, r(i)) for i in range(n)], x, s)
    c.eq('with-perm', [pw[i] for i in range(n)], [r(gf2_apply(x, i)) for i in range(n)], x, s)
    f = Perm(s)
    if x and not f.neutral:
        c.raises('mixed-refused', lambda: w * f, OtherPerilenMismatchError, x, s)
        c.raises('mixed-refused', lambda: f * w, OtherPerilenMismatchError, x, s)
    q = w.inverse * wp
    c.eq('with-perm', [q[i] for i in range(n)], [r(i) for i in range(n)], x, s)
    # linear ordinary permutation
    if x:
        lin = Perm([gf2_apply(x, i) for i in range(1 << len(x))], perilen=1 << len(x))
        c.true('with-perm', (w * lin.inverse).neutral and (lin * w) == w * w and (w * lin) == w * w, x)


@scenario(quick=700, thorough=7000)
def words(c):
    gens = [draw(c.rng, 5) for _ in range(3)]
    p, x, text = WalshPerm(), [], []
    for _ in range(c.rng.randint(2, 10)):
        k = c.rng.randrange(3)
        e = c.rng.choice([1, 1, -1, 2, -2, 0, 3, 't'])
        g, y = gens[k]
        text.append(f'g{k}^{e}')
        f, u = (g.transpose, gf2_transpose(y)) if e == 't' else (g ** e, gf2_power(y, e))
        if c.rng.random() < .5:
            p, x = p * f, gf2_mul(x, u)
        else:
            p, x = f * p, gf2_mul(u, x)
        agree(c, 'word', p, x, ' '.join(text), [y for _, y in gens])
    c.state(' '.join(text), tuple(tuple(y) for _, y in gens))
    c.sample(f'word {" ".join(text)} over {[str(g) for g, _ in gens]}')
    for g, y in gens:
        agree(c, 'operands-unchanged', g, y)


@scenario(quick=2400, thorough=30000)
def inverses(c):
    """dense matrices, whose inverse over the integers is rarely integral and rarely exact in floating point"""
    rng = c.rng
    n = rng.choice([4, 5, 5, 6, 6, 6, 7, 7] + ([8, 9] if c.index % 10 == 0 else []))
    cols = [1 << i for i in range(n)]
    for _ in range(n * rng.choice([2, 4, 8])):
        i, j = rng.sample(range(n), 2)
        cols[i] ^= cols[j]
    rng.shuffle(cols)
    cols = gf2_canon(cols)
    c.state('inverse', tuple(cols), trivial=not cols)
    a = WalshPerm(list(cols))
    i = a.inverse
    agree(c, 'inverse', i, gf2_inv(cols), cols)
    c.true('inverse', (a * i).neutral and (i * a).neutral, cols)
    t = a.transpose
    agree(c, 'transpose', t, gf2_transpose(cols), cols)
    c.true('inverse', t.inverse == i.transpose, cols)
    if c.index % 4 == 0:
        agree(c, 'power', a ** -2, gf2_power(gf2_inv(cols), 2), cols)
