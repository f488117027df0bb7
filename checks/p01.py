from math import lcm
from numbers import Integral

from discretehelpers.perm import Perm
from discretehelpers.perm.ex import OtherPerilenMismatchError, OtherNotPermError

from lib import hooks, gen
from lib.core import scenario
from lib.ref import RefPerm

PROPERTY = 'P01'
RULE = ('Cases draw words of finite permutations (up to 40 places) or periodic ones (arbitrary, also coprime, periods) and compare product, inverse, power, '
        'order and parity pointwise, two common periods far, with a function-table model; every product made inside the library is judged too. '
        'A state is the tuple of operands (sequence, period); trivial when all operands are neutral.')
REQUIRED = ['product', 'inverse', 'power', 'order', 'parity', 'associative', 'mixed-refused', 'neutral', 'word', 'operands-unchanged',
            'perm-product', 'perm-invariant']


def prepare():
    hooks.install_perm()


def draw(rng, periodic, big=False):
    if not periodic:
        n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 13, 20] + ([40] if big else []))
        s = gen.perm_seq(rng, n)
        return (Perm(s) if s else Perm()), RefPerm(s)
    n = rng.choice([2, 2, 3, 4, 4, 5, 6, 6, 7, 8, 9, 10, 12])
    s = gen.perm_seq(rng, n)
    r = rng.random()
    if r < .25:                          # repeated pattern: the period is not minimal
        k = rng.randint(2, 3)
        s = [e + j * n for j in range(k) for e in s]
        n *= k
    elif r < .5:                         # the period is longer than the moved part
        n += rng.randint(1, 5)
        s = s + list(range(len(s), n))
    return Perm(s, perilen=n), RefPerm(s, n)


def span(*refs):
    """far enough to tell two products of these apart"""
    pers = [r.per for r in refs if r.per is not None]
    return 2 * lcm(*pers) + 3 if pers else max([len(r.seq) for r in refs], default=0) + 4


def agree(c, monitor, p, r, n, *ctx):
    n = min(n, 3000)
    c.eq(monitor, [p[i] for i in range(n)], r.table(n), *ctx)
    far = c.rng.getrandbits(c.rng.choice([20, 31, 32, 53, 63, 64, 65, 130]))
    c.true(monitor, p[far] == r(far) and isinstance(p[far], Integral), far, *ctx)
    c.eq(monitor, bool(p.neutral), r.neutral, *ctx)
    c.eq(monitor, None if p.perilen is None else int(p.perilen), r.per, *ctx)


@scenario(quick=4000, thorough=50000)
def pairs(c):
    periodic = c.rng.random() < .6
    a, ra = draw(c.rng, periodic, True)
    b, rb = draw(c.rng, periodic, True)
    if c.rng.random() < .1:
        b, rb = a, ra
    ctx = (str(a), str(b))
    before = (ra.key(), rb.key())
    c.state(*before, trivial=ra.neutral and rb.neutral)
    c.sample(f'{a}  and  {b}')
    n = span(ra, rb)
    agree(c, 'product', a * b, ra * rb, n, *ctx)
    agree(c, 'product', b * a, rb * ra, n, *ctx)
    agree(c, 'inverse', a.inverse, ra.inverse(), n, *ctx)
    for x in (a, b):
        c.true('inverse', (x * x.inverse).neutral and (x.inverse * x).neutral and x.inverse.inverse == x, str(x))
    c.true('inverse', (a * b).inverse == b.inverse * a.inverse, *ctx)
    k = c.rng.randint(-6, 7) if c.rng.random() < .98 else c.rng.choice([-1, 1]) * c.rng.randint(8, 300)
    agree(c, 'power', a ** k, ra.power(k), n, 'exponent', k, *ctx)
    j = c.rng.randint(-4, 4)
    c.true('power', (a ** k) * (a ** j) == a ** (k + j), k, j, str(a))
    # order
    c.eq('order', int(a.order), ra.order(), str(a))
    c.eq('order', int(a.inverse.order), ra.order(), str(a))
    if ra.order() <= 60:
        c.true('order', (a ** int(a.order)).neutral and (a ** (int(a.order) + 1)) == a, str(a))
    # parity
    c.eq('parity', int(a.parity), ra.parity(), str(a))
    if not periodic:
        c.eq('parity', int((a * b).parity), (ra.parity() + rb.parity()) % 2, *ctx)
    # neutral element
    e = Perm()
    c.true('neutral', a * e == a and e * a == a and (e * e).neutral and e == e ** 3 and e.inverse == e, str(a))
    # operands as before
    agree(c, 'operands-unchanged', a, ra, n, *ctx)
    agree(c, 'operands-unchanged', b, rb, n, *ctx)


@scenario(quick=1500, thorough=20000)
def mixed(c):
    a, ra = draw(c.rng, False)
    b, rb = draw(c.rng, True)
    c.state(ra.key(), rb.key(), trivial=ra.neutral or rb.neutral)
    if ra.neutral or rb.neutral:
        n = span(ra, rb) if not rb.neutral else len(ra.seq) + 3
        agree(c, 'neutral', a * b, ra * rb, n, str(a), str(b))
        agree(c, 'neutral', b * a, rb * ra, n, str(a), str(b))
    else:
        c.raises('mixed-refused', lambda: a * b, OtherPerilenMismatchError, str(a), str(b))
        c.raises('mixed-refused', lambda: b * a, OtherPerilenMismatchError, str(a), str(b))
        c.raises('mixed-refused', lambda: a * list(ra.seq), OtherNotPermError, str(a))


@scenario(quick=1500, thorough=20000)
def words(c):
    periodic = c.rng.random() < .5
    gens = [draw(c.rng, periodic) for _ in range(3)]
    if periodic and lcm(*[r.per or 1 for _, r in gens]) > 600:
        gens[2] = gens[0]
    n = min(span(*[r for _, r in gens]), 1500)
    p, r = Perm(), RefPerm([])
    text = []
    for _ in range(c.rng.randint(2, 10)):
        k = c.rng.randrange(3)
        g, rg = gens[k]
        e = c.rng.choice([1, 1, -1, 2, -2, 0, 3])
        text.append(f'g{k}^{e}')
        f, rf = g ** e, rg.power(e)
        if c.rng.random() < .5:
            p, r = p * f, r * rf
        else:
            p, r = f * p, rf * r
    ctx = (' '.join(text), [str(g) for g, _ in gens])
    c.state(*ctx, trivial=all(rg.neutral for _, rg in gens))
    c.sample(f'word {ctx[0]} over {ctx[1]}')
    agree(c, 'word', p, r, n, *ctx)
    a, b, d = [g for g, _ in gens]
    c.true('associative', (a * b) * d == a * (b * d), *ctx)
    for g, rg in gens:
        agree(c, 'operands-unchanged', g, rg, n, *ctx)


@scenario(quick=400, thorough=4000)
def long_orders(c):
    """many cycles of coprime lengths: orders far beyond 64 bit"""
    lengths = c.rng.sample([2, 3, 4, 5, 7, 8, 9, 11, 13, 16, 17, 19, 23, 25, 27, 29, 31, 37, 41, 43, 47, 53, 59], c.rng.randint(3, 18))
    s, start = [], 0
    for n in lengths:
        s += [start + (i + 1) % n for i in range(n)]
        start += n
    if c.rng.random() < .4:
        start += c.rng.randint(0, 3)
        p = Perm(s, perilen=start)
    else:
        p = Perm(s)
    c.state(tuple(lengths))
    c.eq('order', int(p.order), lcm(*lengths), lengths)
    c.eq('parity', int(p.parity), sum(n - 1 for n in lengths) % 2, lengths)
    c.sample(f'cycle lengths {lengths}, order {lcm(*lengths)}')
