from discretehelpers.boolf import Boolf

from lib import hooks, gen
from lib.core import scenario
from lib.ref import RefF

PROPERTY = 'F02'
RULE = ('Pairs of functions on overlapping, nested, disjoint and sparse argument sets (also implied by each other, equal or complementary) are combined and compared, and random expression trees are evaluated next to tables. '
        'A state is the pair of reduced functions; trivial when one of them is constant.')
REQUIRED = ['and', 'or', 'xor', 'not', 'lt', 'le', 'gt', 'ge', 'laws', 'tree', 'arguments-vanish', 'operands-unchanged', 'boolf-and', 'boolf-or', 'boolf-xor', 'boolf-not', 'boolf-canonical']


def prepare():
    hooks.install_boolf()


def agree(c, monitor, f, r, *ctx):
    c.eq(monitor, [int(a) for a in f.atomvals], list(r.atoms), *ctx)
    c.eq(monitor, [bool(b) for b in f.root.vector], list(r.bits), *ctx)


def lift(r):
    return Boolf(list(r.bits), list(r.atoms))


def spread(rng, *fs):
    """the same functions on arguments with large gaps"""
    new = sorted(rng.sample(range(rng.choice([20, 40, 80])), 8))
    return [RefF([new[a] for a in f.atoms], f.bits) for f in fs]


def draw(rng, top=8):
    n = rng.choice([0, 1, 1, 2, 2, 3, 3, 4])
    return RefF(sorted(rng.sample(range(top), n)), gen.table(rng, n))


@scenario(quick=5000, thorough=60000)
def pairs(c):
    rng = c.rng
    x = draw(rng)
    k = rng.random()
    if k < .5:
        y = draw(rng)
    elif k < .6:
        y = ~x
    elif k < .7:
        y = x
    elif k < .8:
        y = x & draw(rng)
    elif k < .9:
        y = x | draw(rng)
    else:
        y = x ^ draw(rng)
    z = draw(rng, 5)
    if len(set(x.atoms) | set(y.atoms)) > 7:
        return
    if rng.random() < .1:
        x, y, z = spread(rng, x, y, z)
    f, g, h = lift(x), lift(y), lift(z)
    c.state(x.key, y.key, trivial=not x.atoms or not y.atoms)
    c.sample(f'{f} with {g}')
    ctx = (x, y)
    agree(c, 'and', f & g, x & y, *ctx)
    agree(c, 'or', f | g, x | y, *ctx)
    agree(c, 'xor', f ^ g, x ^ y, *ctx)
    agree(c, 'not', ~f, ~x, *ctx)
    imp, rev = x.implies(y), y.implies(x)
    c.eq('le', bool(f.bitwise_le(g)), imp, *ctx)
    c.eq('ge', bool(f.bitwise_ge(g)), rev, *ctx)
    c.eq('lt', bool(f.bitwise_lt(g)), imp and x != y, *ctx)
    c.eq('gt', bool(f.bitwise_gt(g)), rev and x != y, *ctx)
    c.true('le', f.bitwise_le(f) and f.bitwise_ge(f) and not f.bitwise_lt(f) and not f.bitwise_gt(f), *ctx)
    if set((x ^ y).atoms) != set(x.atoms) | set(y.atoms):
        c.hit('arguments-vanish')
    c.true('laws', ~(f & g) == ~f | ~g and f ^ g == (f | g) & ~(f & g), *ctx)
    c.true('laws', f | (f & g) == f and f & (f | g) == f and f & ~f == Boolf('0') and f | ~f == Boolf('1'), *ctx)
    if len(set(x.atoms) | set(y.atoms) | set(z.atoms)) <= 7:
        c.true('laws', f & (g | h) == (f & g) | (f & h) and (f ^ g) ^ h == f ^ (g ^ h), *ctx, z)
    agree(c, 'operands-unchanged', f, x, *ctx)
    agree(c, 'operands-unchanged', g, y, *ctx)


@scenario(quick=1200, thorough=15000)
def trees(c):
    rng = c.rng
    leaves = [draw(rng, 6) for _ in range(3)] + [RefF([a], [0, 1]) for a in rng.sample(range(6), 2)]
    if rng.random() < .1:
        leaves = spread(rng, *leaves)
    objs = [lift(r) for r in leaves]
    stack = [(i, str(i)) for i in range(len(leaves))]
    vals = list(zip(objs, leaves, [str(i) for i in range(len(leaves))]))
    for _ in range(rng.randint(3, 12)):
        f, x, s = rng.choice(vals)
        g, y, t = rng.choice(vals)
        o = rng.choice('&|^~')
        n = (f & g, x & y) if o == '&' else (f | g, x | y) if o == '|' else (f ^ g, x ^ y) if o == '^' else (~f, ~x)
        agree(c, 'tree', n[0], n[1], x, o, y)
        vals.append((n[0], n[1], f'{s}{o}{t}'))
        c.state(n[1].key, trivial=not n[1].atoms)
    for f, x, s in vals:
        agree(c, 'operands-unchanged', f, x)
