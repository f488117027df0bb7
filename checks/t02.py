from discretehelpers.set_part import SetPart
from discretehelpers.set_part.ex import DomainsNotEqualError

from lib import hooks
from lib.core import scenario
from lib.gen import domain_of
from lib.ref import RefPart

PROPERTY = 'T02'
RULE = ('Pairs and triples of partitions over naturals, integers and finite domains (random, nested, chains of overlapping blocks, disjoint) are combined and compared next to equivalence relations; '
        'lattice laws are checked on the results. A state is the pair of canonical block lists; trivial when one of them has no blocks.')
REQUIRED = ['meet', 'join', 'le', 'lt', 'domain', 'lattice-laws', 'domains-refused', 'operands-unchanged', 'chain', 'set-partition-invariant']


def prepare():
    hooks.install_set_part()


def draw(rng, el, like=None):
    r = rng.random()
    m = like.copy() if like is not None and r < .45 else RefPart()
    if like is not None and r < .2:          # coarser
        for _ in range(rng.randint(0, 3)):
            m.merge(rng.choice(el), rng.choice(el))
    elif like is not None and r < .45:       # finer
        for b in like.blocks():
            if rng.random() < .6:
                k = rng.randint(1, len(b))
                s = rng.sample(b, len(b))
                m.refine([s[:k], s[k:]])
    elif r < .6:                             # pairs, so that joins make long chains
        s = rng.sample(el, len(el)) if rng.random() < .5 else sorted(el)
        for i in range(rng.randint(0, 1), len(s) - 1, 2):
            m.merge(s[i], s[i + 1])
    else:
        for _ in range(rng.randint(0, len(el))):
            m.merge(rng.choice(el), rng.choice(el))
    return m


def same(c, monitor, p, m, dom, kind, *ctx):
    c.eq(monitor, p.blocks, m.blocks(), *ctx)
    c.eq('domain', p.domain if kind in 'NZ' else set(p.domain), dom if kind in 'NZ' else set(dom), *ctx)


@scenario(quick=14000, thorough=120000)
def lattice(c):
    rng = c.rng
    kind, dom, el = domain_of(rng)
    x = draw(rng, el)
    y = draw(rng, el, x)
    z = draw(rng, el, y)
    a, b, d = [SetPart(m.blocks(), dom) for m in (x, y, z)]
    c.state(kind, str(x.blocks()), str(y.blocks()), trivial=not x.blocks() or not y.blocks())
    c.sample(f'{a}, {b}')
    if rng.random() < .5:
        a.pairs, b.pairs                      # fill caches
    for (p, m), (q, n) in [((a, x), (b, y)), ((b, y), (a, x)), ((a, x), (a, x)), ((b, y), (d, z))]:
        ctx = (kind, m.blocks(), n.blocks())
        same(c, 'meet', p.meet(q), m.meet(n), dom, kind, *ctx)
        same(c, 'join', p.join(q), m.join(n), dom, kind, *ctx)
        c.eq('le', bool(p <= q), m.refines(n), *ctx)
        c.eq('lt', bool(p < q), m.refines(n) and m.blocks() != n.blocks(), *ctx)
        c.eq('ge', bool(p >= q), n.refines(m), *ctx)
        c.eq('gt', bool(p > q), n.refines(m) and m.blocks() != n.blocks(), *ctx)
        if hasattr(p, '_join_prototype'):
            same(c, 'join-slow', p._join_prototype(q), m.join(n), dom, kind, *ctx)
        if hasattr(p, '_join_prototype_improved'):
            same(c, 'join-slow', p._join_prototype_improved(q), m.join(n), dom, kind, *ctx)
        if hasattr(p, '_meet_prototype'):
            same(c, 'meet-slow', p._meet_prototype(q), m.meet(n), dom, kind, *ctx)
    ctx = (kind, x.blocks(), y.blocks(), z.blocks())
    c.true('lattice-laws', a.join(b).join(d) == a.join(b.join(d)), *ctx)
    c.true('lattice-laws', a.meet(b).meet(d) == a.meet(b.meet(d)), *ctx)
    c.true('lattice-laws', a.join(a.meet(b)) == a and a.meet(a.join(b)) == a, *ctx)
    c.true('lattice-laws', (a <= b) == (a.meet(b) == a) == (a.join(b) == b), *ctx)
    c.true('lattice-laws', a.meet(b) <= a <= a.join(b), *ctx)
    for p, m in ((a, x), (b, y), (d, z)):
        same(c, 'operands-unchanged', p, m, dom, kind, *ctx)
    # results are independent objects
    j, mt = a.join(b), a.meet(b)
    e, f = rng.choice(el), rng.choice(el)
    j.merge_pair(e, f)
    mt.merge_pair(e, f)
    n = x.join(y)
    n.merge(e, f)
    c.eq('join', j.blocks, n.blocks(), 'merged later', *ctx)
    same(c, 'operands-unchanged', a, x, dom, kind, *ctx)
    same(c, 'operands-unchanged', b, y, dom, kind, *ctx)
    for e in el:
        c.eq('join', sorted(a.join(b).element_to_block(e)), sorted(x.join(y).block(e)), e, *ctx)


@scenario(quick=900, thorough=6000)
def chains(c):
    """joins of interlocked pairs close over the whole chain, with refused domains"""
    rng = c.rng
    n = rng.choice([6, 17, 40, 90])
    order = rng.sample(range(n), n)
    x = [[order[i], order[i + 1]] for i in range(0, n - 1, 2)]
    y = [[order[i], order[i + 1]] for i in range(1, n - 1, 2)]
    if rng.random() < .5:
        y.pop(rng.randrange(len(y)))
    m = RefPart(x).join(RefPart(y))
    c.state('chain', n, tuple(map(tuple, m.blocks())))
    c.eq('chain', SetPart(x).join(SetPart(y)).blocks, m.blocks(), x, y)
    c.eq('chain', SetPart(y).join(SetPart(x)).blocks, m.blocks(), x, y)
    doms = ['N', 'Z', set(range(n)), set(range(n + 1))]
    d1, d2 = rng.sample(doms, 2)
    p, q = SetPart(x, d1), SetPart(y, d2)
    for f in (lambda: p.join(q), lambda: p.meet(q), lambda: p <= q, lambda: p < q, lambda: p == q, lambda: p > q, lambda: p >= q):
        c.raises('domains-refused', f, DomainsNotEqualError, str(d1), str(d2))
