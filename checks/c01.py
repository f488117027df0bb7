from itertools import product

from discretehelpers.set_part import SetPart
from discretehelpers.set_part_comp import SetPartComp
from discretehelpers.set_part_comp.ex import SetEqualComplementsError, SetCompEqualsError, CompWithoutPartError, PartCompMismatchError

from lib import hooks
from lib.core import scenario
from lib.ref import RefComp

PROPERTY = 'C01'
RULE = ('Each case runs a random history of equality and complement declarations (with self-pairs, repetitions and contradictions, also negative elements) next to a signed graph, comparing all views after every declaration, '
        'and rebuilds the result from blocks and pairs in other orders; all histories of three declarations on four elements are enumerated. A state is the closed relation; trivial when nothing is related.')
REQUIRED = ['equal', 'comp', 'blocks', 'representatives', 'get_comp', 'get_block', 'get_repr', 'all-pairs', 'related', 'length', 'affected', 'equality-refused', 'complement-refused',
            'same-relation', 'other-relation', 'eval-str', 'built', 'built-contradiction', 'not-shared', 'all-short', 'set-partition-invariant']


def prepare():
    hooks.install_set_part()


def watch(c, p, m, el, *ctx):
    rel = m.related()
    c.eq('blocks', p.equal_part.blocks, m.blocks(), *ctx)
    c.eq('representatives', {tuple(q) for q in p.comp_pairs}, m.reps(), *ctx)
    for e in el:
        comp = m.component(e)
        for f in el:
            c.eq('equal', bool(p.are_equal(e, f)), comp.get(f) == 0, e, f, *ctx)
            c.eq('comp', bool(p.are_comp(e, f)), comp.get(f) == 1, e, f, *ctx)
        blk, opp = m.equal_block(e), m.comp_block(e)
        c.eq('get_comp', p.get_comp(e), opp[0] if opp else None, e, *ctx)
        c.eq('get_block', list(p.get_block(e)), blk, e, *ctx)
        c.eq('get_repr', p.get_repr(e), blk[0], e, *ctx)
    c.eq('all-pairs', {tuple(q) for q in p.all_complement_pairs()}, m.comp_pairs(), *ctx)
    c.eq('related', p.related_part().blocks, rel, *ctx)
    c.eq('related', p.related_part().domain, 'Z', *ctx)
    c.eq('related', p.number_of_related_blocks(), len(rel), *ctx)
    flat = sorted(e for b in rel for e in b)
    c.eq('affected', list(p.affected_elements()), flat, *ctx)
    c.eq('affected', p.number_of_affected_elements(), len(flat), *ctx)
    c.eq('length', p.length(), flat[-1] + 1 if flat else 0, *ctx)
    q = eval(str(p), {'SetPartComp': SetPartComp})
    c.true('eval-str', q == p and repr(p) == str(p), str(p), *ctx)


def declare(c, p, m, kind, a, b, *ctx):
    now = m.relation(a, b)
    if kind == 0:
        if now == 1:
            c.raises('equality-refused', lambda: p.set_equal(a, b), SetEqualComplementsError, a, b, *ctx)
        else:
            p.set_equal(a, b)
            m.declare(a, b, 0)
    else:
        if now == 0:
            c.raises('complement-refused', lambda: p.set_comp(a, b), SetCompEqualsError, a, b, *ctx)
        else:
            p.set_comp(a, b)
            m.declare(a, b, 1)


def rebuild(c, m, el, p):
    """the same relation, declared in another way"""
    rng = c.rng
    blocks = [rng.sample(b, len(b)) for b in m.blocks()]
    rng.shuffle(blocks)
    pairs = set()
    for b in m.related():
        e = rng.choice(b)
        opp = m.comp_block(e)
        if opp:
            q = (rng.choice(m.equal_block(e)), rng.choice(opp))
            pairs.add(q if rng.random() < .5 else q[::-1])
    extra = rng.sample(sorted(m.comp_pairs()), min(3, len(m.comp_pairs())))
    pairs |= {q if rng.random() < .5 else q[::-1] for q in extra if rng.random() < .5}
    part = blocks if rng.random() < .5 else SetPart(blocks, 'Z')
    q = SetPartComp(part, pairs) if pairs else SetPartComp(part)
    c.true('same-relation', p == q and q == p and not p != q, blocks, pairs)
    watch(c, q, m, el, 'built from', blocks, pairs)
    c.hit('built')
    # only complement pairs: two-step paths make equal elements
    chain, ok = set(), True
    for b in m.related():
        pos, neg = m.equal_block(b[0]), m.comp_block(b[0])
        if not neg:
            ok = False
        for x in pos:
            chain.add((x, rng.choice(neg)) if neg else (x, x))
        for y in neg:
            chain.add((y, pos[0]))
        if neg:
            chain |= {(pos[0], y) for y in neg} | {(x, neg[0]) for x in pos}
    if ok:
        r = SetPartComp([], chain)
        c.true('same-relation', p == r, 'from pairs', chain)
        watch(c, r, m, el, 'from pairs', chain)
    if isinstance(part, SetPart):
        before = str(part)
        n = m.copy()
        a, b = rng.sample(el, 2)
        declare(c, q, n, rng.choice([0, 1]), a, b)
        c.eq('not-shared', str(part), before, 'partition given to the constructor')
        watch(c, p, m, el, 'first object after a declaration on its copy')


@scenario(quick=2500, thorough=40000)
def histories(c):
    rng = c.rng
    n = rng.choice([4, 6, 8, 10, 10 if c.index % 8 else 16])
    el = rng.sample(range(-6, 14), n) if rng.random() < .5 else rng.sample(range(n + 3), n) if rng.random() < .9 else rng.sample(range(-900, 900), n)
    p, m = SetPartComp(), RefComp()
    log = []
    q = rng.choice([.2, .5, .8])
    for i in range(rng.randint(2, 18 if n < 16 else 30)):
        kind = int(rng.random() < q)
        a, b = rng.choice(el), rng.choice(el)
        log.append(f'{a} {"=!"[kind]} {b}')
        c.note(log[-1])
        declare(c, p, m, kind, a, b, log)
        c.state(str(m.blocks()), str(sorted(m.reps())), trivial=not m.related())
        if i % 3 == 2 or rng.random() < .3:
            watch(c, p, m, el, log)
    watch(c, p, m, el, log)
    rebuild(c, m, el, p)
    watch(c, p, m, el, log, 'after building others')
    c.sample(f'{"; ".join(log[:8])} -> {p}')
    n = m.copy()
    a, b = rng.sample(el, 2)
    if n.relation(a, b) is None:
        o = SetPartComp(m.blocks(), set(m.reps()))
        declare(c, o, n, rng.choice([0, 1]), a, b)
        c.true('other-relation', not (o == p) and o != p and not (p == o) and p != o, log, a, b)
    for fewer in ((m.blocks(), []), (m.blocks()[1:], []), ([], [])):             # only the equalities, only some of them, nothing
        o = SetPartComp(*fewer)
        same = fewer[0] == m.blocks() and not m.reps()
        c.eq('other-relation', [bool(o == p), bool(p == o), o != p, p != o], [same, same, not same, not same], log, fewer)


@scenario(quick=64, thorough=64)
def all_short(c):
    """all histories of three declarations on four elements (one quarter per stripe of self-pairs included)"""
    el = [0, 1, 2, 3]
    acts = [(k, a, b) for k in (0, 1) for a in el for b in el if a <= b or c.tier == 'thorough']
    words = list(product(acts, repeat=3))
    for w in words[c.index::c.total]:
        p, m = SetPartComp(), RefComp()
        for k, a, b in w:
            if c.rng.random() < .5:
                a, b = b, a
            declare(c, p, m, k, a, b, w)
        c.hit('all-short')
        c.state('short', str(m.blocks()), str(sorted(m.reps())))
        c.eq('blocks', p.equal_part.blocks, m.blocks(), w)
        c.eq('representatives', {tuple(q) for q in p.comp_pairs}, m.reps(), w)
        for a in el:
            for b in el:
                c.eq('equal', bool(p.are_equal(a, b)), m.relation(a, b) == 0, w)
                c.eq('comp', bool(p.are_comp(a, b)), m.relation(a, b) == 1, w)


@scenario(quick=1500, thorough=15000)
def contradictions_at_construction(c):
    rng = c.rng
    el = rng.sample(range(-3, 9), 6)
    m = RefComp()
    for _ in range(rng.randint(1, 5)):
        a, b = rng.sample(el, 2)
        if m.relation(a, b) is None:
            m.declare(a, b, rng.choice([0, 1]))
    blocks, pairs = m.blocks(), set(m.reps())
    b = rng.choice([x for x in m.related()] or [[el[0]]])
    e = rng.choice(b)
    x, y = rng.choice(m.equal_block(e)), rng.choice(m.equal_block(e))
    opp = m.comp_block(e)
    bad = set(pairs)
    if opp and rng.random() < .5:              # odd cycle: complement of the complement
        u, z = rng.choice(opp), [k for k in range(20, 23)]
        bad |= {(x, z[0]), (z[0], z[1]), (z[1], y)}
    else:
        bad.add((x, y))
    c.state('contradiction', str(blocks), str(sorted(bad)))
    c.raises('built-contradiction', lambda: SetPartComp(blocks, bad), PartCompMismatchError, blocks, bad)
    c.raises('built-contradiction', lambda: SetPartComp(None, pairs or {(1, 2)}), CompWithoutPartError)
    c.raises('built-contradiction', lambda: SetPartComp(comp_pairs=set()), CompWithoutPartError)
