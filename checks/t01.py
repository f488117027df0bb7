from itertools import combinations

from discretehelpers.set_part import SetPart
from discretehelpers.set_part.ex import DomainNotFiniteError, DomainsNotEqualError, DuplicateElementsError, NotInDomainError
from discretehelpers.ex import ArgValueError

from lib import hooks
from lib.core import scenario
from lib.errors import error
from lib.gen import domain_of
from lib.ref import RefPart

ElementsMismatchError = error('set_part.methods.blocks_with_singletons.ex', 'ElementsMismatchError', ValueError)
LengthMismatchError = error('set_part.methods.blocks_with_singletons.ex', 'LengthMismatchError', ValueError)
LengthNotAllowedError = error('set_part.methods.blocks_with_singletons.ex', 'LengthNotAllowedError', ValueError)
RangeMismatchError = error('set_part.methods.blocks_with_singletons.ex', 'RangeMismatchError', ValueError)
RangeNotAllowedError = error('set_part.methods.blocks_with_singletons.ex', 'RangeNotAllowedError', ValueError)
TooManyArgumentsError = error('set_part.methods.blocks_with_singletons.ex', 'TooManyArgumentsError', ValueError)

PROPERTY = 'T01'
RULE = ('Each case runs a random history of merges, group merges, refinements, refused operations and reads on one partition (naturals, integers or a finite domain of numbers, pairs or words) '
        'next to an equivalence relation; after every step a random part of the views is compared, so that caches are filled in between. A state is the domain kind with the canonical blocks; trivial without blocks.')
REQUIRED = ['blocks', 'pairs', 'intval', 'singletons', 'length', 'with-singletons', 'with-length', 'with-range', 'with-elements', 'canonical-with-singletons', 'element-to-block',
            'same-block', 'equal', 'different', 'eval-str', 'trivial', 'refused', 'refine', 'merge-many', 'built', 'set-partition-invariant']


def prepare():
    hooks.install_set_part()


def views(c, p, m, kind, dom, el, share=1.0):
    rng = c.rng
    blocks = m.blocks()
    t = f'{kind} {dom} {blocks}'
    non = m.elements()

    def v_with():
        if kind == 'N':
            top = max(non) + 1 if non else 0
            base = range(top)
        elif kind == 'Z':
            base = range(min(non), max(non) + 1) if non else range(0)
        else:
            base = el
        want = sorted([sorted(b) for b in {m.block(e) for e in base}])
        c.eq('with-singletons', p.blocks_with_singletons(), want, t)
        c.eq('canonical-with-singletons', p.canonical_blocks_with_singletons, want, t)

    def v_length():
        if kind == 'N':
            top = max(non) + 1 if non else 0
            c.eq('length', p.length, top, t)
            n = top + rng.randint(0, 4)
            want = sorted([sorted(b) for b in {m.block(e) for e in range(n)}])
            c.eq('with-length', p.blocks_with_singletons(length=n), want, n, t)
            c.eq('with-length', p.blocks_with_singletons(n), want, n, t)
            if top:
                c.raises('refused', lambda: p.blocks_with_singletons(length=top - 1), LengthMismatchError, t)
            c.raises('refused', lambda: p.blocks_with_singletons(range_pair=(0, 99)), RangeNotAllowedError, t)
        else:
            c.raises('refused', lambda: p.blocks_with_singletons(length=99), LengthNotAllowedError, t)

    def v_range():
        if kind == 'Z':
            low, high = (min(non), max(non) + 1) if non else (0, 0)
            lo, hi = low - rng.randint(0, 3), high + rng.randint(0, 3)
            want = sorted([sorted(b) for b in {m.block(e) for e in range(lo, hi)}])
            c.eq('with-range', p.blocks_with_singletons(range_pair=(lo, hi)), want, lo, hi, t)
            if non:
                c.raises('refused', lambda: p.blocks_with_singletons(range_pair=(low + 1, hi)), RangeMismatchError, t)
                c.raises('refused', lambda: p.blocks_with_singletons(range_pair=(lo, high - 1)), RangeMismatchError, t)

    def v_elements():
        some = non | set(rng.sample(el, rng.randint(0, len(el))))
        want = sorted([sorted(b) for b in {m.block(e) for e in some}])
        arg = rng.choice([list, set])(some)
        c.eq('with-elements', p.blocks_with_singletons(elements=arg), want, some, t)
        if non:
            c.raises('refused', lambda: p.blocks_with_singletons(elements=some - {rng.choice(sorted(non))}), ElementsMismatchError, t)
        c.raises('refused', lambda: p.blocks_with_singletons(length=50, elements=some), TooManyArgumentsError, t)

    def v_pairs():
        c.eq('pairs', set(p.pairs), m.pairs(), t)

    def v_intval():
        if all(isinstance(e, int) and e >= 0 for e in non):
            c.eq('intval', p.intval, sum(1 << ((b * b - b) // 2 + a) for a, b in m.pairs()), t)

    def v_singletons():
        if kind in 'NZ':
            c.raises('refused', lambda: p.singletons, DomainNotFiniteError, t)
        else:
            c.eq('singletons', set(p.singletons), set(el) - non, t)

    def v_elem():
        for e in rng.sample(el, min(len(el), 5)):
            c.eq('element-to-block', list(p.element_to_block(e)), sorted(m.block(e)), e, t)
            f = rng.choice(el)
            c.eq('same-block', bool(p.pair_in_same_block(e, f)), m.same(e, f), e, f, t)
            c.eq('same-block', bool(p.pair_in_same_block(f, e)), m.same(e, f), e, f, t)

    def v_equal():
        shuffled = [rng.sample(b, len(b)) for b in blocks] + [[e] for e in el if e not in non and rng.random() < .3]
        rng.shuffle(shuffled)
        q = SetPart([rng.choice([list, set, tuple])(b) for b in shuffled], dom)
        c.true('equal', p == q and q == p and not p != q and str(p) == str(q), t)
        if len(el) > 2:
            r = m.copy()
            if blocks and rng.random() < .5:
                b = rng.choice(blocks)
                k = rng.randint(1, len(b) - 1)
                r.refine([b[:k], b[k:]])
            else:
                r.merge(*rng.sample(el, 2))
            if r.blocks() != blocks:
                o = SetPart(r.blocks(), dom)
                c.true('different', p != o and not p == o and o != p and not o == p and str(p) != str(o), t)
        other = SetPart(blocks, 'Z' if kind == 'N' else 'N') if not non or all(isinstance(e, int) and e >= 0 for e in non) else None
        if other is not None:
            c.raises('refused', lambda: p == other, DomainsNotEqualError, t)

    def v_str():
        s = str(p)
        c.eq('repr', repr(p), s)
        if kind not in ('words',):
            q = eval(s, {'SetPart': SetPart})
            c.true('eval-str', q == p and str(q) == s, s, t)

    tests = [v_with, v_length, v_range, v_elements, v_pairs, v_intval, v_singletons, v_elem, v_equal, v_str,
             lambda: c.eq('non-singletons', set(p.non_singletons), non, t),
             lambda: c.eq('trivial', bool(p.trivial), not blocks, t)]
    rng.shuffle(tests)
    c.eq('blocks', p.blocks, blocks, t)
    for f in tests[:max(1, int(len(tests) * share))]:
        f()
    c.eq('blocks', p.blocks, blocks, 'after reading', t)


def step(c, p, m, kind, dom, el):
    """one operation on partition and model; returns its description"""
    rng = c.rng
    r = rng.random()
    if r < .5:
        a, b = rng.choice(el), rng.choice(el)
        p.merge_pair(a, b)
        m.merge(a, b)
        return f'merge {a} {b}'
    if r < .62:
        many = [rng.choice(el) for _ in range(rng.choice([rng.randint(0, 5), rng.randint(0, 5), rng.randint(0, 5), rng.randint(6, 45)]))]
        p.merge_many(rng.choice([list, tuple])(many))
        for e in many[1:]:
            m.merge(many[0], e)
        c.hit('merge-many')
        return f'merge many {many}'
    blocks = m.blocks()
    if r < .88 and blocks:
        b = list(rng.choice(blocks))
        rng.shuffle(b)
        parts = []
        while b:
            k = rng.randint(1, len(b))
            parts.append(b[:k])
            b = b[k:]
        given = [list(x) for x in parts]
        p.refine_block(rng.choice([list, tuple])(given))
        m.refine(parts)
        c.hit('refine')
        c.eq('arguments-unchanged', given, parts)
        return f'refine to {parts}'
    # refused operations
    if r < .94:
        out = {'N': -1, 'Z': 0.5}.get(kind, 'zzz')
        c.raises('refused', lambda: p.merge_pair(rng.choice(el), out), NotInDomainError, kind)
        c.raises('refused', lambda: p.merge_pair(out, rng.choice(el)), NotInDomainError, kind)
        return f'refused merge with {out}'
    wrong = [rng.sample(el, min(2, len(el)))]
    if wrong[0] and sorted(wrong[0]) not in blocks:
        c.raises('refused', lambda: p.refine_block([[wrong[0][0]], [wrong[0][1]]]), ArgValueError, wrong)
    if blocks:
        b = rng.choice(blocks)
        c.raises('refused', lambda: p.refine_block([b[:1], b]), ArgValueError, b)          # overlapping
        if len(b) > 2:
            c.raises('refused', lambda: p.refine_block([b[:1], b[1:-1]]), ArgValueError, b)    # incomplete
    return 'refused refinement'


@scenario(quick=6000, thorough=90000)
def histories(c):
    rng = c.rng
    kind, dom, el = domain_of(rng)
    start = RefPart()
    for _ in range(rng.choice([0, 0, 2, 5])):
        start.merge(rng.choice(el), rng.choice(el))
    p = SetPart(start.blocks(), dom) if start.blocks() or rng.random() < .5 else SetPart(domain=dom)
    m = start.copy()
    log = []
    views(c, p, m, kind, dom, el, rng.random())
    for _ in range(rng.randint(3, 30)):
        log.append(step(c, p, m, kind, dom, el))
        c.note(log[-1])
        c.state(kind, tuple(map(tuple, m.blocks())), trivial=not m.blocks())
        views(c, p, m, kind, dom, el, rng.choice([.1, .3, .6]))
    views(c, p, m, kind, dom, el)
    c.sample(f'domain {kind}: {"; ".join(log[:6])} ...')


@scenario(quick=3000, thorough=40000)
def built(c):
    """partitions from blocks in any form"""
    rng = c.rng
    kind, dom, el = domain_of(rng)
    m = RefPart()
    for _ in range(rng.randint(0, len(el))):
        m.merge(rng.choice(el), rng.choice(el))
    blocks = [rng.sample(b, len(b)) for b in m.blocks()] + [[e] for e in el if len(m.block(e)) == 1 and rng.random() < .5]
    rng.shuffle(blocks)
    given = [list(b) for b in blocks]
    p = SetPart(given, dom)
    c.state(kind, tuple(map(tuple, m.blocks())), trivial=not m.blocks())
    c.eq('built', p.blocks, m.blocks(), blocks)
    c.eq('arguments-unchanged', given, blocks)
    if given:
        given[0].append(given[-1][0])
        given.pop()
    views(c, p, m, kind, dom, el)
    if m.blocks():
        over = [list(b) for b in m.blocks()] + [[m.blocks()[0][0], next((e for e in el if e not in m.blocks()[0]), m.blocks()[0][1])]]
        c.raises('refused', lambda: SetPart(over, dom), DuplicateElementsError, over)


@scenario(quick=8, thorough=8)
def all_small(c):
    """every partition of five elements, by every pair merge and every split of a block"""
    def parts(elements):
        if not elements:
            yield []
            return
        first, rest = elements[0], elements[1:]
        for q in parts(rest):
            yield [[first]] + q
            for i in range(len(q)):
                yield q[:i] + [[first] + q[i]] + q[i + 1:]
    alls = list(parts(list(range(5))))
    for q in alls[c.index::c.total]:
        for a, b in combinations(range(5), 2):
            p, m = SetPart(q), RefPart([x for x in q if len(x) > 1])
            p.pairs, p.intval, p.canonical_blocks_with_singletons
            p.merge_pair(a, b)
            m.merge(a, b)
            views(c, p, m, 'N', 'N', list(range(5)))
            c.state('small', tuple(map(tuple, m.blocks())))
