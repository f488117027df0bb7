from discretehelpers.perm import Perm
from discretehelpers.perm.ex import LengthTooSmallError, LengthMismatchPerilenError, NotPeriodicError

from lib import hooks, gen
from lib.core import scenario
from lib.ref import RefPerm

PROPERTY = 'P02'
RULE = ('Each case draws one function on the naturals (finite up to 40 places, or periodic) and builds it from all equivalent descriptions: sequences with '
        'padding, rotated and shuffled cycles with trivial ones, mappings with fixed points, multiples of the period. All views are read in random order and compared '
        'with a function table. A state is (sequence, period); trivial for the neutral permutation.')
REQUIRED = ['entries', 'slice', 'sequence', 'sequence-refused', 'mapping', 'moved', 'length', 'period', 'cycles', 'cycles_dynamic', 'cycle_partition',
            'apply_on_vector', 'equal', 'different', 'hash', 'eval-str', 'perm-invariant']


def prepare():
    hooks.install_perm()


def descriptions(rng, r):
    """constructor arguments (arg, perilen, text) that all denote r"""
    out = []
    base = len(r.seq)

    def cyc(seq):
        cs = RefPerm(seq).cycles()
        cs = [k[i:] + k[:i] for k in cs for i in [rng.randrange(len(k))]]
        fixed = [i for i, e in enumerate(seq) if i == e]
        rng.shuffle(cs)
        if fixed and rng.random() < .5:
            cs.insert(rng.randint(0, len(cs)), [rng.choice(fixed)])
        if rng.random() < .1:
            cs.insert(rng.randint(0, len(cs)), [])
        return cs

    def maps(seq):
        items = [(i, e) for i, e in enumerate(seq) if i != e or rng.random() < .3]
        rng.shuffle(items)
        return dict(items)

    if r.neutral:
        n = rng.randint(0, 6)
        out += [(None, None, 'nothing'), ([], None, 'empty list'), (list(range(n)), None, 'identity sequence'), ([[3], [5]], None, 'trivial cycles'),
                ({}, None, 'empty dict'), ({4: 4}, None, 'fixed dict'), (list(range(4)), 4, 'periodic identity'), ([[0]], 7, 'trivial cycle, period')]
        return out
    for _ in range(2):
        if r.per is None:
            seq, per = r.seq + list(range(base, base + rng.choice([0, 0, 1, 3]))), None
        else:
            per = r.per * rng.choice([1, 2, 3, 4])
            seq = r.table(per)
        out.append((list(seq), per, 'sequence'))
        out.append((tuple(seq), per, 'tuple'))
        out.append((cyc(seq), per, 'cycles'))
        out.append((maps(seq), per, 'mapping'))
    return out


@scenario(quick=9000, thorough=80000)
def views(c):
    rng = c.rng
    periodic = rng.random() < .55
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 24]) if not periodic else rng.choice([2, 3, 4, 5, 6, 8, 9, 12])
    if rng.random() < .01:
        n = rng.randint(25, 150)
    s = gen.perm_seq(rng, n)
    per = None
    if periodic:
        if rng.random() < .4:
            s = s + list(range(n, n + rng.randint(1, 6)))
        per = len(s)
        if rng.random() < .3:            # repeated with one block disturbed: nearly a smaller period
            k = rng.choice([2, 2, 3, 3, 4, 5, 7])
            s = [e + j * per for j in range(k) for e in s]
            per *= k
            if rng.random() < .4:        # later blocks turned, with the same number of moved points
                cut = rng.randrange(per)
                part, turn = s[cut:], rng.randint(1, 3)
                if sorted(part) == list(range(cut, per)):
                    m = per - cut
                    new = [None] * m
                    for i, e in enumerate(part):
                        new[(i + turn) % m] = cut + (e - cut + turn) % m
                    s[cut:] = new
            elif rng.random() < .5:
                i, j = rng.sample(range(per), 2)
                s[i], s[j] = s[j], s[i]
    r = RefPerm(s, per)
    c.state(*r.key(), trivial=r.neutral)
    ps = []
    for arg, perilen, text in descriptions(rng, r):
        frozen = repr(arg)
        p = Perm(arg, perilen)
        c.eq('argument-unchanged', repr(arg), frozen, text)
        ps.append((p, f'{text} {frozen}, perilen={perilen}'))
        check_views(c, p, r, ps[-1][1])
    p0, t0 = ps[0]
    c.sample(f'{p0} from {len(ps)} descriptions')
    for p, t in ps[1:]:
        c.true('equal', p == p0 and p0 == p and not p != p0, t0, t)
        c.true('hash', hash(p) == hash(p0) and str(p) == str(p0), t0, t)
    # another function is told apart
    far = (r.per or len(r.seq)) + 3
    if r.per is None:
        i, j = rng.sample(range(max(far, 2)), 2)
        o = r.table(max(far, 2))
        o[i], o[j] = o[j], o[i]
        other, q = RefPerm(o), Perm(o)
    else:
        m = r.per * rng.choice([1, 2, 3])
        if m < 2:
            return
        i, j = rng.sample(range(m), 2)
        o = r.table(m)
        o[i], o[j] = o[j], o[i]
        other, q = RefPerm(o, m), Perm(o, perilen=m)
    same = other.key() == r.key()
    c.eq('different', [bool(q == p0), bool(p0 == q), q != p0, p0 != q], [same, same, not same, not same], str(q), str(p0))
    c.eq('different', str(q) == str(p0), other.key() == r.key(), str(q), str(p0))
    if r.per is not None:                # finite permutation with the same mapping
        c.true('different', Perm(r.seq) != p0 and p0 != Perm(r.seq) and str(Perm(r.seq)) != str(p0), str(p0))


def check_views(c, p, r, text):
    rng = c.rng
    size = len(r.seq)

    def v_entries():
        n = min(3 * size + 4, 120)
        c.eq('entries', [p[i] for i in range(n)], r.table(n), text)
        far = rng.randrange(10**6) if rng.random() < .5 else rng.getrandbits(rng.choice([31, 32, 53, 63, 64, 65, 130]))
        c.eq('entries', p[far], r(far), far, text)

    def v_slice():
        a, b, st = rng.randint(0, size + 2), rng.randint(0, 2 * size + 4), rng.randint(1, 3)
        c.eq('slice', p[a:b:st], [r(i) for i in range(a, b, st)], a, b, st, text)
        c.eq('slice', p[b:a:-st], [r(i) for i in range(b, a, -st)], b, a, -st, text)
        c.eq('slice', p[:b], r.table(b), b, text)
        c.eq('slice', p[a:], [r(i) for i in range(a, size)], a, text)
        c.eq('slice', p[:], r.table(size), text)

    def v_sequence():
        c.eq('sequence', p.sequence(), r.seq, text)
        if r.per is None:
            k = size + rng.randint(0, 5)
            c.eq('sequence', p.sequence(k), r.table(k), k, text)
            if size:
                k = rng.randrange(size)
                c.raises('sequence-refused', lambda: p.sequence(k), LengthTooSmallError, k, text)
        else:
            k = r.per * rng.randint(1, 4)
            c.eq('sequence', p.sequence(k), r.table(k), k, text)
            k += rng.randint(1, r.per - 1)
            c.raises('sequence-refused', lambda: p.sequence(k), LengthMismatchPerilenError, k, text)

    def v_cycles():
        c.eq('cycles', p.cycles, r.cycles(), text)

    def v_cycles_dynamic():
        if r.per is None:
            c.raises('cycles_dynamic', lambda: p.cycles_dynamic(), NotPeriodicError, text)
            return
        c.eq('cycles_dynamic', p.cycles_dynamic(), r.cycles(), text)
        k = rng.randint(1, 4) if rng.random() < .95 else rng.randint(5, 40)
        want = [[e + j * r.per for e in cyc] for j in range(k) for cyc in r.cycles()]
        c.eq('cycles_dynamic', p.cycles_dynamic(k * r.per), want, k, text)
        bad = k * r.per + rng.randint(1, r.per - 1)
        c.raises('cycles_dynamic', lambda: p.cycles_dynamic(bad), LengthMismatchPerilenError, bad, text)

    def v_apply():
        k = size + rng.randint(0, 3) if r.per is None else r.per * rng.randint(1, 3)
        vec = [f'x{i}' for i in range(k)]
        want = [None] * k
        for i in range(k):
            want[r(i)] = vec[i]
        got = p.apply_on_vector(vec)
        c.true('apply_on_vector', type(got) is list, text)
        c.eq('apply_on_vector', got, want, text)
        c.eq('apply_on_vector', p.apply_on_vector(tuple(vec)), want, text)
        c.eq('apply_on_vector', vec, [f'x{i}' for i in range(k)], 'argument changed', text)

    def v_str():
        s = str(p)
        c.eq('repr', repr(p), s)
        q = eval(s, {'Perm': Perm})
        c.true('eval-str', q == p and str(q) == s and hash(q) == hash(p), s, text)
        n = min(2 * size + 4, 120)
        c.eq('eval-str', [q[i] for i in range(n)], r.table(n), s, text)

    tests = [
        v_entries, v_slice, v_sequence, v_cycles, v_cycles_dynamic, v_apply, v_str,
        lambda: c.eq('mapping', dict(p.mapping), {i: r(i) for i in r.moved()}, text),
        lambda: c.eq('moved', set(p.moved), r.moved(), text),
        lambda: c.eq('length', int(p.length), size, text),
        lambda: c.eq('period', None if p.perilen is None else int(p.perilen), r.per, text),
        lambda: c.eq('neutral', bool(p.neutral), r.neutral, text),
        lambda: c.eq('cycle_partition', p.cycle_partition.blocks, sorted(sorted(k) for k in r.cycles()), text),
    ]
    rng.shuffle(tests)
    for t in tests[:rng.randint(6, len(tests))]:
        t()
