from itertools import combinations

from discretehelpers.boolf import Boolf
from discretehelpers.ex import ArgMismatchError

from lib import gen, hooks
from lib.bf import back, lib, striped
from lib.core import scenario
from lib.ref import RefF

PROPERTY = 'F08'
RULE = ('All functions of up to 3 arguments and random ones of up to 6 with forced equalities, complementarities and constants among the arguments (conjunctions of such relations with a random function), dense and spread; views are read in random order. '
        'The oracle tabulates every argument on the true places. A state is the signature of relations with the reduced function; trivial for constants.')
REQUIRED = ['splits', 'overlaps', 'equal', 'onesided', 'blocks', 'combined', 'bloat', 'blot', 'blight', 'flags', 'bloatless', 'blightless', 'recombine', 'idempotent', 'bloatless-spot', 'blightless-spot', 'spot-refused', 'inflated', 'boolf-canonical']


def prepare():
    hooks.install_boolf()


def make(c):
    rng = c.rng
    if c.index < 278 or rng.random() < .15:
        return striped(c, rng, gen)
    n = rng.choice([3, 4, 4, 5, 5, 6]) if rng.random() < .97 else rng.choice([7, 8, 8, 9, 10])
    t = gen.table(rng, n)
    for _ in range(rng.choice([1, 1, 2, 3])):
        kind = rng.choice(['eq', 'comp', 'const', 'imp'])
        i, j = rng.sample(range(n), 2)
        v = rng.randrange(2)
        for x in range(1 << n):
            a, b = x >> i & 1, x >> j & 1
            if (kind == 'eq' and a != b) or (kind == 'comp' and a == b) or (kind == 'const' and a != v) or (kind == 'imp' and a and not b):
                t[x] = False
    return RefF(sorted(gen.atoms(rng, n, rng.choice([n, n, n + 2]) if rng.random() < .95 else rng.choice([20, 70, 300]))), t)


def relations(r):
    """columns: value of every argument on the ascending true places"""
    full = [x for x, b in enumerate(r.bits) if b]
    return full, [tuple(x >> i & 1 for x in full) for i in range(r.valency)]


@scenario(quick=6000, thorough=60000)
def decomposition(c):
    rng = c.rng
    r = make(c)
    f = lib(r)
    n = r.valency
    full, col = relations(r)
    neg = lambda t: tuple(1 - v for v in t)
    one = [i for i in range(n) if len(set(col[i])) == 1]
    eq = lambda i, j: col[i] == col[j]
    comp = lambda i, j: col[i] == neg(col[j])
    same = lambda i, j: eq(i, j) or comp(i, j)
    blocks = []
    for i in range(n):
        for b in blocks:
            if same(b[0], i):
                b.append(i)
                break
        else:
            blocks.append([i])
    sig = tuple(tuple(('=' if eq(i, j) else '~' if comp(i, j) else '.') for j in range(i)) for i in range(n))
    c.state(sig, tuple(one), r.bits, trivial=n == 0)
    c.note(repr(r))
    overlap = lambda i, j: len(set(zip(col[i], col[j])))
    sides = [({x for x in full if x >> i & 1}, {x for x in full if not x >> i & 1}) for i in range(n)]
    pairs = list(combinations(range(n), 2))
    bloat_ref = RefF.of(r.atoms, lambda x: all((x >> r.atoms[i] & 1) == (x >> r.atoms[j] & 1) for i, j in pairs if eq(i, j))
                        and all((x >> r.atoms[i] & 1) != (x >> r.atoms[j] & 1) for i, j in pairs if comp(i, j)))
    blot_ref = RefF.of(r.atoms, lambda x: all(x >> r.atoms[i] & 1 == col[i][0] for i in one))

    def splits():
        c.eq('splits', [(set(a), set(b)) for a, b in f.splits], sides, r)
        c.eq('overlaps', f.splits_overlap_counts, {p: overlap(*p) for p in pairs}, r)
        c.eq('overlaps', sorted(f.split_pairs_with_3_overlaps), [p for p in pairs if overlap(*p) == 3], r)
        if n:
            keys = rng.sample(range(n), rng.randint(1, n))
            groups = {}
            for x in full:
                groups.setdefault(tuple(x >> k & 1 for k in keys), []).append(x)
            c.eq('combined', f.splits_combined(keys), sorted(groups.values()), r, keys)

    def equal():
        c.eq('equal', f.splits_equal, {p: same(*p) for p in pairs}, r)
        c.eq('onesided', f.splits_onesided, [i in one for i in range(n)], r)
        c.eq('onesided', f.onesided_atomkeys, one, r)
        c.eq('onesided', f.onesided_is_universe, {i: col[i][0] == 1 for i in one}, r)

    def classes():
        got = f.splits_equality_blocks
        c.eq('blocks', sorted(got), blocks, r)
        c.eq('blocks', f.number_of_distinct_splits, len(blocks), r)
        pref = f.splits_preferred_side
        c.eq('blocks', len(pref), len(got), r)
        reps = []
        for b, p in zip(got, pref):
            others = [i for i in b if not eq(i, b[0])]
            if not others:
                c.eq('blocks', p, None, r, b)
                reps.append(b[0])
            else:
                one_sided = len(set(col[b[0]])) == 1
                # the side that is always true, otherwise the one that contains the smallest true place
                want = b[0] if col[b[0]][0] == 1 else others[0]
                c.eq('blocks', p, want, r, b, 'one-sided' if one_sided else 'two-sided')
                reps.append(p)
        c.eq('blocks', reps, sorted(reps), r)
        c.eq('blocks', f.bloatless_atomkeys_undeflated, reps, r)

    def bloat():
        sp = f.bloat
        for i, j in pairs:
            c.eq('bloat', (bool(sp.are_equal(i, j)), bool(sp.are_comp(i, j))), (eq(i, j), comp(i, j)), r, i, j)
        c.eq('bloat', back(f.bloat_boolf), bloat_ref, r)
        c.eq('flags', bool(f.is_bloatless), not any(same(i, j) for i, j in pairs), r)

    def blot():
        sp = f.blot
        for i in range(n):
            c.eq('blot', (bool(sp.are_equal(-1, i)), bool(sp.are_comp(-1, i))), (i in one and col[i][0] == 1, i in one and col[i][0] == 0), r, i)
        c.eq('blot', back(f.blot_boolf), blot_ref, r)
        c.eq('flags', bool(f.is_blotless), not one, r)

    def blight():
        sp = f.blight
        for i, j in pairs:
            c.eq('blight', (bool(sp.are_equal(i, j)), bool(sp.are_comp(i, j))), (eq(i, j), comp(i, j)), r, i, j)
        for i in range(n):
            c.eq('blight', (bool(sp.are_equal(-1, i)), bool(sp.are_comp(-1, i))), (i in one and col[i][0] == 1, i in one and col[i][0] == 0), r, i)
        c.eq('blight', back(f.blight_boolf), bloat_ref & blot_ref, r)
        c.eq('flags', bool(f.is_blightless), not one and not any(same(i, j) for i, j in pairs), r)

    def bloatless():
        g = back(f.bloatless_boolf)
        keys = f.bloatless_atomkeys_deflated
        c.eq('bloatless', [r.atoms[k] for k in keys], g.atoms, r)
        if n:
            c.eq('recombine', g & bloat_ref, r, g)
            c.eq('bloatless', sorted(set(keys)), keys, r)
            c.true('bloatless', set(keys) <= {(p if p is not None else b[0]) for b, p in zip(f.splits_equality_blocks, f.splits_preferred_side)}, r)
        h = f.bloatless_boolf
        c.true('idempotent', h.is_bloatless and h.bloatless_boolf == h, r, g)

    def blightless():
        g = back(f.blightless_boolf)
        if n:
            c.eq('recombine', g & bloat_ref & blot_ref, r, g)
            c.eq('blightless', [r.atoms[k] for k in f.blightless_atomkeys], g.atoms, r)
            c.true('blightless', not set(f.blightless_atomkeys) & set(one), r)
        else:
            c.eq('recombine', g, r)
        h = f.blightless_boolf
        c.true('idempotent', h.is_blightless and h.blightless_boolf == h, r, g)

    def spots():
        if not n:
            return
        g = back(f.blightless_boolf)
        gb = back(f.bloatless_boolf)
        for x in range(1 << n) if n <= 4 else rng.sample(range(1 << n), 12) + full[:6]:
            fits_bloat = all((x >> i & 1) == (x >> j & 1) for i, j in pairs if eq(i, j)) and all((x >> i & 1) != (x >> j & 1) for i, j in pairs if comp(i, j))
            fits_blot = all(x >> i & 1 == col[i][0] for i in one)
            if not fits_bloat:
                c.raises('spot-refused', lambda: f.bloatless_spotint(x), ValueError, r, x)
                c.raises('spot-refused', lambda: f.blightless_spotint(x), ValueError, r, x)
                continue
            reps = f.bloatless_atomkeys_undeflated
            c.eq('bloatless-spot', f.bloatless_spotint(x), sum((x >> k & 1) << i for i, k in enumerate(reps)), r, x)
            if not fits_blot:
                c.raises('spot-refused', lambda: f.blightless_spotint(x), ValueError, r, x)
                continue
            y = f.blightless_spotint(x)
            c.eq('blightless-spot', y, sum((x >> k & 1) << i for i, k in enumerate(f.blightless_atomkeys)), r, x)
            c.eq('blightless-spot', g.bits[y], r.bits[x], r, x, 'the reduced function at the reduced place')
        c.raises('spot-refused', lambda: f.bloatless_spotint((1 << n) + rng.randrange(4)), ValueError, r)

    def inflated():
        at = list(r.atoms) + rng.sample([a for a in range(14) if a not in r.atoms], rng.choice([0, 1, 2]))
        rng.shuffle(at)
        c.eq('inflated', set(f.inflated_fullspots(rng.choice([list, tuple, set])(at))), {x for x, b in enumerate(r.table_on(at)) if b}, r, at)
        if n:
            c.raises('inflated', lambda: f.inflated_fullspots(list(r.atoms[:-1])), ArgMismatchError, r)

    sections = [splits, equal, classes, bloat, blot, blight, bloatless, blightless, spots, inflated]
    rng.shuffle(sections)
    for s in sections:
        s()


