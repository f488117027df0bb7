from discretehelpers.binv import Binv
from discretehelpers.boolf import Boolf
from discretehelpers.boolf.a import (atom_indices_to_sequence, atoms_to_and_gen, atoms_to_eq_gen, atoms_to_esand_gen, atoms_to_gand_gen, atoms_to_or_gen, atoms_to_osand_gen, atoms_to_sand_gen,
                                     atoms_to_xand_gen, atoms_to_xor_gen, boolfs_to_swan, count_split_regions, deflate, exposet_to_twin_gen, flat_to_layered, int_to_rcv, layered_is_greater, mod_tt_neg, mod_tt_perm,
                                     reorder_if_atomvals_not_asc, segment_to_adjacent_spots, sequence_to_entry_counts, sort_each_layer, spotints_to_splits, twin_int, vector_to_twin_gen,
                                     zhe_exposet_to_prefect_gen, zhe_to_prefect, zhe_vector_to_prefect_gen)

from lib import gen
from lib.bf import bits_of, parity, to_int
from lib.core import scenario
from lib.ref import RefF, mobius

PROPERTY = 'H05'
RULE = ('Structured random truth tables of 0 to 7 arguments with unsorted and spread argument lists, all argument sets up to arity 6 for the generators, random splits, segments, layered and nested data; inputs compared with copies afterwards. '
        'The oracle evaluates every place of the table. A state is the helper with table or index; trivial for constant tables.')
REQUIRED = ['deflate', 'reorder', 'perm', 'neg', 'layered', 'layered-places', 'greater', 'sort-layers', 'regions', 'splits', 'rcv', 'rcv-refused', 'segment', 'entry-counts', 'index-sequence', 'generators', 'twin', 'prefect',
            'swan', 'unchanged', 'refused']


def ints(v):
    return [int(b) for b in v]


@scenario(quick=6000, thorough=60000)
def tables(c):
    rng = c.rng
    n = rng.choice([0, 1, 2, 3, 3, 4, 4, 5, 6, 7])
    t = ints(gen.table(rng, n))
    if rng.random() < .5 and n:                   # depend on few arguments only
        keep = rng.randrange(1 << n)
        t = [t[x & keep] for x in range(1 << n)]
    atoms = gen.atoms(rng, n, rng.choice([n, n + 3, 50]))
    c.note(t, atoms)
    c.state('table', tuple(t), tuple(atoms), trivial=len(set(t)) == 1)
    asc = sorted(atoms)
    arg = list(asc)
    b = Binv(t)
    got, at = deflate(b, arg)
    r = RefF(asc, t)
    c.eq('deflate', (ints(got.vector), list(at)), (ints(r.bits), list(r.atoms)), t, asc)
    c.true('unchanged', arg == asc and ints(b.vector) == t, t, asc)
    arg = list(atoms)
    got, at = reorder_if_atomvals_not_asc(b, arg)
    c.true('reorder', list(at) == asc, t, atoms)
    c.eq('reorder', ints(got.vector), reorder(t, atoms), t, atoms)
    c.true('unchanged', arg == atoms and ints(b.vector) == t, t, atoms)
    if n:
        p = gen.perm_seq(rng, n)
        got = mod_tt_perm(rng.choice([Binv(t), list(t)]), list(p))
        c.eq('perm', ints(got.vector), [t[sum((x >> i & 1) << p[i] for i in range(n))] for x in range(1 << n)], t, p)
    m = rng.randrange(1 << n)
    sign = rng.choice([m, bits_of(m, n), Binv(bits_of(m, n))]) if n else m
    got = mod_tt_neg(rng.choice([Binv(t), list(t)]), sign)
    c.eq('neg', ints(got.vector), [t[x ^ m] for x in range(1 << n)], t, m)
    weights = [bin(x).count('1') for x in range(1 << n)]
    vec = [rng.randint(-5, 5) for _ in t] if rng.random() < .4 else t
    c.eq('layered', flat_to_layered(list(vec)), tuple(tuple(v for v, w in zip(vec, weights) if w == k) for k in range(n + 1)), vec)
    c.eq('layered', flat_to_layered(Binv(t)), tuple(tuple(v for v, w in zip(t, weights) if w == k) for k in range(n + 1)), t)
    c.eq('layered-places', flat_to_layered(rng.choice([Binv(t), list(t)]), True),
         {k: tuple([x for x in range(1 << n) if weights[x] == k and t[x] == s] for s in (0, 1)) for k in range(n + 1)}, t)
    if rng.random() < .2:
        c.raises('refused', lambda: flat_to_layered([0, 1, 1]), ValueError)
        c.raises('refused', lambda: deflate(list(t), asc), ValueError)
        c.raises('refused', lambda: reorder_if_atomvals_not_asc(list(t), atoms), ValueError)
    full = [x for x in range(1 << n) if t[x]]
    got = spotints_to_splits(rng.choice([list, set, tuple])(full), n) if n else []
    c.eq('splits', [(set(a), set(b)) for a, b in got], [({x for x in full if x >> i & 1}, {x for x in full if not x >> i & 1}) for i in range(n)], t)
    # transforms: exclusive or over the conjunctions (equivalences) of the argument sets that are marked
    zhe = mobius([bool(v) for v in t])
    form = lambda: rng.choice([Binv(t), list(t), ''.join(map(str, t))])
    if n <= 5:
        c.eq('twin', ints(vector_to_twin_gen(form(), n)), ints(zhe), t)
        c.eq('twin', set(exposet_to_twin_gen(full, n)), {x for x, v in enumerate(zhe) if v}, t)
        c.eq('twin', twin_int(to_int(t), n), to_int(zhe), t)
        xand = lambda s, x: (bin(s & x).count('1') + bin(s).count('1')) % 2 == 0
        pre = [sum(xand(s, x) for s in full) % 2 for x in range(1 << n)]
        c.eq('prefect', ints(zhe_vector_to_prefect_gen(form(), n)), pre, t)
        c.eq('prefect', set(zhe_exposet_to_prefect_gen(full, n)), {x for x, v in enumerate(pre) if v}, t)
        if n:
            walsh = 0
            for s in full:
                walsh ^= s
            c.eq('prefect', tuple(int(v) for v in zhe_to_prefect(to_int(t), n)), (walsh, pre[0]), t)


def reorder(t, atoms):
    """see the documentation of the reordering: the table of [2, 0, 1] is sorted by the bit permutation 0, 1, 2 -> 1, 2, 0"""
    n = len(atoms)
    asc = sorted(atoms)
    rank = [asc.index(a) for a in atoms]
    # digit k of the given index stands for the argument with the k-th place in the order of ranks
    owner = [asc[rank.index(i)] for i in range(n)]
    out = [0] * (1 << n)
    for x in range(1 << n):
        y = sum((x >> k & 1) << asc.index(owner[k]) for k in range(n))
        out[y] = t[x]
    return out


GENS = [
    ('and', atoms_to_and_gen, True, lambda k, n: k == n), ('or', atoms_to_or_gen, False, lambda k, n: k > 0), ('xor', atoms_to_xor_gen, False, lambda k, n: k % 2 == 1),
    ('xand', atoms_to_xand_gen, True, lambda k, n: (n - k) % 2 == 0), ('eq', atoms_to_eq_gen, False, lambda k, n: k in (0, n)), ('sand', atoms_to_sand_gen, False, lambda k, n: k == n - 1),
    ('gand', atoms_to_gand_gen, True, lambda k, n: k >= n - 1),
    ('esand', atoms_to_esand_gen, True, lambda k, n: k == n - 1 or (n % 2 == 0 and k == n)),
    ('osand', atoms_to_osand_gen, False, lambda k, n: k == n - 1 or (n % 2 == 1 and k == n)),
]


@scenario(quick=1500, thorough=10000)
def generators(c):
    rng = c.rng
    k = c.index
    for arity in range(1, 7):
        if k < 1 << arity:
            break
        k -= 1 << arity
    else:
        arity = rng.randint(1, 8)
        k = rng.randrange(1 << arity)
        if rng.random() < .3:                     # nearly all arguments
            arity = rng.randint(7, 9)
            k = (1 << arity) - 1 ^ rng.choice([0, 0, 1 << rng.randrange(arity)])
    atoms = [i for i in range(arity) if k >> i & 1]
    if rng.random() < .5:
        rng.shuffle(atoms)
    signs = rng.random() < .3
    args = [~a if signs and rng.random() < .5 else a for a in atoms]
    c.note(arity, args)
    c.state('gen', arity, tuple(sorted(args)), trivial=not atoms)
    for name, fn, default, rule in GENS:
        want = []
        for x in range(1 << arity):
            true = sum((x >> (a if a >= 0 else ~a) & 1) ^ (a < 0) for a in args)
            want.append(int(rule(true, len(args)) if args else default))
        c.eq('generators', ints(fn(list(args), arity)), want, name, args, arity)


@scenario(quick=6000, thorough=60000)
def small(c):
    rng = c.rng
    n = rng.randint(0, 6)
    full = set(rng.sample(range(1 << n), rng.randint(0, 1 << n)))
    halves = []
    for _ in range(2):
        side = {x for x in full if rng.random() < rng.choice([.1, .5, .9])}
        halves.append((side, full - side))
    (a, b), (d, e) = halves
    c.note(n, halves)
    c.state('regions', len(full), len(a), len(d), trivial=not full)
    c.eq('regions', int(count_split_regions(*halves)), len({(x in a, x in d) for x in full}), halves)
    # rings: the exponents of an integer, the exponents of these, and so on
    v = c.index if c.index < 300 else rng.getrandbits(rng.choice([8, 16, 40]))
    want, cur = [], [v]
    while True:
        cur = [i for m in cur for i in range(m.bit_length()) if m >> i & 1]
        if not cur:
            break
        want.append(len(cur))
    c.eq('rcv', [int(x) for x in int_to_rcv(v)], want, v)
    extra = rng.randint(0, 3)
    c.eq('rcv', [int(x) for x in int_to_rcv(v, len(want) + extra)], want + [0] * extra, v, extra)
    if want:
        c.raises('rcv-refused', lambda: int_to_rcv(v, len(want) - 1), Exception, v)
    seg = [rng.choice([-1, 0, 1]) for _ in range(n)]
    c.eq('segment', segment_to_adjacent_spots(rng.choice([list, tuple])(seg)), [x for x in range(1 << n) if all(s == 0 or (x >> i & 1) == (s == 1) for i, s in enumerate(seg))], seg)
    s = [rng.choice([0, 1, 2, 'a', (1,)]) for _ in range(rng.choice([rng.randint(0, 12), rng.randint(0, 12), rng.randint(13, 150)]))]
    c.eq('entry-counts', list(sequence_to_entry_counts(rng.choice([list, tuple])(s))), [s[:i].count(e) for i, e in enumerate(s)], s)
    k = rng.randint(1, 5)
    idx = rng.sample(range(rng.choice([k, 6])), min(k, 6))
    length = 1 << max(idx) + 1
    got = atom_indices_to_sequence(rng.choice([list, tuple])(idx))
    seq = [sum((x >> a & 1) << i for i, a in enumerate(idx)) for x in range(length)]
    c.eq('index-sequence', list(got), seq, idx)
    rep = rng.choice([1, 2, 4])
    c.eq('index-sequence', list(atom_indices_to_sequence(idx, length * rep)), seq * rep, idx, rep)
    c.raises('refused', lambda: atom_indices_to_sequence(idx + idx[:1]), AssertionError, idx)
    shape = rng.choice([[rng.randint(1, 3) for _ in range(rng.randint(1, 8))], [1, 2, 1], [1, 3, 3, 1], [1, 4, 6, 4, 1], [1, 5, 10, 10, 5, 1]])
    typ = rng.choice([list, tuple])
    x, y = [typ(typ(rng.randint(0, 2) for _ in range(k)) for k in shape) for _ in range(2)]
    if rng.random() < .5:                         # same sums, other arrangement
        y = typ(typ(rng.sample(list(l), len(l))) for l in x)
    elif rng.random() < .5:                       # same total, other sums
        flat = rng.sample([e for l in x for e in l], sum(shape))
        y = typ(typ(flat.pop() for _ in range(k)) for k in shape)
    key = lambda z: (sum(map(sum, z)), [sum(l) for l in z], [list(l) for l in z])
    c.eq('greater', bool(layered_is_greater(x, y)), key(x) > key(y), x, y)
    c.eq('sort-layers', sort_each_layer(x), tuple(tuple(sorted(l)) for l in x), x)


@scenario(quick=1200, thorough=12000)
def distinguished(c):
    rng = c.rng
    n = rng.choice([1, 2, 3, 3, 4, 5])
    top = rng.choice([1, 3, 6, 20])
    if rng.random() < .4:                         # members of one orbit: equal weights, often equal weights of layers
        t = gen.table(rng, n)
        tables = [[t[sum((x >> i & 1) << p[i] for i in range(n)) ^ m] for x in range(1 << n)] for p, m in ((rng.sample(range(n), n), rng.randrange(1 << n)) for _ in range(top))]
    else:
        tables = [gen.table(rng, n) for _ in range(top)]
    tables = sorted({tuple(map(int, t)) for t in tables if RefF(range(n), t).valency == n})
    if not tables:
        return
    rng.shuffle(tables)
    vero = rng.random() < .5
    c.note(tables, vero)
    c.state('distinguished', n, len(tables), vero, trivial=len(tables) == 1)

    def key(t):
        layers = [tuple(v for x, v in enumerate(t) if bin(x).count('1') == k) for k in range(n + 1)]
        if not vero:
            layers = [l[::-1] for l in layers[::-1]]
        return [sum(l) for l in layers], layers

    want = (max if vero else min)(tables, key=key)
    fs = rng.choice([list, tuple])(Boolf(list(t)) for t in tables)
    got = boolfs_to_swan(fs, vero, False)
    c.eq('swan', (ints(got.root.vector), [int(a) for a in got.atomvals]), (list(want), list(range(n))), tables, vero)
