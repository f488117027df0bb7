from math import factorial, lcm

from discretehelpers.boolf import Boolf
from discretehelpers.ex import ArgTooSmallError

from lib import gen, hooks, orbits
from lib.core import scenario
from lib.ref import RefF

PROPERTY = 'F04'
RULE = ('All functions of up to 2 arguments, and structured and random functions of 3 and 4 arguments on dense and spread argument sets, are asked for their family, faction and clan for the smallest and larger arities, abbreviated and not, '
        'for the partitioned clan, the clan matrix, the splinters of the family and the factions of the clan. Every key and label is compared with direct substitution, every class is asked for again from another member. '
        'A state is the class as a set of functions with the way it was asked for; trivial for constants.')
REQUIRED = ['family', 'faction', 'clan', 'faction-abbreviated', 'clan-abbreviated', 'arity-refused', 'member', 'partitioned', 'splinters', 'clan-factions', 'matrix', 'matrix-splinters',
            'matrix-alignment', 'matrix-keys', 'constant', 'label-lookup', 'combinations', 'set-partition-invariant', 'boolf-canonical']


def prepare():
    hooks.install_boolf()
    hooks.install_set_part()


def back(f):
    return RefF([int(a) for a in f.atomvals], f.root.vector)


def draw(c, sizes):
    rng = c.rng
    while True:
        n = rng.choice(sizes)
        r = RefF(sorted(gen.atoms(rng, n, rng.choice([n, n, n + 1]))), gen.table(rng, n))
        if r.atoms:
            return r


def quaternary(rng, kind):
    """function of 4 arguments: any, or with the symmetries that make the classes small and unequal, seen through a signed permutation"""
    values = [rng.randrange(2) for _ in range(32)]
    form = [lambda x: values[bin(x).count('1')], lambda x: values[bin(x).count('1')], lambda x: values[bin(x & 3).count('1') + 3 * bin(x >> 2).count('1')],
            lambda x: values[bin(x & 7).count('1') + 4 * (x >> 3)], lambda x: values[x & 3] ^ values[4 + (x >> 2)], None][kind % 6]
    if form is None:
        return RefF(range(4), gen.table(rng, 4))
    neg, order = rng.randrange(16), rng.sample(range(4), 4)
    return RefF(range(4), [form(sum((x >> order[i] & 1) << i for i in range(4)) ^ neg) for x in range(16)])


def compare(c, monitor, part, want, *ctx):
    """labelled set partition against key -> function"""
    blocks = {}
    for k, f in want.items():
        blocks.setdefault(f, []).append(k)
    c.eq(monitor, set(part.domain), set(want), *ctx)
    c.eq(monitor, [list(b) for b in part.blocks], sorted(sorted(b) for b in blocks.values() if len(b) > 1), *ctx)
    got = {tuple(k): back(f) for k, f in part.block_labels.items()}
    c.eq(monitor, got, {tuple(sorted(b)): f for f, b in blocks.items()}, *ctx)
    f = c.rng.choice(sorted(blocks, key=lambda f: f.key))
    c.eq('label-lookup', part.get_block_from_label(Boolf(list(f.bits), list(f.atoms))), sorted(blocks[f]), *ctx)
    c.eq('label-lookup', back(part.get_label_from_element(blocks[f][-1])), f, *ctx)


@scenario(quick=520, thorough=6000)
def classes(c):
    rng = c.rng
    if c.index < 22:
        n = 1 if c.index < 4 else 2
        k = c.index if n == 1 else c.index - 4
        r = RefF(range(n), [k >> i & 1 for i in range(1 << n)])
    else:
        r = draw(c, [1, 2, 2, 3, 3, 3] if c.index % 20 else [4])
    f = Boolf(list(r.bits), list(r.atoms))
    c.note(repr(r))
    if not r.atoms:
        return constant_case(c, r)
    want = orbits.family(r)
    c.state('family', frozenset(g.key for g in want.values()))
    compare(c, 'family', f.ec_family(), want, r)
    g = rng.choice(list(want.values()))
    other = Boolf(list(g.bits), list(g.atoms))
    c.eq('member', {back(x) for x in other.ec_family().block_labels.values()}, set(want.values()), r, g)

    arity = r.adicity + (rng.choice([0, 0, 1]) if r.adicity < 4 else 0)
    args = () if arity == r.adicity and rng.random() < .5 else (arity,)
    for kind, full, short in (('faction', orbits.faction, orbits.faction_short), ('clan', orbits.clan, orbits.clan_short)):
        method = getattr(f, 'ec_' + kind)
        if kind == 'clan' and arity > 3 and c.index % 4:
            continue
        want = full(r, arity)
        members = set(want.values())
        c.state(kind, arity, frozenset(g.key for g in members))
        if arity == r.valency:
            part = method(*args)
            compare(c, kind, part, want, r, arity)
        else:
            part = method(*args)
            compare(c, kind + '-abbreviated', part, short(r, arity), r, arity)
            from itertools import combinations
            c.eq('combinations', [tuple(x) for x in part.glove_compartment], list(combinations(range(arity), r.valency)), r, arity)
            c.eq(kind + '-abbreviated', {back(x) for x in part.block_labels.values()}, members, r, arity)
            if arity < 4 or kind == 'faction':
                part = method(arity, True)
                compare(c, kind, part, want, r, arity)
        if arity < 4 or kind == 'faction':
            g = rng.choice(sorted(members, key=lambda g: g.key))
            other = Boolf(list(g.bits), list(g.atoms))
            c.eq('member', {back(x) for x in getattr(other, 'ec_' + kind)(arity).block_labels.values()}, members, r, g, kind)
        if r.adicity:
            c.raises('arity-refused', lambda: method(r.adicity - 1), ArgTooSmallError, r, kind)


def constant_case(c, r):
    v = r.bits[0]
    for arity in (None, 0, 1, 2, 3):
        f = Boolf(bool(v))
        for abbreviated in (True, False):
            n = arity or 0
            fac, cla = f.ec_faction(arity, not abbreviated), f.ec_clan(arity, not abbreviated)
            for part in (fac, cla):
                c.eq('constant', [back(x) for x in part.block_labels.values()], [r], arity, abbreviated)
            if not abbreviated:
                c.eq('constant', set(fac.domain), set(range(factorial(n))) if n else {0}, arity)
                c.eq('constant', set(cla.domain), {(m, k) for m in range(1 << n) for k in range(factorial(n))}, arity)
            for part in (fac, cla):
                c.eq('constant', sorted(sum([list(b) for b in part.block_labels], [])), sorted(part.domain), arity, abbreviated)
    c.eq('constant', [back(x) for x in Boolf(bool(v)).ec_family().block_labels.values()], [r])


@scenario(quick=8, thorough=8)
def constants(c):
    constant_case(c, RefF([], [c.index % 2]))


@scenario(quick=90, thorough=1500)
def splinters(c):
    """families of functions with many symmetries, of up to 5 arguments"""
    rng = c.rng
    n = rng.choice([3, 4, 4, 5, 5])
    kind = rng.randrange(3)
    if kind == 0:                                  # symmetric but for some negated arguments
        m, w = rng.randrange(1 << n), [rng.random() < .5 for _ in range(n + 1)]
        t = [w[bin(x ^ m).count('1')] for x in range(1 << n)]
    elif kind == 1:
        m, e, w = rng.randrange(1 << n), rng.randrange(1 << n), [[rng.random() < .5 for _ in range(n + 1)] for _ in range(n + 1)]
        t = [w[bin((x ^ m) & e).count('1')][bin((x ^ m) & ~e).count('1')] for x in range(1 << n)]
    else:
        t = gen.table(rng, n)
    r = RefF(sorted(gen.atoms(rng, n, rng.choice([n, n, n, n + 1, n + 2]))), t)
    if not r.atoms:
        return
    c.note(repr(r))
    want = {}
    for s in orbits.split(set(orbits.family(r).values()), lambda g: [g.substitute([r.atoms[i] for i in p]) for p in orbits.perms(r.valency)]):
        z = sorted(map(orbits.zhe, s))
        want[z[0]] = z
    c.state('splinters', tuple(sorted(want)))
    c.eq('splinters', {k: list(v) for k, v in Boolf(list(r.bits), list(r.atoms)).ec_family_splinters().items()}, want, r)


def reps(functions):
    return min(orbits.zhe(g) for g in functions)


@scenario(quick=220, thorough=3000)
def partitioned(c):
    rng = c.rng
    r = draw(c, [1, 2, 2, 3, 3, 3])
    if r.adicity > 3:
        r = r.root()
    four = c.index % (10 if c.tier == 'quick' else 5) == 0
    if four:
        r = quaternary(rng, c.index // 10)
        if not r.atoms:
            return
        r = r.root()
    f = Boolf(list(r.bits), list(r.atoms))
    c.note(repr(r))
    arity = r.adicity
    everything = orbits.clan(r, arity)
    members = set(everything.values())
    factions = orbits.split(members, lambda g: orbits.faction(g, arity).values())
    families = orbits.split(members, lambda g: orbits.family(g).values())
    c.state('partitioned', frozenset(g.key for g in members))

    rows = {reps(s): sorted(map(orbits.zhe, s)) for s in factions}
    cols = {reps(s): sorted(map(orbits.zhe, s)) for s in families}
    cells = {(a, b): sorted(set(rows[a]) & set(cols[b])) for a in rows for b in cols}
    faction_reps, family_reps, row, col, cell = f.ec_clan_partitioned()
    c.eq('partitioned', list(faction_reps), sorted(rows), r)
    c.eq('partitioned', list(family_reps), sorted(cols), r)
    c.eq('partitioned', {k: list(v) for k, v in row.items()}, rows, r)
    c.eq('partitioned', {k: list(v) for k, v in col.items()}, cols, r)
    c.eq('partitioned', {k: list(v) for k, v in cell.items()}, cells, r)

    own = next(s for s in families if r in s)
    want = {}
    for s in factions:
        z = sorted(orbits.zhe(g) for g in s & own)
        if z:
            want[z[0]] = z
    got = f.ec_family_splinters()
    c.eq('splinters', {k: list(v) for k, v in got.items()}, want, r)
    c.eq('clan-factions', {k: list(v) for k, v in f.ec_clan_factions(arity).items()}, rows, r)
    if arity < 3:
        more = set(orbits.clan(r, arity + 1).values())
        want = {reps(s): sorted(map(orbits.zhe, s)) for s in orbits.split(more, lambda g: orbits.faction(g, arity + 1).values())}
        c.eq('clan-factions', {k: list(v) for k, v in f.ec_clan_factions(arity + 1).items()}, want, r, arity + 1)

    if r.valency != r.adicity or (arity == 4 and not four):
        return
    m = f.ec_clan_matrix()
    c.eq('matrix', list(m[0]), sorted(rows), r)
    c.eq('matrix', list(m[1]), sorted(cols), r)
    c.eq('matrix', {k: list(v) for k, v in m[2].items()}, rows, r)
    c.eq('matrix', {k: list(v) for k, v in m[3].items()}, cols, r)
    c.eq('matrix-splinters', {k: sorted(v) for k, v in m[4].items()}, cells, r)
    sizes = {a: len(cells[a, min(cols)]) for a in rows}
    c.true('matrix-splinters', all(len(v) == sizes[a] for (a, b), v in m[4].items()), r)
    c.eq('matrix-splinters', dict(m[5]), sizes, r)
    c.eq('matrix-splinters', int(m[6]), lcm(*sizes.values()), r)
    # splinters of one family with the same symmetries show them in the same columns
    sym = {}
    for g in members:
        sym[orbits.zhe(g)] = frozenset(n for n, h in orbits.faction(g, arity).items() if h == g)
    for b in cols:
        seen = {}
        for a in rows:
            s = [sym[z] for z in m[4][a, b]]
            key = tuple(sorted(tuple(sorted(x)) for x in s))
            c.eq('matrix-alignment', s, seen.setdefault(key, s), r, a, b)
    c.eq('matrix-keys', dict(m[7]), {a: bin(rows[a][0]).count('1') for a in rows}, r)
    c.true('matrix-keys', all(len({bin(z).count('1') for z in rows[a]}) == 1 for a in rows), r)
    key_neg, val_neg, perm_of, triples = {}, {}, {}, {}
    for (vn, n), g in everything.items():
        p = orbits.perms(arity)[n]
        kn = sum(1 << k for k in range(arity) if vn >> p[k] & 1)
        z = orbits.zhe(g)
        key_neg.setdefault(z, set()).add(kn)
        val_neg.setdefault(z, set()).add(vn)
        perm_of.setdefault(z, set()).add(n)
        triples.setdefault(z, set()).add((kn, n, vn))
    order = lambda d: {k: sorted(v) for k, v in d.items()}
    c.eq('matrix-keys', {k: list(v) for k, v in m[8].items()}, {a: sorted(set().union(*[key_neg[z] for z in rows[a]])) for a in rows}, r)
    c.eq('matrix-keys', {k: list(v) for k, v in m[9].items()}, {b: sorted(set().union(*[perm_of[z] for z in cols[b]])) for b in cols}, r)
    c.eq('matrix-keys', {k: list(v) for k, v in m[10].items()}, order(key_neg), r)
    c.eq('matrix-keys', {k: list(v) for k, v in m[11].items()}, order(val_neg), r)
    c.eq('matrix-keys', {k: [tuple(t) for t in v] for k, v in m[12].items()}, order(triples), r)
