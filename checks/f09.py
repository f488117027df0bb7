from itertools import combinations, permutations

from discretehelpers.boolf import Boolf
from discretehelpers.boolf.ex import NotPairOfAtomKeysError

from lib import gen, hooks
from lib.bf import back, lib, striped
from lib.core import scenario
from lib.ref import RefF

PROPERTY = 'F09'
RULE = ('All functions of up to 3 arguments and structured random ones of up to 6, sparse ones preferred, dense and spread, with every ordered pair of arguments and random (also unsorted) argument lists. '
        'The oracle is the existential projection computed point by point. A state is the function with the argument list; trivial for constants.')
REQUIRED = ['filtrate', 'implied', 'compose', 'refused', 'pairs', 'pair', 'subset', 'intersect', 'crossing', 'border', 'crossing-atoms', 'not-a-pair', 'pretty', 'boolf-canonical']


def prepare():
    hooks.install_boolf()


def project(r, atoms):
    atoms = sorted(atoms)
    ok = set()
    for x, b in enumerate(r.bits):
        if b:
            ok.add(tuple(x >> r.atoms.index(a) & 1 for a in atoms))
    return RefF(atoms, [tuple(y >> k & 1 for k in range(len(atoms))) in ok for y in range(1 << len(atoms))])


def make(c):
    rng = c.rng
    if c.index < 278 or rng.random() < .3:
        return striped(c, rng, gen)
    n = rng.choice([3, 4, 5, 6]) if rng.random() < .97 else rng.choice([7, 8, 9])
    p = rng.choice([.08, .15, .3])
    return RefF(sorted(gen.atoms(rng, n, rng.choice([n, n + 3]) if rng.random() < .95 else 24)), [rng.random() < p for _ in range(1 << n)])


@scenario(quick=8000, thorough=60000)
def filtrates(c):
    rng = c.rng
    r = make(c)
    f = lib(r)
    c.note(repr(r))
    for _ in range(3):
        at = rng.sample(r.atoms, rng.randint(0, r.valency))
        if rng.random() < .4:
            at.sort()
        c.state(r.key, tuple(at), trivial=not r.atoms)
        g = f.filtrated_boolf(rng.choice([list, tuple])(at))
        want = project(r, at)
        c.eq('filtrate', back(g), want, r, at)
        c.true('implied', f.bitwise_le(g), r, at)
        sub = [a for a in at if rng.random() < .6]
        sub2 = [a for a in sub if a in want.atoms]
        # filtrating twice is filtrating once (arguments the first filtrate lost play no part)
        c.eq('compose', back(g.filtrated_boolf(sub2)), project(r, sub), r, at, sub)
    outside = rng.choice([a for a in range(16) if a not in r.atoms])
    c.raises('refused', lambda: f.filtrated_boolf([*r.atoms[:1], outside]), ValueError, r, outside)


@scenario(quick=8000, thorough=60000)
def pairs(c):
    rng = c.rng
    r = make(c)
    f = lib(r)
    n = r.valency
    c.note(repr(r))
    full = [x for x, b in enumerate(r.bits) if b]

    def string(i, j):
        seen = {(x >> i & 1) + 2 * (x >> j & 1) for x in full}
        return ''.join('1' if k in seen else '0' for k in range(4))

    def table():
        c.eq('pairs', f.filtrated_pairs, {p: string(*p) for p in combinations(range(n), 2)}, r)

    def ordered():
        for i, j in permutations(range(n), 2):
            s = string(i, j)
            c.state('pair', s, i < j)
            c.eq('pair', f.filtrated_pair(i, j), s, r, i, j)
            c.eq('subset', bool(f.atom_pair_subset(i, j)), s == '1011', r, i, j)
            c.eq('intersect', bool(f.atom_pair_intersect(i, j)), s == '0111', r, i, j)
            c.eq('crossing', bool(f.atom_pair_crossing(i, j)), s == '1111', r, i, j)
            if s == '1111':
                c.raises('border', lambda: f.atom_border_in_atom_side(i, j), ValueError, r, i, j)
            else:
                c.eq('border', bool(f.atom_border_in_atom_side(i, j)), s in ('1011', '0111'), r, i, j)

    def crossing():
        c.eq('crossing-atoms', f.atom_to_crossing_atoms, {i: [j for j in range(n) if j != i and string(i, j) == '1111'] for i in range(n)}, r)

    def pretty():
        names = rng.choice([None, None, rng.sample([f'n{i}' for i in range(n)], n), list(range(n))])
        got = f.filtrated_pairs_pretty() if names is None else f.filtrated_pairs_pretty(names)
        nm = names or [chr(65 + a) for a in r.atoms]
        words = {'1111': 'crossing', '1110': 'disjoint', '0111': 'universal', '0110': 'complementary', '1001': 'equal', '1011': 'subset', '1101': 'subset'}
        want = {}
        for i, j in combinations(range(n), 2):
            k = string(i, j)
            want.setdefault(words.get(k, k), []).append((nm[j], nm[i]) if k == '1101' else (nm[i], nm[j]))
        c.eq('pretty', {k: sorted(v) for k, v in got.items()}, {k: sorted(v) for k, v in want.items()}, r, names)
        if names and n > 1:
            c.raises('pretty', lambda: f.filtrated_pairs_pretty(names[:-1] + names[:1]), Exception, r)

    sections = [table, ordered, crossing, pretty]
    rng.shuffle(sections)
    for s in sections:
        s()
    if n:
        i = rng.randrange(n)
        for fn in (f.atom_pair_subset, f.atom_pair_intersect, f.atom_pair_crossing, f.atom_border_in_atom_side):
            c.raises('not-a-pair', lambda: fn(i, i), NotPairOfAtomKeysError, r)
            c.raises('not-a-pair', lambda: fn(i, n), NotPairOfAtomKeysError, r)
