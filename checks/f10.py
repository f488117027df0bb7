from itertools import combinations, product

from discretehelpers.boolf import Boolf
from discretehelpers.boolf.a import segment_to_adjacent_spots
from discretehelpers.ex import ArgMismatchError

from lib import gen, hooks
from lib.bf import back, lib, striped
from lib.core import scenario
from lib.ref import RefF

PROPERTY = 'F10'
RULE = ('All functions of up to 3 arguments and structured random ones of up to 6 (5 for the segments), many made of two-argument clauses so that pairs with three regions, bundles and grids occur; views read in random order. '
        'The oracle enumerates argument sets, clauses and subcubes of the hypercube. A state is the function with the kind of question; trivial for constants.')
REQUIRED = ['hypersplits', 'hypersplits-detailed', 'cores', 'refused', 'bundles', 'bundle-overlaps', 'grids', 'is-bundle', 'gapless', 'segments', 'connected', 'links', 'adjacent', 'pretty', 'boolf-canonical']


def prepare():
    hooks.install_boolf()


def make(c, top, wide=False):
    rng = c.rng
    if c.index < 278:
        return striped(c, rng, gen)
    n = rng.choice([3, 4, 4, 5, top]) if rng.random() < .98 else top + 1
    if wide:
        n = 7
    kind = rng.random()
    if kind < .6:                     # a few forbidden corners of pairs, sometimes some places removed
        t = [True] * (1 << n)
        for _ in range(rng.randint(1, n)):
            i, j = rng.sample(range(n), 2)
            a, b = rng.randrange(2), rng.randrange(2)
            for x in range(1 << n):
                if x >> i & 1 == a and x >> j & 1 == b:
                    t[x] = False
        if rng.random() < .4:
            for _ in range(rng.randint(1, 3)):
                t[rng.randrange(1 << n)] = False
    else:
        t = [rng.random() < rng.choice([.3, .5, .8]) for _ in range(1 << n)]
    return RefF(sorted(gen.atoms(rng, n, rng.choice([n, n, n + 3]) if rng.random() < .95 else 24)), t)


class Geo:
    def __init__(self, r):
        self.n = r.valency
        self.full = [x for x, b in enumerate(r.bits) if b]
        self.col = [tuple(x >> i & 1 for x in self.full) for i in range(self.n)]
        neg = lambda t: tuple(1 - v for v in t)
        pairs = list(combinations(range(self.n), 2))
        self.bloatless = not any(self.col[i] in (self.col[j], neg(self.col[j])) for i, j in pairs)
        self.blightless = self.bloatless and all(len(set(k)) == 2 for k in self.col)
        self.overlap = {p: len(set(zip(self.col[p[0]], self.col[p[1]]))) for p in pairs}

    def blocks(self, keys):
        out = {}
        for x in self.full:
            out.setdefault(tuple(x >> k & 1 for k in keys), []).append(x)
        return out


@scenario(quick=8000, thorough=60000)
def splits(c):
    rng = c.rng
    r = make(c, 6)
    f = lib(r)
    g = Geo(r)
    n = g.n
    c.state('splits', r.key, trivial=n == 0)
    c.note(repr(r))
    if not g.blightless:
        c.raises('refused', lambda: f.hypersplits, ValueError, r)
        c.raises('refused', lambda: f.gapless_boolf, ValueError, r)
        c.raises('refused', lambda: f.bundle_grid_partitions, ValueError, r)
    if not g.bloatless:
        c.raises('refused', lambda: f.bundles, ValueError, r)
        c.raises('refused', lambda: f.bundle_overlap_counts, ValueError, r)
        return
    shattered = {k: [list(s) for s in combinations(range(n), k) if len(g.blocks(s)) == 1 << k] for k in range(1, n + 1)}
    shattered = {1: [], **{k: v for k, v in shattered.items() if v}}

    def hyper():
        got = f.hypersplits
        c.eq('hypersplits', sorted(got), sorted(shattered), r)
        for k, lst in got.items():
            c.eq('hypersplits', sorted(d['atomkeys'] for d in lst), shattered[k], r, k)
            for d in lst:
                c.eq('hypersplits', sorted(d['setpart'].blocks_with_singletons(elements=g.full)), sorted(g.blocks(d['atomkeys']).values()), r, d['atomkeys'])

    def detailed():
        got = f.hypersplits_detailed
        c.eq('hypersplits-detailed', sorted(got), sorted(shattered), r)
        for k, lst in got.items():
            c.eq('hypersplits-detailed', sorted(d['atomkeys'] for d in lst), shattered[k], r, k)
            for d in lst:
                c.eq('hypersplits-detailed', d['setpart'], {''.join(map(str, v)): b for v, b in g.blocks(d['atomkeys']).items()}, r, d['atomkeys'])

    def cores():
        got = f.hypersplits_potential_cores
        c.eq('cores', sorted(got), sorted(shattered), r)
        for k, lst in got.items():
            c.eq('cores', sorted(d['fixed'] for d in lst), shattered[k], r, k)
            for d in lst:
                det = {}
                for e in range(n):
                    if e in d['fixed']:
                        continue
                    for a in d['fixed']:
                        seen = set(zip(g.col[a], g.col[e]))
                        for (va, ve) in product((0, 1), repeat=2):
                            if (va, ve) not in seen:         # where a has this value, e has the other one
                                det[e] = -1 if ve else 1
                free = [e for e in range(n) if e not in d['fixed'] and e not in det]
                c.eq('cores', d['determined'], det, r, d['fixed'])
                c.eq('cores', sorted(d['free']), free, r, d['fixed'])
                want = [[0 if e in d['fixed'] else det[e] if e in det else s[free.index(e)] for e in range(n)] for s in product((-1, 1), repeat=len(free))]
                c.eq('cores', sorted(list(v) for v in d['vectors']), sorted(want), r, d['fixed'])

    comp = []
    for i in range(n):
        linked = [b for b in comp if any(g.overlap[tuple(sorted((i, j)))] == 4 for j in b)]
        comp = [b for b in comp if b not in linked] + [sorted(sum(linked, [i]))]
    comp.sort()

    def bundles():
        c.eq('bundles', f.bundles, comp, r)
        c.eq('is-bundle', bool(f.is_bundle), len(comp) == 1, r)
        c.eq('bundle-overlaps', f.bundle_overlap_counts, {tuple(b): {k: [p for p in combinations(b, 2) if g.overlap[p] == k] for k in (3, 4)} for b in comp}, r)

    def grids():
        got = f.bundle_grid_partitions
        c.eq('grids', sorted(got), [tuple(b) for b in comp], r)
        for b in comp:
            part = []
            for i in b:
                linked = [p for p in part if any(g.overlap[tuple(sorted((i, j)))] == 3 for j in p)]
                part = [p for p in part if p not in linked] + [sorted(sum(linked, [i]))]
            c.eq('grids', got[tuple(b)].blocks, sorted(p for p in part if len(p) > 1), r, b)

    def gapless():
        def fn(x):
            for (i, j), k in g.overlap.items():
                if k == 3 and (x >> r.atoms[i] & 1, x >> r.atoms[j] & 1) not in set(zip(g.col[i], g.col[j])):
                    return False
            return True
        c.eq('gapless', back(f.gapless_boolf), RefF.of(r.atoms, fn), r)

    names = rng.choice([None, rng.sample([f'n{i}' for i in range(n)], n)])
    nm = names or [chr(65 + a) for a in r.atoms]
    arg = [] if names is None else [names]

    def pretty_bundles():
        c.eq('pretty', f.bundles_pretty(*arg), [[nm[k] for k in b] for b in comp], r, names)
        c.eq('pretty', f.fullspot_atoms_pretty(*arg), {x: [nm[k] for k in range(n) if x >> k & 1] for x in g.full}, r, names)

        if names and n > 1:
            for method in (f.bundles_pretty, f.fullspot_atoms_pretty) + ((f.hypersplits_pretty, f.hypersplits_potential_cores_pretty) if g.blightless else ()):
                c.raises('pretty', lambda: method(rng.choice([names[1:], names[1:] + names[1:2], names + ['more']])), ArgMismatchError, r, names)

    def pretty_hyper():
        got = f.hypersplits_pretty(*arg)
        want = {k: [{' '.join('−+'[v] + nm[a] for v, a in zip(vs, s)): b for vs, b in g.blocks(s).items()} for s in lst] for k, lst in shattered.items()}
        key = lambda d: sorted(d.items())
        c.eq('pretty', {k: sorted(v, key=key) for k, v in got.items()}, {k: sorted(v, key=key) for k, v in want.items()}, r, names)
        got = f.hypersplits_potential_cores_pretty(*arg)
        raw = f.hypersplits_potential_cores
        c.eq('pretty', sorted(got), sorted(raw), r)
        sign = {-1: '−', 0: '0', 1: '+'}
        for k in raw:
            c.eq('pretty', got[k], [{'fixed': ''.join(nm[a] for a in d['fixed']), 'free': ''.join(nm[a] for a in d['free']),
                                     'determined': ' '.join(nm[a] + sign[v] for a, v in d['determined'].items()),
                                     'vectors': [''.join(sign[e] for e in v) for v in d['vectors']]} for d in raw[k]], r, k)

    sections = [bundles, pretty_bundles] + ([pretty_hyper, hyper, detailed, cores, grids, gapless] if g.blightless else [])
    rng.shuffle(sections)
    for s in sections:
        s()


@scenario(quick=5000, thorough=40000)
def segments(c):
    rng = c.rng
    r = make(c, 5, wide=c.index % 200 == 0)
    f = lib(r)
    n = r.valency
    full = {x for x, b in enumerate(r.bits) if b}
    c.state('segments', r.bits, trivial=n == 0)
    c.note(repr(r))
    cubes = {k: set() for k in range(n + 1)}
    for v in product((-1, 0, 1), repeat=n):
        free = [i for i in range(n) if v[i] == 0]
        base = sum(1 << i for i in range(n) if v[i] == 1)
        spots = [base + sum(1 << i for i in s) for k in range(len(free) + 1) for s in combinations(free, k)]
        if all(x in full for x in spots):
            cubes[len(free)].add(v)
        if rng.random() < .02:
            c.eq('adjacent', segment_to_adjacent_spots(rng.choice([list, tuple])(v)), sorted(spots), v)
    connected, col = f.find_segments()
    c.eq('segments', col.number_by_dimension, [len(cubes[k]) for k in range(n + 1)], r)
    if hasattr(col, 'segments'):
        c.eq('segments', {k: set(v) for k, v in col.segments.items() if v}, {k: v for k, v in cubes.items() if v}, r)
    c.eq('links', col.get_spots(), full, r)
    edges = {i: {(x, x | 1 << i) for x in full if not x >> i & 1 and x | 1 << i in full} for i in range(n)}
    c.eq('links', {k: v for k, v in col.get_links().items() if v}, {k: v for k, v in edges.items() if v}, r)
    squares = {}
    for i in range(n):
        for j in range(n):
            for (x, y) in edges[i]:
                if i != j and not x >> j & 1 and (x | 1 << j, y | 1 << j) in edges[i]:
                    squares.setdefault(i, set()).add(frozenset([(x, y), (x | 1 << j, y | 1 << j)]))
    c.eq('links', {k: {frozenset(p) for p in v} for k, v in col.get_neighboring_links().items() if v}, squares, r)
    ok = components(full, [e for es in edges.values() for e in es]) == 1 and all(components(edges[i], [tuple(p) for p in squares.get(i, ())]) <= 1 for i in range(n))
    c.eq('connected', bool(connected), ok, r)


def components(nodes, edges):
    left = {v: {v} for v in nodes}
    for a, b in edges:
        if left[a] is not left[b]:
            left[a] |= left[b]
            for v in left[b]:
                left[v] = left[a]
    return len({id(s) for s in left.values()})
