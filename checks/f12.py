from itertools import permutations

from discretehelpers.boolf import Boolf
from discretehelpers.boolf.a import apply_sigperm_to_colors, spread_sigperm_to_sigvar
from discretehelpers.sig_perm import SigPerm

from lib import gen, hooks, orbits
from lib.bf import lib, striped
from lib.core import scenario
from lib.ref import RefF, RefPart, sig_on_number

PROPERTY = 'F12'
RULE = ('All functions of up to 3 arguments and structured random ones of up to 5, biased to partial symmetry (symmetric in a random partition of the arguments, or closed under a random signed permutation). '
        'The oracle enumerates all permutations (signed permutations for true places and complements) and keeps those that leave the truth table unchanged. A state is the function with its symmetry blocks; trivial for constants.')
REQUIRED = ['place-orbits', 'spot-orbits', 'self-complementary', 'symmetric', 'refines', 'spread', 'sigvar', 'colors', 'boolf-canonical']


def prepare():
    hooks.install_boolf()


def make(c, top):
    rng = c.rng
    if c.index < 278:
        return striped(c, rng, gen)
    n = rng.choice([2, 3, 4, 4, top])
    kind = rng.randrange(6)
    N = 1 << n
    if kind == 0:                                  # symmetric within the blocks of a partition
        lab = [rng.randrange(3) for _ in range(n)]
        val = {}
        t = []
        for x in range(N):
            k = tuple(sum(x >> i & 1 for i in range(n) if lab[i] == l) for l in range(3))
            t.append(val.setdefault(k, rng.random() < .5))
    elif kind == 1:                                # invariant under a random signed permutation
        s = gen.signed_seq(rng, n)
        t = [None] * N
        for x in range(N):
            v = rng.random() < .5
            while t[x] is None:
                t[x] = v
                x = sig_on_number(s, x)
    elif kind == 2 and n:                          # complemented by a pattern of negations
        m = rng.randrange(1, N)
        t = [None] * N
        for x in range(N):
            if t[x] is None:
                t[x] = rng.random() < .5
                t[x ^ m] = not t[x]
    elif kind == 3:                                # complemented by a signed permutation, if its cycles allow
        s = gen.signed_seq(rng, n)
        t = [None] * N
        for x in range(N):
            v = rng.random() < .5
            while t[x] is None:
                t[x], v = v, not v
                x = sig_on_number(s, x)
    else:
        t = gen.table(rng, n)
    return RefF(sorted(gen.atoms(rng, n, rng.choice([n, n, n + 2]))), t)


def orbits_of(r, signed, places):
    n = r.valency
    part = RefPart()
    for p in permutations(range(n)):
        for m in range(1 << n) if signed else (0,):
            img = [sum(((x >> i ^ m >> i) & 1) << p[i] for i in range(n)) for x in range(1 << n)]
            if all(r.bits[x] == r.bits[y] for x, y in enumerate(img)):
                for x in places:
                    part.merge(x, img[x])
    return part


@scenario(quick=1200, thorough=10000)
def symmetry(c):
    rng = c.rng
    r = make(c, 5)
    n = r.valency
    f = lib(r)
    c.note(repr(r))
    full = [x for x, b in enumerate(r.bits) if b]

    def places():
        root = lib(r.root())
        part = orbits_of(r, False, range(1 << n))
        got = root.perm_symmetry_partition
        c.state(tuple(map(tuple, part.blocks())), len(full), trivial=n == 0)
        c.eq('place-orbits', got.blocks, part.blocks(), r)
        c.eq('place-orbits', sorted(got.domain), list(range(1 << n)), r)
        # the function is constant on each orbit, and an orbit never mixes different weights of places
        for b in got.blocks:
            c.true('refines', len({r.bits[x] for x in b}) == 1 and len({bin(x).count('1') for x in b}) == 1, r, b)

    def true_places():
        if n <= 4:
            c.eq('spot-orbits', f.symmetric_spots.blocks, orbits_of(r, True, full).blocks(), r)

    def complement():
        neg = tuple(not b for b in r.bits)
        want = any(all(neg[x ^ m] == r.bits[x] for x in range(1 << n)) for m in range(1 << n))
        c.eq('self-complementary', bool(f.family_is_self_complementary), want, r)
        c.eq('self-complementary', bool(f.complement.family_is_self_complementary), want, r)

    def symmetric():
        want = all(len({r.bits[x] for x in range(1 << n) if bin(x).count('1') == k}) == 1 for k in range(n + 1))
        c.eq('symmetric', bool(f.is_symmetric), want, r)

    def spread():
        c.eq('spread', [int(v) for v in f.spread_vector], [a - i for i, a in enumerate(r.atoms)], r)
        s = gen.signed_seq(rng, n)
        got = spread_sigperm_to_sigvar(s, f.spread_vector)
        c.eq('sigvar', list(got), [r.atoms[e] if e >= 0 else ~r.atoms[~e] for e in s], r, s)

    sections = [places, true_places, complement, symmetric, spread]
    rng.shuffle(sections)
    for s in sections:
        s()


@scenario(quick=1500, thorough=15000)
def colors(c):
    rng = c.rng
    n = rng.choice([1, 2, 3, 4, 5])
    s = gen.signed_seq(rng, n)
    spots = [x for x in range(1 << n) if rng.random() < .8]
    names = ['r', 'g', 'b', 0, '', (1, 2)][:rng.randint(1, 6)]
    col = {}
    for x in rng.sample(spots, len(spots)):
        col.setdefault(rng.choice(names), []).append(x)
    c.state('colors', n, tuple(s), len(col), trivial=not col)
    c.note(n, s, col)
    got = apply_sigperm_to_colors(col, n, rng.choice([s, tuple(s), SigPerm(sequence=s)]))
    # every colour class is transformed like the truth table of the function that is true there
    want = {}
    for k, v in col.items():
        r = RefF(range(n), [x in v for x in range(1 << n)])
        t = RefF(r.atoms, r.bits).substitute([s[a] for a in r.atoms]).table(n)
        want[k] = [x for x, b in enumerate(t) if b]
    c.eq('colors', got, want, n, s, col)
