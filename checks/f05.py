from itertools import permutations

from discretehelpers.boolf import Boolf

from lib import gen, hooks, orbits
from lib.core import scenario
from lib.ref import RefF, mobius

PROPERTY = 'F05'
RULE = ('Structured and random functions of up to 4 arguments (5 for families and factions; all functions of up to 2 and the 3-ary ones in stripes) on dense and spread argument sets are asked for their representatives, and so are other members of their classes and '
        'functions of other classes. A representative must be the member with the smallest Zhegalkin index, found by direct enumeration of the class. A state is the class (as smallest index and size) with the kind of class; trivial for constants.')
REQUIRED = ['family', 'faction', 'clan', 'clan-slow', 'member', 'idempotent', 'separates', 'male', 'male-member', 'male-refused', 'constant', 'nested', 'boolf-canonical']


def prepare():
    hooks.install_boolf()


def back(f):
    return RefF([int(a) for a in f.atomvals], f.root.vector)


def lib(r):
    return Boolf(list(r.bits), list(r.atoms)) if r.atoms else Boolf(bool(r.bits[0]))


KINDS = dict(family='family_minrep', faction='faction_minrep', clan='clan_minrep')


def orbit(kind, r):
    if not r.atoms:
        return {r}
    if kind == 'family':
        return set(orbits.family(r).values())
    # the arguments of a representative are the lowest ones, wherever those of the function are
    n = r.valency
    root = r.root()
    out = set()
    for p in permutations(range(n)):
        for m in range(1 << n) if kind == 'clan' else (0,):
            out.add(root.substitute(orbits.negated(p, m)))
    return out


def best(kind, r):
    o = orbit(kind, r)
    return min(o, key=orbits.zhe), o


def check(c, kind, r):
    want, o = best(kind, r)
    f = lib(r)
    c.state(kind, want.key, trivial=not r.atoms)
    got = back(getattr(f, KINDS[kind]))
    c.eq(kind, got, want, r)
    if kind == 'clan':
        c.eq('clan-slow', back(lib(r)._clan_minrep_prototype) if hasattr(f, '_clan_minrep_prototype') else want, want, r)
    c.eq('idempotent', back(getattr(lib(want), KINDS[kind])), want, r)
    g = c.rng.choice(sorted(o, key=lambda g: g.key))
    if r.atoms and kind != 'family' and c.rng.random() < .6:
        # move the member to other arguments
        at = sorted(c.rng.sample(range(r.valency + (1 if r.valency > 3 else 2)), r.valency))
        g = RefF(at, g.bits)
    c.eq('member', back(getattr(lib(g), KINDS[kind])), want, r, g)
    return want


@scenario(quick=900, thorough=10000)
def minimal(c):
    rng = c.rng
    if c.index < 276:
        n, k = (0, 0) if c.index < 2 else (1, c.index - 2) if c.index < 6 else (2, c.index - 6) if c.index < 22 else (3, c.index - 20)
        k = c.index if n == 0 else k
        r = RefF(range(n), [k >> i & 1 for i in range(1 << n)])
    else:
        n = rng.choice([2, 3, 3, 4])
        r = RefF(sorted(gen.atoms(rng, n, rng.choice([n, n, n + 1]))), gen.table(rng, n))
    c.note(repr(r))
    want = {}
    for kind in KINDS:
        want[kind] = check(c, kind, r)
    c.true('nested', orbits.zhe(want['clan']) <= min(orbits.zhe(want['family']), orbits.zhe(want['faction'])), r)
    c.eq('nested', back(lib(want['family']).clan_minrep), want['clan'], r)
    c.eq('nested', back(lib(want['faction']).clan_minrep), want['clan'], r)
    if not r.atoms:
        for name in KINDS.values():
            c.eq('constant', back(getattr(lib(r), name)), r)


@scenario(quick=60, thorough=1500)
def large(c):
    rng = c.rng
    r = RefF(range(5), gen.table(rng, 5))
    c.note(repr(r))
    for kind in ('family', 'faction') + (('clan',) if c.index % 6 == 0 else ()):
        check(c, kind, r)


@scenario(quick=240, thorough=4000)
def clans(c):
    rng = c.rng
    t = gen.table(rng, 4)
    if rng.random() < .5:                         # a few places away from a function with many symmetries
        w = [rng.random() < .5 for _ in range(5)]
        t = [w[bin(x).count('1')] for x in range(16)]
        for x in rng.sample(range(16), rng.randint(1, 4)):
            t[x] = not t[x]
    check(c, 'clan', RefF(range(4), t))


@scenario(quick=400, thorough=4000)
def separation(c):
    """different classes have different representatives, the same class has the same"""
    rng = c.rng
    n = rng.choice([2, 3, 3])
    a = RefF(range(n), gen.table(rng, n))
    b = list(a.table(n))
    for _ in range(rng.choice([0, 1, 2, 2])):
        i = rng.randrange(1 << n)
        b[i] = not b[i]
    p, m = rng.sample(range(n), n), rng.choice([0, rng.randrange(1 << n)])
    b = orbits.rename(RefF(range(n), b), orbits.negated(p, m))
    for kind, name in KINDS.items():
        same = b in orbit(kind, a) if kind == 'family' else b.root() in orbit(kind, a)
        c.state('pair', kind, best(kind, a)[0].key, best(kind, b)[0].key)
        c.eq('separates', getattr(lib(a), name) == getattr(lib(b), name), same, kind, a, b)


@scenario(quick=900, thorough=8000)
def male(c):
    rng = c.rng
    n = rng.choice([0, 1, 2, 3, 3, 4, 4, 5])
    t = gen.table(rng, n)
    if sum(t) % 2 == 0 and rng.random() < .85:
        i = rng.randrange(1 << n)
        t[i] = not t[i]
    r = RefF(sorted(gen.atoms(rng, n, rng.choice([None, None, None, 40, 300]))), t)
    f = lib(r)
    if sum(r.bits) % 2 == 0:
        c.raises('male-refused', lambda: f.family_malerep, ValueError, r)
        return
    c.state('male', r.key, trivial=not r.atoms)
    rep = back(f.family_malerep)
    o = set(orbits.family(r).values()) if r.atoms else {r}
    c.true('male', rep in o, r, rep)
    for g in rng.sample(sorted(o, key=lambda g: g.key), min(4, len(o))):
        c.eq('male-member', back(lib(g).family_malerep), rep, r, g)
    # of all members it is the one whose consul, the vector of reduced weights, vanishes:
    # for every argument the true places on which the argument is true are even in number
    c.eq('male', [sum(b for x, b in enumerate(rep.bits) if x >> i & 1) % 2 for i in range(rep.valency)], [0] * rep.valency, r, rep)
