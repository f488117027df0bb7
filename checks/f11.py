from fractions import Fraction
from itertools import permutations

from discretehelpers.boolf import Boolf

from lib import gen, hooks
from lib.bf import back, lib, parity, striped, to_int
from lib.core import scenario
from lib.ref import RefF, RefPart, mobius

PROPERTY = 'F11'
RULE = ('All functions of up to 3 arguments and structured random ones of up to 6 (dense and spread over higher arguments), each with several sufficient arities up to 8; read in random order, so that derived views are sometimes computed first. '
        'Each characteristic is recomputed from the plain truth table. A state is the function with the arity; trivial for constants.')
REQUIRED = ['parity', 'weight', 'arity-foibles', 'solid', 'quadrant', 'leader', 'reverse', 'complement', 'linear', 'symmetric', 'symmetric-spots', 'layers', 'spots', 'links', 'fractions', 'twin-laws', 'atoms', 'boolf-canonical']


def prepare():
    hooks.install_boolf()


def walsh_index(bits):
    """index of the linear pattern, or None"""
    n = len(bits).bit_length() - 1
    d = bits[0]
    w = sum(int(bits[1 << i] != d) << i for i in range(n))
    return w if all(int(b) == parity(w & x) ^ int(d) for x, b in enumerate(bits)) else None


@scenario(quick=2500, thorough=30000)
def characteristics(c):
    rng = c.rng
    r = striped(c, rng, gen)
    f = lib(r)
    c.note(repr(r))
    b = [int(x) for x in r.bits]
    n = r.valency
    odd, odious = b[0], b[-1]
    sections = [lambda: basic(c, f, r, b), lambda: layers(c, f, r, b), lambda: with_arity(c, f, r, odd, odious)]
    rng.shuffle(sections)
    for s in sections:
        s()


@scenario(quick=300, thorough=6000)
def wide(c):
    """more arguments, and arguments with large gaps; only what does not need the whole table"""
    rng = c.rng
    if rng.random() < .4:
        n = rng.choice([7, 7, 8, 9])
        at = gen.atoms(rng, n)
    else:
        n = rng.choice([1, 2, 3, 4, 5])
        at = gen.atoms(rng, n, rng.choice([30, 110, 1500]))
    r = RefF(sorted(at), gen.table(rng, n))
    f = lib(r)
    c.note(repr(r))
    c.state('wide', r.valency, r.adicity, sum(r.bits), trivial=not r.atoms)
    b = [int(x) for x in r.bits]
    sections = [lambda: basic(c, f, r, b), lambda: layers(c, f, r, b)]
    rng.shuffle(sections)
    for s in sections:
        s()


def basic(c, f, r, b):
    odd, odious = b[0], b[-1]
    n = r.valency
    for name, want in c.rng.sample([('is_odd', odd), ('is_odious', odious), ('is_ugly', odd ^ odious)], 3):
        c.eq('parity', int(getattr(f, name)), want, r, name)
    c.eq('weight', int(f.is_male), sum(b) % 2, r)
    c.eq('fractions', f.weight_fract, Fraction(sum(b), len(b)), r)
    if r.adicity <= 10:
        t = r.table()
        c.eq('fractions', f.value_fract(), Fraction(sum(int(v) << (len(t) - 1 - i) for i, v in enumerate(t)), (1 << len(t)) - 1), r)
    c.eq('quadrant', f.quadrant, odd + 2 * odious, r)
    c.eq('reverse', back(f.reverse), RefF(r.atoms, b[::-1]), r)
    c.eq('reverse', f.reverse.reverse == f, True, r)
    c.eq('complement', back(f.complement), ~r, r)
    c.eq('complement', back(~f), ~r, r)
    c.eq('linear', bool(f.is_linear), walsh_index(b) is not None, r)
    c.eq('symmetric', bool(f.is_symmetric), all(len({b[x] for x in range(len(b)) if bin(x).count('1') == k}) == 1 for k in range(n + 1)), r)
    c.eq('atoms', bool(f.is_root), r.atoms == tuple(range(n)), r)
    c.eq('atoms', back(f.root_boolf), r.root(), r)
    c.eq('atoms', f.atomvals_integer, sum(1 << a for a in r.atoms), r)
    c.eq('atoms', list(f.atomvals_sierpinski), sorted(sum((x >> k & 1) << a for k, a in enumerate(r.atoms)) for x in range(len(b))), r)


def layers(c, f, r, b):
    n = r.valency
    wt = lambda x: bin(x).count('1')
    full = [x for x, v in enumerate(b) if v]
    c.eq('spots', sorted(f.fullspots), full, r)
    c.eq('spots', f.fullspot_atoms, {x: [i for i in range(n) if x >> i & 1] for x in full}, r)
    reads = [
        lambda: c.eq('layers', f.layered_tt, [[b[x] for x in range(len(b)) if wt(x) == k] for k in range(n + 1)], r),
        lambda: c.eq('layers', f.layered_weight, [sum(b[x] for x in range(len(b)) if wt(x) == k) for k in range(n + 1)], r),
        lambda: c.eq('spots', f.fullspots_by_weight, {k: {x: [i for i in range(n) if x >> i & 1] for x in full if wt(x) == k} for k in {wt(x) for x in full}}, r),
        lambda: c.eq('layers', f.layered_fullspots, [[x for x in full if wt(x) == k] for k in range(n + 1)], r),
        lambda: c.eq('layers', f.fullspot_weights, sorted({wt(x) for x in full}), r),
        lambda: links(c, f, r, full),
        lambda: c.eq('links', f.number_of_fullspotlinks, sum(1 for x in full for i in range(n) if not x >> i & 1 and x | 1 << i in set(full)), r),
    ]
    c.rng.shuffle(reads)
    for read in reads:
        read()
    if r.adicity <= 7 and (n <= 3 or (n == 4 and c.index % 12 == 0)):
        spots(c, f, r, b, full)


def links(c, f, r, full):
    n, s = r.valency, set(full)
    want = {}
    for x in full:
        for i in range(n):
            if not x >> i & 1 and x | 1 << i in s:
                want.setdefault(bin(x).count('1'), []).append((x, x | 1 << i))
    got = {int(k): v for k, v in f.fullspotlinks_by_weight.items()}
    c.eq('links', {k: v for k, v in got.items() if v}, {k: sorted(v) for k, v in want.items()}, r)


def spots(c, f, r, b, full):
    """orbits of the true places under the signed permutations that leave the root function unchanged"""
    n = r.valency
    part = RefPart()
    for p in permutations(range(n)):
        for m in range(1 << n):
            img = [sum(((x >> i ^ m >> i) & 1) << p[i] for i in range(n)) for x in range(1 << n)]
            if all(b[x] == b[img[x]] for x in range(1 << n)):
                for x in full:
                    part.merge(x, img[x])
    c.eq('symmetric-spots', f.symmetric_spots.blocks, part.blocks(), r)


def with_arity(c, f, r, odd, odious):
    rng = c.rng
    top = min(8, r.adicity + 3)
    for arity in sorted({r.adicity, rng.randint(r.adicity, top)}):
        c.state(r.key, arity, trivial=not r.atoms)
        t = [int(v) for v in r.table(arity)]
        sharp = sum(t) % 2
        ugly = odd ^ odious
        c.eq('arity-foibles', int(f.is_sharp(arity)), sharp, r, arity)
        c.eq('arity-foibles', int(f.is_acute(arity)), ugly ^ sharp, r, arity)
        c.eq('arity-foibles', int(f.is_rude(arity)), odd ^ sharp, r, arity)
        c.eq('arity-foibles', int(f.is_rough(arity)), odious ^ sharp, r, arity)
        h = len(t) // 2
        if arity >= 2:
            c.eq('solid', int(f.is_solid(arity)), sum(t[h - 2:h + 2]) % 2, r, arity)
        use_default = arity == r.adicity and rng.random() < .5
        args = () if use_default else (arity,)
        c.eq('quadrant', f.weight_quadrant(*args), (odious ^ sharp) + 2 * odious, r, arity)
        c.eq('quadrant', f.acute_quadrant(*args), ugly + 2 * (ugly ^ sharp), r, arity)
        c.eq('quadrant', f.octant(arity), odd + 2 * odious + 4 * (ugly ^ sharp), r, arity)
        # leader: false in the first and last place, reached by complement and change of the first place
        want = [v ^ odious for v in t]
        if want[0]:
            want[0] = 0
        c.eq('leader', back(f.leader(*args)), RefF(range(arity), want), r, arity)
        if arity:
            other = list(t)
            other[0] ^= 1
            if rng.random() < .5:
                other = [1 - v for v in other]
            c.eq('leader', back(lib(RefF(range(arity), other)).leader(arity)), RefF(range(arity), want), r, arity)
        if arity <= 6 and c.index % 3 == 0:
            tw = f.twin(arity)
            c.eq('twin-laws', (int(tw.is_odious), int(tw.is_odd), int(tw.is_ugly)), (sharp, odd, odd ^ sharp), r, arity)
            c.eq('twin-laws', int(tw.is_rough(arity)), odious ^ sharp, r, arity)
            if arity:
                c.eq('twin-laws', f.patron_quadrant(arity) in (1, 2), bool(ugly ^ sharp), r, arity)
                c.eq('twin-laws', int(f.reverse.is_rude(arity)), odious ^ sharp, r, arity)
