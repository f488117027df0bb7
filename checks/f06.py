from itertools import permutations

from discretehelpers.boolf import Boolf
from discretehelpers.boolf import a as ba
from discretehelpers.ex import ArgTooBigError, ArgTooSmallError, ArgValueError

from lib import gen, hooks
from lib.bf import back, bits_of, lib, parity, striped, to_int
from lib.core import scenario
from lib.ref import RefF, mobius

PROPERTY = 'F06'
RULE = ('All functions of up to 3 arguments and structured random ones of up to 6 (dense and spread), each with sufficient arities up to 7; all nobles of arity up to 3 and random ones of arity 4 to 6; random tables for the helper functions. '
        'The oracle is an independent Moebius transform. A state is the function with the arity (or the noble with its arity); trivial for constants.')
REQUIRED = ['zhe', 'from-zhe', 'twin', 'twin-involution', 'noble', 'noble-index', 'noble-refused', 'royal', 'king', 'patron', 'praetor', 'prefect', 'consul', 'twin-helpers', 'prefect-helpers', 'sierpinski', 'hasse', 'symmetric',
            'noble-quadrant', 'linearity', 'boolf-canonical']


def prepare():
    hooks.install_boolf()


def transform(table):
    return mobius(table)


def quadrant_of(table):
    return (int(table[1]) if len(table) > 1 else 0) + 2 * int(table[-1])


def noble_numbers(arity):
    """index -> noble, by the definition, for arities in which all tables can be enumerated"""
    N = 1 << arity
    return [k for k in range(1 << N) if to_int(transform(bits_of(k, N))) == k]


NOBLES = {n: noble_numbers(n) for n in range(4)}
NOBLES[0] = [0]        # by convention the true constant does not count in the enumeration for arity 0


@scenario(quick=1500, thorough=20000)
def functions(c):
    rng = c.rng
    r = striped(c, rng, gen)
    f = lib(r)
    c.note(repr(r))
    anf = transform(r.table())
    z = to_int(anf)
    c.eq('zhe', f.zhe, z, r)
    c.eq('from-zhe', back(Boolf(zhe=z)), r)
    top = min(7, r.adicity + 2)
    for arity in sorted({r.adicity, rng.randint(r.adicity, top), top}):
        c.state(r.key, arity, trivial=not r.atoms)
        N = 1 << arity
        t = [int(b) for b in r.table(arity)]
        tw = transform(t)
        want = RefF(range(arity), tw)
        got = f.twin(arity)
        c.eq('twin', back(got), want, r, arity)
        c.eq('twin-involution', back(got.twin(arity)), r, arity)
        c.eq('twin', to_int(tw), z, 'the coefficients of the normal form do not depend on the arity')
        noble = want == r
        args = () if arity == r.adicity and rng.random() < .5 else (arity,)
        c.eq('noble', f.is_noble(*args), noble, r, arity)
        if noble:
            c.eq('noble-quadrant', f.noble_quadrant(*args), quadrant_of(t), r, arity)
        else:
            c.raises('noble-refused', lambda: f.noble_quadrant(*args), ValueError, r, arity)
        # patron
        p = [x ^ y for x, y in zip(t, tw)]
        P = RefF(range(arity), p)
        c.eq('patron', f.patron_int(arity), to_int(p), r, arity)
        patron = f.patron_boolf(arity)
        c.eq('patron', back(patron), P, r, arity)
        c.eq('patron', patron.is_noble(arity), True, r, arity)
        c.eq('patron', f.patron_quadrant(arity), quadrant_of(p), r, arity)
        index = f.patron_index(arity)
        if arity <= 3:
            c.eq('patron', index, NOBLES[arity].index(to_int(p)), r, arity)
        elif arity <= 6:
            c.eq('patron', ba.index_to_noble(index, arity), to_int(p), r, arity)
        c.eq('patron', f.patron_royal(arity), royal(to_int(p), arity)[0], r, arity)
        if arity <= 4 or (arity == 5 and rng.random() < .05):
            k, q = f.patron_king_index_and_quadrant(arity)
            c.eq('king', (ba.index_to_noble(k, arity), q), (king(royal(to_int(p), arity)[0], arity), quadrant_of(p)), r, arity)
        # consul
        con = 0
        for x, b in enumerate(t):
            if b:
                con ^= x
        c.eq('consul', f.consul(*args), con, r, arity)
        c.eq('consul', f.consul_weight(arity), bin(con).count('1'), r, arity)
        if 0 < arity <= 5 and hasattr(f, 'consul_slow'):
            c.eq('consul', f.consul_slow(arity), con, r, arity)
        if arity:
            h = N // 2
            ij = f.hasse_matrix_coordinates(*args)
            c.eq('hasse', ij, (to_int(t[:h]), to_int(t[h:][::-1])), r, arity)
            c.eq('hasse', ba.hasse_matrix_coordinates_to_tt(*ij, arity).vector, [bool(b) for b in t], r, arity)
    # prefect: exclusive or of the equivalences that stand at the places of the conjunctions
    walsh, odd = 0, 0
    pt = [0] * len(anf)
    for s, b in enumerate(anf):
        if b:
            walsh ^= s
            odd ^= 1 ^ parity(s)
            pt = [v ^ 1 ^ parity(s) ^ parity(s & x) for x, v in enumerate(pt)]
    c.eq('prefect', [int(b) for b in f.prefect_tt], pt, r)
    c.eq('prefect', back(f.prefect_boolf), RefF(range(r.adicity), pt), r)
    w, o = f.prefect_walsh_and_oddness
    c.eq('prefect', (w, int(o)), (walsh, odd), r)
    c.eq('prefect', [parity(w & x) ^ int(o) for x in range(len(pt))], pt, r)
    if r.adicity:
        c.eq('prefect', f.prefect_leader_and_quadrant, (walsh >> 1, pt[0] + 2 * pt[-1]), r)


def royal(n, arity):
    """the one among the four related nobles that is true neither in the second nor in the last place"""
    N = 1 << arity
    if arity == 0:
        return 0, 0
    p, q = 1 << (N - 1), (1 << N) - 2
    found = [x for x in {n, n ^ p, n ^ q, n ^ p ^ q} if quadrant_of(bits_of(x, N)) == 0]
    assert len(found) == 1
    return found[0], quadrant_of(bits_of(n, N))


def king(n, arity):
    N = 1 << arity
    t = bits_of(n, N)
    best = n
    for perm in permutations(range(arity)):
        k = 0
        for x in range(N):
            if t[x]:
                k |= 1 << sum((x >> i & 1) << perm[i] for i in range(arity))
        best = min(best, k)
    return best


@scenario(quick=500, thorough=6000)
def nobles(c):
    rng = c.rng
    arity = rng.choice([0, 1, 2, 3, 3, 4, 4, 5, 6])
    N = 1 << arity
    if arity <= 3:
        i = c.index % len(NOBLES[arity])
        n = NOBLES[arity][i]
        c.eq('noble-index', ba.index_to_noble(i, arity), n, i, arity)
        c.eq('noble-index', ba.noble_to_index(n, arity), i, i, arity)
    else:
        t = gen.table(rng, arity)
        n = to_int(x ^ y for x, y in zip([int(b) for b in t], transform(t)))       # table and twin: always noble
        i = ba.noble_to_index(n, arity)
        c.true('noble-index', 0 <= i < 1 << (N // 2), n, arity)
        c.eq('noble-index', ba.index_to_noble(i, arity), n, i, arity)
        j = rng.randrange(1 << (N // 2))
        m = ba.index_to_noble(j, arity)
        c.eq('noble-index', to_int(transform(bits_of(m, N))), m, j, arity)
        c.eq('noble-index', (i < j, i == j), (n < m, n == m), i, j, arity)
    c.state('noble', n, arity, trivial=n == 0)
    c.note('noble', n, 'arity', arity)
    c.eq('noble-index', ba.noble_to_index(n, arity, trust=True), i, arity)
    R, q = royal(n, arity)
    c.eq('royal', ba.noble_to_quadrant(n, arity), q, n, arity)
    c.eq('royal', ba.noble_to_royal_and_quadrant(n, arity), (R, q), n, arity)
    c.eq('royal', ba.noble_to_royal(n, arity), R, n, arity)
    if arity:
        f = Boolf(n, arity=arity)
        c.eq('noble-quadrant', f.noble_quadrant(arity), q, n, arity)
    if arity <= 4 or (arity == 5 and c.index % 20 == 0):
        K = king(R, arity)
        c.eq('king', ba.noble_to_king_and_quadrant(n, arity), (K, q), n, arity)
        k, q2 = ba.noble_to_king_index_and_quadrant(n, arity)
        c.eq('king', (ba.index_to_noble(k, arity), q2), (K, q), n, arity)
    # refusals
    if arity:
        other = rng.randrange(1 << N)
        if to_int(transform(bits_of(other, N))) != other:
            classes = (ArgTooBigError, ArgValueError)
            for fn in (ba.noble_to_index, ba.noble_to_royal, ba.noble_to_quadrant, ba.noble_to_king_and_quadrant):
                c.raises('noble-refused', lambda: fn(other, arity), classes, other, arity, fn.__name__)
    big = (1 << N) + rng.randrange(1 << N)
    for fn in (ba.noble_to_index, ba.noble_to_royal, ba.noble_to_quadrant):
        c.raises('noble-refused', lambda: fn(big, arity), ArgTooBigError, big, arity, fn.__name__)
    top = 1 << (N // 2) if arity else 1
    c.raises('noble-refused', lambda: ba.index_to_noble(top + rng.randrange(top), arity), ArgTooBigError, arity)


@scenario(quick=500, thorough=6000)
def helpers(c):
    rng = c.rng
    arity = rng.choice([0, 1, 2, 3, 4, 5, 6])
    N = 1 << arity
    t = [int(b) for b in gen.table(rng, arity)]
    n = to_int(t)
    tw = transform(t)
    c.state('table', n, arity, trivial=n == 0)
    c.note('table', t)
    form = rng.choice(['list', 'string', 'tuple'])
    given = t if form == 'list' else tuple(t) if form == 'tuple' else ''.join(map(str, t))
    c.eq('twin-helpers', [int(b) for b in ba.vector_to_twin_gen(given, arity)], tw, given)
    places = [i for i, b in enumerate(t) if b]
    rng.shuffle(places)
    given = rng.choice([list, set, tuple])(places)
    c.eq('twin-helpers', sorted(ba.exposet_to_twin_gen(given, arity)), [i for i, b in enumerate(tw) if b], given)
    c.eq('twin-helpers', ba.twin_int(n, arity), to_int(tw), n, arity)
    c.eq('twin-helpers', ba.twin_int(to_int(tw), arity), n, n, arity)
    # additivity: the transform of a sum is the sum of the transforms
    m = rng.randrange(1 << N)
    c.eq('linearity', ba.twin_int(n ^ m, arity), ba.twin_int(n, arity) ^ ba.twin_int(m, arity), n, m, arity)
    walsh, odd = 0, 0
    for s in places:
        walsh ^= s
        odd ^= 1 ^ parity(s)
    pt = [parity(walsh & x) ^ odd for x in range(N)]
    c.eq('prefect-helpers', [int(b) for b in ba.zhe_vector_to_prefect_gen(t, arity)], pt, t)
    c.eq('prefect-helpers', sorted(ba.zhe_exposet_to_prefect_gen(given, arity)), [i for i, b in enumerate(pt) if b], t)
    w, o = ba.zhe_to_prefect(n, arity)
    c.eq('prefect-helpers', (w, int(o)), (walsh, odd), n, arity)
    if arity:
        h = N // 2
        c.eq('praetor', ba.praetor_int(n, arity), to_int(t[:h]) ^ to_int(t[h:]), n, arity)
        c.raises('praetor', lambda: ba.praetor_int((1 << N) + rng.randrange(1 << N), arity), ArgTooBigError)
        i, j = rng.randrange(1 << h), rng.randrange(1 << h)
        c.eq('hasse', [int(b) for b in ba.hasse_matrix_coordinates_to_tt(i, j, arity)], bits_of(i, h) + bits_of(j, h)[::-1], i, j, arity)
        s = t[:h] + t[:h][::-1]
        c.eq('symmetric', ba.symmetric_to_index(to_int(s), arity), to_int(s[h:]), s)
        if t != t[::-1]:
            c.raises('symmetric', lambda: ba.symmetric_to_index(n, arity), ArgValueError, t)
        c.raises('symmetric', lambda: ba.symmetric_to_index((1 << N) + n, arity), ArgTooBigError, t)
    else:
        c.raises('praetor', lambda: ba.praetor_int(n, 0), ArgTooSmallError)
        c.eq('symmetric', ba.symmetric_to_index(n, 0), n)
    # Sierpinski: the twin of a small table repeated over the arguments in the index
    big = rng.randint(arity, min(arity + 3, 7))
    index = sum(1 << i for i in rng.sample(range(big), big - arity))
    free = [i for i in range(big) if not index >> i & 1]
    got = ba.sierpinski_twin(rng.choice([t, ''.join(map(str, t))]), index, big)
    want = [tw[sum((x >> a & 1) << k for k, a in enumerate(free))] for x in range(1 << big)]
    c.eq('sierpinski', [int(b) for b in got], want, t, index, big)
    if big > 0:
        idx = rng.randrange(1, 1 << big)
        classes = {}
        for x in range(1 << big):
            classes.setdefault(x & ~idx, []).append(x)
        c.eq('sierpinski', ba.sierpinski_partition(idx, big).blocks, sorted(classes.values()), idx, big)
        a = rng.randrange(big)
        c.eq('sierpinski', ba.atom_partition(a, big).blocks, sorted([x, x | 1 << a] for x in range(1 << big) if not x >> a & 1), a, big)
