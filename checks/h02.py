import numpy as np

from discretehelpers.a import (arity_to_walsh_matrix, atompattern_to_signed_index, balanced_ternary_walsh_matrix, create_hasse_matrix, hypercube_edges, int_to_sierpinski_row,
                               linear_to_leader_and_quadrant, linear_to_walsh_and_oddness, make_atompattern, make_atompattern_gen, make_atompatterns, make_linear_binv, make_linear_boolf,
                               sierpinski, walsh_function_to_index)
from discretehelpers.binv import Binv
from discretehelpers.boolf import Boolf
from discretehelpers.ex import ArgComboError

from lib import hooks
from lib.bf import back, parity
from lib.core import scenario
from lib.ref import RefF

PROPERTY = 'H02'
RULE = ('All linear patterns up to degree 6 (striped over the cases) and random ones up to degree 10, all signed arguments, every matrix size up to 7 (ternary up to 4), random integers and argument sets for Sierpinski rows, '
        'random partial orders. Patterns with one or more flipped bits and random vectors must be refused. The oracle is the dot product modulo two, bitwise inclusion and reachability. A state is the kind of object with its index; trivial for index 0.')
REQUIRED = ['atompattern', 'atompatterns', 'atompattern-back', 'linear', 'linear-leader', 'linear-boolf', 'walsh-index', 'walsh-oddness', 'leader-quadrant', 'not-linear', 'walsh-matrix', 'ternary-matrix',
            'sierpinski', 'sierpinski-row', 'hasse', 'hypercube', 'refused', 'boolf-canonical']


def prepare():
    hooks.install_boolf()


def ints(x):
    return [int(b) for b in x]


def row(walsh, arity, odd=0):
    return [parity(walsh & x) ^ odd for x in range(1 << arity)]


@scenario(quick=1500, thorough=15000)
def linear(c):
    rng = c.rng
    k = c.index
    arity, walsh = None, None
    for a in range(1, 7):
        if k < 1 << a:
            arity, walsh = a, k
            break
        k -= 1 << a
    if arity is None:
        arity = rng.choice([1, 2, 3, 5, 6, 7, 7, 8]) if rng.random() < .93 else rng.choice([9, 10])
        walsh = rng.randrange(1 << arity)
    c.note(arity, walsh)
    c.state('linear', arity, walsh, trivial=walsh == 0)
    for odd in (0, 1):
        want = row(walsh, arity, odd)
        kw = {}
        if rng.random() < .3:
            kw['prefab_atom_patterns'] = make_atompatterns(arity)
        got = make_linear_binv(walsh, arity, rng.choice([int, bool])(odd), **kw) if odd or rng.random() < .5 else make_linear_binv(walsh, arity)
        c.eq('linear', ints(got.vector), want, walsh, arity, odd)
        quad = odd + 2 * (parity(walsh) ^ odd)
        got2 = make_linear_binv(leader=walsh >> 1, quadrant=quad, arity=arity)
        c.eq('linear-leader', ints(got2.vector), want, walsh, arity, odd)
        f = make_linear_boolf(walsh, rng.choice([int, bool])(odd)) if odd or rng.random() < .5 else make_linear_boolf(walsh)
        ref = RefF(range(arity), want)
        c.eq('linear-boolf', back(f), ref, walsh, odd)
        c.eq('linear-boolf', back(make_linear_boolf(leader=walsh >> 1, quadrant=quad)), ref, walsh, odd)
        for trust in (False, True):
            form = rng.choice([Binv, list, tuple, lambda v: ''.join(map(str, v)), Boolf])
            c.eq('walsh-oddness', tuple(int(v) for v in linear_to_walsh_and_oddness(form(want), trust=trust)), (walsh, odd), arity, trust)
            c.eq('leader-quadrant', tuple(int(v) for v in linear_to_leader_and_quadrant(form(want), trust=trust)), (walsh >> 1, quad), arity, walsh, odd, trust)
        if not odd:
            c.eq('walsh-index', int(walsh_function_to_index(rng.choice([Binv, list, tuple, lambda v: ''.join(map(str, v))])(want))), walsh, arity)
            c.eq('walsh-index', int(walsh_function_to_index(want, trust=True)), walsh, arity)
        # flipped bits and random vectors
        bad = list(want)
        for _ in range(rng.choice([1, 1, 2, 3])):
            bad[rng.randrange(len(bad))] ^= 1
        for v in (bad, [rng.randrange(2) for _ in want]):
            m = v[0]
            is_lin = any(v == row(w, arity, m) for w in [sum((v[1 << i] ^ m) << i for i in range(arity))])
            if is_lin:
                w = sum((v[1 << i] ^ m) << i for i in range(arity))
                c.eq('walsh-oddness', tuple(int(x) for x in linear_to_walsh_and_oddness(Binv(v))), (w, m), v)
            else:
                c.raises('not-linear', lambda: linear_to_walsh_and_oddness(Binv(v)), ValueError, v)
                c.raises('not-linear', lambda: linear_to_leader_and_quadrant(v), ValueError, v)
                c.raises('not-linear', lambda: walsh_function_to_index(Binv(v)), ValueError, v)
    c.raises('not-linear', lambda: walsh_function_to_index(Binv(row(walsh, arity, 1))), ValueError, walsh, arity)
    c.raises('refused', lambda: make_linear_binv(1 << arity, arity), ValueError, arity)
    c.raises('refused', lambda: make_linear_binv(walsh, arity, quadrant=1), ArgComboError)
    c.raises('refused', lambda: make_linear_boolf(leader=1, parity=1), ArgComboError)
    c.raises('refused', lambda: make_linear_boolf(leader=1, quadrant=rng.choice([4, -1])), ValueError)
    c.raises('refused', lambda: make_linear_binv(walsh, arity, prefab_atom_patterns=make_atompatterns(arity + 1)), ValueError)


@scenario(quick=600, thorough=6000)
def patterns(c):
    rng = c.rng
    arity = rng.randint(1, 9)
    a = rng.randrange(arity)
    signed = rng.choice([a, ~a])
    neg = rng.random() < .5
    flip = (signed < 0) ^ neg
    c.note(arity, signed, neg)
    c.state('pattern', arity, signed, neg)
    want = [(x >> a & 1) ^ flip for x in range(1 << arity)]
    got = make_atompattern(signed, arity, neg)
    c.eq('atompattern', ints(got.vector), ints(want), arity, signed, neg)
    c.eq('atompattern', ints(make_atompattern_gen(signed, arity, neg)), ints(want), arity, signed, neg)
    form = rng.choice([Binv, list, tuple])
    c.eq('atompattern-back', tuple(int(v) for v in atompattern_to_signed_index(form(want))), (a, int(flip)), arity, signed, neg)
    c.raises('refused', lambda: make_atompattern(rng.choice([arity, ~arity]), arity), AssertionError, arity)
    s = rng.sample(range(arity), arity)
    s = [~v if rng.random() < .5 else v for v in s]
    rows = [[(x >> (v if v >= 0 else ~v) & 1) ^ (v < 0) for x in range(1 << arity)] for v in s]
    c.eq('atompatterns', [ints(b.vector) for b in make_atompatterns(rng.choice([list, tuple])(s))], [ints(r) for r in rows], s)
    c.eq('atompatterns', [ints(b.vector) for b in make_atompatterns(arity)], [row(1 << i, arity) for i in range(arity)], arity)
    if arity > 1:
        bad = row((1 << a) | (1 << (a + 1) % arity), arity)
        c.raises('not-linear', lambda: atompattern_to_signed_index(Binv(bad)), AssertionError, bad)


@scenario(quick=200, thorough=2000)
def matrices(c):
    rng = c.rng
    n = c.index % 8
    c.state('matrices', n, trivial=n == 0)
    neg = rng.random() < .5
    m = arity_to_walsh_matrix(n, neg)
    c.eq('walsh-matrix', m.tolist(), [row(i, n, int(neg)) for i in range(1 << n)], n, neg)
    t = c.index % 5
    vec = [[(i // 3 ** k) % 3 - 1 for k in range(t)] for i in range(3 ** t)]
    bal = lambda v: (v + 1) % 3 - 1
    want = [[bal(sum(a * b for a, b in zip(u, v))) for v in vec] for u in vec]
    got, vm = balanced_ternary_walsh_matrix(t, with_vectors_matrix=True)
    c.eq('ternary-matrix', got.tolist(), want, t)
    c.eq('ternary-matrix', vm.tolist(), vec, t)
    c.eq('ternary-matrix', balanced_ternary_walsh_matrix(t).tolist(), want, t)
    if n:
        size = 1 << n
        o = rng.choice(['tl', 'tr', 'bl', 'br'])
        got = sierpinski(o, n) if rng.random() < .5 else sierpinski(o, size=size)
        c.true('sierpinski', got.shape == (size, size), n)
        # the corner of the orientation holds the pair of empty sets: row set within column set
        want = [[0] * size for _ in range(size)]
        for i in range(size):
            for j in range(size):
                col = j if o[1] == 'r' else size - 1 - j
                want[i if o[0] == 't' else size - 1 - i][j] = int(i & col == i)
        c.eq('sierpinski', got.tolist(), want, o, n)
    for o, kw in (('xx', dict(degree=2)), ('tl', dict(degree=0)), ('tl', dict(size=1)), ('tl', dict(size=6))):
        c.raises('refused', lambda: sierpinski(o, **kw), ValueError, o, kw)
    c.raises('refused', lambda: sierpinski('tl'), ArgComboError)
    n = n if rng.random() < .9 else rng.randint(8, 11)
    edges = [tuple(e) for e in hypercube_edges(n)]
    c.eq('hypercube', edges, [(x, x | 1 << i) for x in range(1 << n) for i in range(n) if not x >> i & 1], n)
    c.raises('refused', lambda: hypercube_edges(-1), ValueError)


@scenario(quick=1500, thorough=15000)
def rows(c):
    rng = c.rng
    k = rng.randint(0, 8)
    at = rng.sample(range(rng.choice([k, k + 3, 40]) or 1), k)
    n = sum(1 << a for a in at)
    if c.index < 256:
        n = c.index
        at = [i for i in range(8) if n >> i & 1]
    c.note(n, at)
    c.state('row', n, trivial=n == 0)
    want, s = [], n
    while True:                      # submasks in descending order
        want.append(s)
        if s == 0:
            break
        s = (s - 1) & n
    want.reverse()
    c.eq('sierpinski-row', [int(x) for x in int_to_sierpinski_row(n)], want, n)
    c.eq('sierpinski-row', [int(x) for x in int_to_sierpinski_row(exposet=rng.choice([list, tuple, set])(at))], want, n)
    c.raises('refused', lambda: int_to_sierpinski_row(n, exposet=at), ArgComboError)
    c.raises('refused', lambda: int_to_sierpinski_row(rng.choice([-1, 1.5, '3'])), TypeError)


@scenario(quick=600, thorough=6000)
def orders(c):
    rng = c.rng
    size = rng.randint(0, 12) if rng.random() < .95 else rng.randint(13, 30)
    kind = rng.randrange(3)
    if kind == 0:
        nodes = rng.sample(range(64), size)
        under = lambda a, b: a & b == a
    elif kind == 1:
        nodes = rng.sample(range(1, 61), size)
        under = lambda a, b: b % a == 0
    else:
        nodes = rng.sample([(i, j, k) for i in range(4) for j in range(4) for k in range(2)], size)
        under = lambda a, b: all(x <= y for x, y in zip(a, b))
    strict = rng.random() < .5
    rel = (lambda a, b: a != b and under(a, b)) if strict else under
    c.note(nodes, kind, strict)
    c.state('hasse', kind, tuple(nodes), trivial=size < 2)
    want = []
    for a in nodes:
        line = []
        for b in nodes:
            if a == b or not under(a, b):
                line.append(0)
            else:
                line.append(2 if any(x not in (a, b) and under(a, x) and under(x, b) for x in nodes) else 1)
        want.append(line)
    c.eq('hasse', create_hasse_matrix(nodes, rel, with_indirect_edges=True).tolist(), want, nodes, kind)
    c.eq('hasse', create_hasse_matrix(nodes, rel).tolist(), [[v % 2 for v in line] for line in want], nodes, kind)
