from itertools import permutations

import numpy as np

from discretehelpers.perm import Perm
from discretehelpers.walsh_perm import WalshPerm
from discretehelpers.walsh_perm.ex import (
    NotWalshPermError, NotEvenPermutationError, InvalidPermError, InvalidMatrixError, RequestedDegreeSmallerActualDegreeError,
    NotPowerOfTwoError, RedundantParametersError, TooManyArgumentsError)

from lib import hooks, gen
from lib.core import scenario
from lib.errors import error
from lib.ref import gf2_apply, gf2_canon, gf2_rank, gf2_transpose, RefPerm

PermLengthError = error('walsh_perm.a.perm_to_matrix.ex', 'PermLengthError', ValueError)
NotSquareError = error('walsh_perm.a.shrink_matrix.ex', 'NotSquareError', ValueError)

PROPERTY = 'W01'
RULE = ('Invertible binary matrices are drawn up to degree 8 (and all matrices up to degree 3 enumerated), built from vector, matrix and permutation with padding, and all views compared with the linear map. '
        'Singular, nearly invertible and non-square matrices, non-linear permutations and sequences that are no permutations must be refused. A state is the list of columns; trivial for the neutral map.')
REQUIRED = ['entries', 'sequence', 'sequence-refused', 'vector', 'transpose_vector', 'matrix', 'degree', 'period', 'mapping', 'cycles', 'determinant', 'complement',
            'equal', 'different', 'eval-str', 'singular-refused', 'nonlinear-refused', 'no-permutation-refused', 'size-refused', 'all-small', 'equals-perm', 'inherited']


def prepare():
    hooks.install_perm()


def rows(cols, n):
    return [[(cols[j] if j < len(cols) else 1 << j) >> i & 1 for j in range(n)] for i in range(n)]


def det(m):
    """exact determinant by expansion over fractions"""
    from fractions import Fraction
    m = [[Fraction(x) for x in r] for r in m]
    n, d = len(m), Fraction(1)
    for i in range(n):
        p = next((r for r in range(i, n) if m[r][i]), None)
        if p is None:
            return 0
        if p != i:
            m[i], m[p] = m[p], m[i]
            d = -d
        d *= m[i][i]
        for r in range(i + 1, n):
            f = m[r][i] / m[i][i]
            for k in range(i, n):
                m[r][k] -= f * m[i][k]
    return int(d)


def builds(rng, cols):
    n = len(cols)
    m = n + rng.choice([0, 0, 1, 2])
    pad = list(cols) + [1 << i for i in range(n, m)]
    out = [('vector', lambda: WalshPerm(list(pad))), ('vector', lambda: WalshPerm(vector=list(pad)))]
    if pad:
        out.append(('tuple vector', lambda: WalshPerm(tuple(pad))))
        out.append(('matrix', lambda: WalshPerm(matrix=np.array(rows(cols, m), dtype=int))))
        long = [gf2_apply(cols, i) for i in range(1 << m)]
        if m <= 7:
            out.append(('sequence', lambda: WalshPerm(perm=list(long))))
            if n:
                out.append(('perm', lambda: WalshPerm(perm=Perm(long, perilen=len(long)))))
                out.append(('perm, trusted', lambda: WalshPerm(perm=list(long), trust=True)))
                out.append(('vector, trusted', lambda: WalshPerm(list(pad), trust=True)))
    else:
        out.append(('nothing', lambda: WalshPerm()))
        out.append(('matrix', lambda: WalshPerm(matrix=np.array([[1]]))))
        out.append(('sequence', lambda: WalshPerm(perm=[0, 1])))
    return out


def views(c, w, cols, t):
    rng = c.rng
    n = len(cols)
    N = 1 << n
    long = [gf2_apply(cols, i) for i in range(N)]
    ref = RefPerm(long if n else [], N if n else None)

    def v_entries():
        k = min(N + 3, 300)
        c.eq('entries', [w[i] for i in range(k)], [gf2_apply(cols, i) if n else i for i in range(k)], t)
        far = rng.randrange(1 << (n + 5)) if rng.random() < .5 else rng.getrandbits(rng.choice([31, 32, 53, 63, 64, 65, 130]))
        c.eq('entries', w[far], gf2_apply(cols, far), far, t)

    def v_sequence():
        if n:
            c.eq('sequence', w.sequence(), long, t)
        d = n + rng.randint(0, 2)
        want = [gf2_apply(cols, i) for i in range(1 << d)]
        c.eq('sequence', w.sequence(degree=d), want, d, t)
        c.eq('sequence', w.sequence(length=1 << d), want, d, t)
        if n:
            c.raises('sequence-refused', lambda: w.sequence(degree=n - 1), RequestedDegreeSmallerActualDegreeError, t)
            c.raises('sequence-refused', lambda: w.sequence(length=N // 2), RequestedDegreeSmallerActualDegreeError, t)
            c.raises('sequence-refused', lambda: w.sequence(length=N, degree=n), RedundantParametersError, t)
        c.raises('sequence-refused', lambda: w.sequence(length=3 * N if N > 1 else 3), NotPowerOfTwoError, t)

    def v_vector():
        c.eq('vector', w.vector(), cols, t)
        k = n + rng.randint(0, 3)
        c.eq('vector', w.vector(k), cols + [1 << i for i in range(n, k)], k, t)
        if n:
            c.raises('size-refused', lambda: w.vector(n - 1), RequestedDegreeSmallerActualDegreeError, t)

    def v_transpose_vector():
        tr = gf2_transpose(cols)
        tr = tr + [1 << i for i in range(len(tr), n)]
        c.eq('transpose_vector', w.transpose_vector(), tr, t)
        k = n + rng.randint(0, 3)
        c.eq('transpose_vector', w.transpose_vector(k), tr + [1 << i for i in range(n, k)], k, t)
        if n:
            c.raises('size-refused', lambda: w.transpose_vector(n - 1), RequestedDegreeSmallerActualDegreeError, t)

    def v_matrix():
        c.eq('matrix', np.asarray(w.matrix()).tolist(), rows(cols, n), t)
        c.eq('matrix', np.asarray(w.matrix_minimal).tolist(), rows(cols, n), t)
        k = n + rng.randint(0, 3)
        c.eq('matrix', np.asarray(w.matrix(k)).tolist(), rows(cols, k), k, t)
        if n:
            c.raises('size-refused', lambda: w.matrix(n - 1), RequestedDegreeSmallerActualDegreeError, t)

    def v_cycles():
        c.eq('cycles', w.cycles, ref.cycles(), t)
        if n:
            c.eq('cycles', w.cycles_dynamic(), ref.cycles(), t)
            want = [[e + j * N for e in cyc] for j in range(2) for cyc in ref.cycles()]
            c.eq('cycles', w.cycles_dynamic(degree=n + 1), want, t)
            c.eq('cycles', w.cycles_dynamic(length=2 * N), want, t)
        c.eq('order', int(w.order), ref.order(), t)

    def v_complement():
        top = N - 1
        want = top - long.index(top) if n else 0
        c.eq('complement', int(w.complement_distance), want, t)
        d = n + rng.randint(0, 2)
        full = (1 << d) - 1
        c.eq('complement', int(w.complement_pattern(d)), full - want, d, t)
        c.eq('complement', gf2_apply(cols, int(w.complement_pattern(d))), full, d, t)

    def v_str():
        s = str(w)
        c.eq('repr', repr(w), s)
        q = eval(s, {'WalshPerm': WalshPerm})
        c.true('eval-str', q == w and str(q) == s, s, t)
        c.eq('eval-str', q.vector(), cols, s, t)

    def v_perm():
        if n:
            p = Perm(long, perilen=N)
            c.true('equals-perm', w == p and p == w, t)
            i, j = rng.sample(range(N), 2)
            long2 = list(long)
            long2[i], long2[j] = long2[j], long2[i]
            q = Perm(long2, perilen=N)
            c.true('equals-perm', not (w == q) and not (q == w), t)
        else:
            c.true('equals-perm', w == Perm() and Perm() == w, t)

    def v_inherited():
        if n <= 4:
            inv = {(i, j) for i in range(N) for j in range(i + 1, N) if long[i] > long[j]}
            c.eq('inherited', set(w.inversion_set), inv if n else set(), t)
            c.eq('inherited', int(w.parity), len(inv) % 2 if n else 0, t)
        i, j = sorted((rng.randint(0, N), rng.randint(0, N)))
        c.eq('inherited', w[i:j], [gf2_apply(cols, k) for k in range(i, j)], i, j, t)
        if n:
            c.eq('inherited', w[:], long, t)
        if 0 < n <= 2:
            p = w.schoute_perm
            for k in range(1 << N):
                want = sum((k >> i & 1) << long[i] for i in range(N))
                c.eq('inherited', p[k], want, k, t)

    tests = [v_inherited, v_entries, v_sequence, v_vector, v_transpose_vector, v_matrix, v_cycles, v_complement, v_str, v_perm,
             lambda: c.eq('degree', int(w.degree), n, t),
             lambda: c.eq('period', None if w.perilen is None else int(w.perilen), N if n else None, t),
             lambda: c.eq('neutral', bool(w.neutral), n == 0, t),
             lambda: c.eq('mapping', dict(w.mapping), {i: long[i] for i in range(N) if long[i] != i}, t),
             lambda: c.eq('mapping', set(w.moved), ref.moved(), t),
             lambda: c.eq('determinant', int(w.determinant), det(rows(cols, n)), t)]
    rng.shuffle(tests)
    for f in tests:
        f()


def judge(c, cols):
    cols = gf2_canon(cols)
    c.state(tuple(cols), trivial=not cols)
    objs = []
    for how, make in builds(c.rng, cols):
        w = make()
        objs.append((how, w))
        views(c, w, cols, f'{how} of {cols}')
    h0, w0 = objs[0]
    for h, w in objs[1:]:
        c.true('equal', w == w0 and w0 == w and not w != w0 and str(w) == str(w0), h0, h, cols)
    return w0


@scenario(quick=900, thorough=12000)
def maps(c):
    n = c.rng.choice([0, 1, 2, 2, 3, 3, 4, 4, 5, 6] + ([7, 8] if c.index % 12 == 0 else [])) if c.index % 150 else 10
    cols = gen.invertible_matrix(c.rng, n)
    w = judge(c, cols)
    c.sample(f'{w}')
    if n > 1:
        i, j = c.rng.sample(range(n), 2)
        d = list(cols)
        d[i] ^= cols[j]
        o = WalshPerm(d)
        c.true('different', not (o == w) and o != w and not (w == o) and w != o and str(o) != str(w), cols, d)
        k = c.rng.randint(1, 3)                   # the same map on the lower digits, another one on further digits
        if n + k <= 9:
            d = cols + [e << n for e in gen.invertible_matrix(c.rng, k)]
            o = WalshPerm(d)
            same = d[n:] == [1 << n + i for i in range(k)]
            c.eq('different', [bool(o == w), bool(w == o), o != w, w != o], [same, same, not same, not same], cols, d)


@scenario(quick=1200, thorough=15000)
def refused(c):
    rng = c.rng
    kind = c.index % 6
    n = rng.choice([2, 3, 3, 4, 4, 5, 6, 7])
    cols = gen.invertible_matrix(rng, n)
    if kind in (0, 1):            # singular modulo two (also with odd shapes: zero column, equal columns, even determinant)
        bad = list(cols)
        i, *others = rng.sample(range(n), n)
        acc = 0
        for j in rng.sample(others, rng.randint(0, len(others))):
            acc ^= bad[j]
        bad[i] = acc
        assert gf2_rank(bad) < n
        c.state('singular', tuple(bad))
        if kind == 0:
            c.raises('singular-refused', lambda: WalshPerm(list(bad)), (InvalidMatrixError,), bad)
        else:
            c.raises('singular-refused', lambda: WalshPerm(matrix=np.array(rows(bad, n))), (InvalidMatrixError,), bad)
    elif kind == 2:               # a permutation of 2**n numbers that is not linear
        m = rng.choice([2, 3, 3, 4, 4, 5, 6])
        cols = gen.invertible_matrix(rng, m)
        p = [gf2_apply(cols, i) for i in range(1 << m)]
        r = rng.random()
        if r < .4:
            i, j = rng.sample(range(1 << m), 2)
            p[i], p[j] = p[j], p[i]
        elif r < .7:
            rng.shuffle(p)
        else:                     # affine
            k = rng.randrange(1, 1 << m)
            p = [e ^ k for e in p]
        linear = all(p[x] == gf2_apply([p[1 << i] for i in range(m)], x) for x in range(1 << m))
        c.state('perm', tuple(p))
        if linear:
            w = WalshPerm(perm=list(p))
            c.eq('entries', [w[i] for i in range(1 << m)], p)
        else:
            c.raises('nonlinear-refused', lambda: WalshPerm(perm=list(p)), InvalidPermError, p)
            c.raises('nonlinear-refused', lambda: WalshPerm(perm=Perm(p, perilen=len(p))), (InvalidPermError, PermLengthError), p)
    elif kind == 3:               # no permutation at all
        m = rng.choice([1, 2, 3])
        cols = gen.invertible_matrix(rng, m)
        p = [gf2_apply(cols, i) for i in range(1 << m)]
        i = rng.randrange(1 << m)
        p[i] = rng.choice([p[i - 1], 1 << m, -1])
        c.state('no perm', tuple(p))
        c.raises('no-permutation-refused', lambda: WalshPerm(perm=list(p)), NotEvenPermutationError, p)
    elif kind == 4:               # wrong length or shape
        k = rng.choice([3, 5, 6, 7, 9, 12])
        p = list(range(k))
        rng.shuffle(p)
        c.state('length', tuple(p))
        c.raises('size-refused', lambda: WalshPerm(perm=list(p)), PermLengthError, p)
        m = rows(cols, n)[:-1]
        c.raises('size-refused', lambda: WalshPerm(matrix=np.array(m)), NotSquareError, m)
    else:
        c.state('args', tuple(cols))
        v, m = list(cols), np.array(rows(cols, n))
        c.raises('size-refused', lambda: WalshPerm(vector=v, matrix=m), TooManyArgumentsError)
        c.raises('size-refused', lambda: WalshPerm(vector=v, perm=[0, 2, 1, 3]), TooManyArgumentsError)
        c.raises('size-refused', lambda: WalshPerm(matrix=m, perm=[0, 2, 1, 3]), TooManyArgumentsError)
        long = list(cols)
        long[rng.randrange(n)] |= 1 << n         # entry too long for the degree
        c.raises('size-refused', lambda: WalshPerm(long), ValueError, long)


@scenario(quick=48, thorough=48)
def all_small(c):
    """all vectors of degree 1 to 3, and all permutations of four numbers"""
    for n in (1, 2, 3):
        for code in range(c.index, 8 ** n if n == 3 else (2 ** n) ** n, c.total):
            q = code
            cols = []
            for _ in range(n):
                cols.append(q % 2 ** n)
                q //= 2 ** n
            ok = gf2_rank(cols) == n
            c.state('small', tuple(cols))
            c.hit('all-small')
            if ok:
                w = WalshPerm(list(cols))
                c.eq('vector', w.vector(), gf2_canon(cols))
                c.eq('entries', [w[i] for i in range(2 ** n)], [gf2_apply(cols, i) for i in range(2 ** n)])
            else:
                c.raises('singular-refused', lambda: WalshPerm(list(cols)), NotWalshPermError, cols)
    ps = list(permutations(range(4)))
    for p in ps[c.index::c.total]:
        linear = p[0] == 0
        if linear:
            w = WalshPerm(perm=list(p))
            c.eq('entries', [w[i] for i in range(4)], p)
        else:
            c.raises('nonlinear-refused', lambda: WalshPerm(perm=list(p)), InvalidPermError, p)
