from itertools import permutations

import numpy as np

from discretehelpers.binv import Binv
from discretehelpers.perm import Perm
from discretehelpers.sig_perm import SigPerm
from discretehelpers.sig_perm.a import matrix_to_sequence, sequence_to_matrix

from lib import hooks, gen
from lib.core import scenario
from lib.ref import sig_canon, sig_inv, sig_on_number, rev_colex_rank

PROPERTY = 'S01'
RULE = ('Signed permutations are enumerated up to 3 and drawn up to 10 elements, built through all constructors with random redundant padding, and all views are read in random order and '
        'compared with the signed sequence. A state is (signed sequence, constructor); trivial for the neutral one.')
REQUIRED = ['sequence', 'sequence-refused', 'matrix', 'matrix-refused', 'length', 'keyneg_index', 'valneg_index', 'perm_index', 'pair', 'binv', 'perm', 'equal',
            'different', 'hash', 'eval-str', 'entries', 'equals-perm', 'conversion', 'flags']


def prepare():
    hooks.install_perm()
    hooks.install_binv()


def ref_matrix(s, size):
    m = [[0] * size for _ in range(size)]
    for k in range(size):
        v = s[k] if k < len(s) else k
        m[v if v >= 0 else ~v][k] = 1 if v >= 0 else -1
    return m


def constructors(rng, s):
    n = len(s)
    absv = [v if v >= 0 else ~v for v in s]
    neg_vals = sorted(~v for v in s if v < 0)
    neg_keys = [k for k, v in enumerate(s) if v < 0]
    pn = list(absv)
    while pn and pn[-1] == len(pn) - 1:
        pn.pop()
    vi, ki = sum(1 << v for v in neg_vals), sum(1 << k for k in neg_keys)
    pi = rev_colex_rank(absv)

    def pad(p):
        return list(p) + list(range(len(p), len(p) + rng.choice([0, 0, 1, 2])))

    def perms():
        return rng.choice([
            lambda: dict(perm=pad(pn)), lambda: dict(perm=tuple(pad(pn))), lambda: dict(perm=Perm(pad(pn))), lambda: dict(perm_index=pi)])()

    def negs(kind, places):
        top = max(places, default=-1) + 1
        bits = [int(i in places) for i in range(top + rng.choice([0, 0, 1, 3]))]
        idx = sum(1 << v for v in places)
        opts = [{kind: set(places)}, {kind: bits}, {kind: tuple(bits)}, {kind: Binv([bool(b) for b in bits])}, {kind + '_index': idx}]
        if kind == 'valneg':
            opts.append({kind: ''.join(map(str, bits))})
        return rng.choice(opts)

    size = n + rng.choice([0, 0, 1, 2])
    out = [
        dict(sequence=list(s)), dict(sequence=pad(s)), dict(sequence=tuple(pad(s))),
        dict(**negs('valneg', neg_vals), **perms()), dict(**negs('valneg', neg_vals), **perms()),
        dict(**negs('keyneg', neg_keys), **perms()), dict(**negs('keyneg', neg_keys), **perms()),
        dict(pair=rng.choice([tuple, list])((vi, pi))),
        dict(matrix=np.array(ref_matrix(s, size), dtype=int).reshape(size, size)),
    ]
    if size:
        out.append(dict(matrix=ref_matrix(s, size)))
    if n <= 6:
        N = 1 << n
        long = [sig_on_number(s, i) for i in range(N)]
        if n:
            out.append(dict(schoute_perm=Perm(long, perilen=N)))
            out.append(dict(schoute_perm=rng.choice([list, tuple])(long)))
            out.append(dict(schoute_perm=[sig_on_number(s, i) for i in range(2 * N)]))
        else:
            out.append(dict(schoute_perm=Perm()))
    return out, vi, ki, pi, pn, neg_vals


def text(kw):
    return ', '.join(f'{k}={v!r}' for k, v in kw.items())


@scenario(quick=4000, thorough=40000)
def views(c):
    rng = c.rng
    if c.index < 48:
        seqs = list(permutations(range(3)))
        s = [~e if (c.index % 8) >> k & 1 else e for k, e in enumerate(seqs[c.index // 8])]
    else:
        s = gen.signed_seq(rng, rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10 if c.index % 40 else rng.choice([14, 20, 26, 40, 130])]))
    s = sig_canon(s)
    n = len(s)
    kws, vi, ki, pi, pn, neg_vals = constructors(rng, s)
    objs = []
    for kw in kws:
        t = text(kw)
        o = SigPerm(**kw)
        c.eq('argument-unchanged', text(kw), t)
        objs.append((o, t))
        c.state(tuple(s), tuple(sorted(kw)), trivial=n == 0)

        def v_sequence():
            c.eq('sequence', o.sequence(), s, t)
            c.eq('sequence', o.sequence_minimal, s, t)
            k = n + rng.randint(0, 4)
            c.eq('sequence', o.sequence(k), s + list(range(n, k)), k, t)
            if n:
                c.raises('sequence-refused', lambda: o.sequence(rng.randrange(n)), ValueError, t)

        def v_matrix():
            size = n + rng.randint(0, 3)
            c.eq('matrix', np.asarray(o.matrix(size)).tolist(), ref_matrix(s, size), size, t)
            c.eq('matrix', np.asarray(o.matrix()).tolist(), ref_matrix(s, n), t)
            if n:
                c.raises('matrix-refused', lambda: o.matrix(n - 1), ValueError, t)

        def v_str():
            x = str(o)
            c.eq('repr', repr(o), x)
            q = eval(x, {'SigPerm': SigPerm})
            c.true('eval-str', q == o and str(q) == x, x, t)
            c.eq('eval-str', q.sequence(), s, x, t)

        def v_strings():
            want = '[' + ', '.join(('~' if v < 0 else '') + str(v if v >= 0 else ~v) for v in s) + ']'
            c.eq('sequence_string', o.sequence_string(), want, t)
            c.eq('sequence_string', o.sequence_string(round_parentheses=True), '(' + want[1:-1] + ')', t)

        def v_flags():
            c.eq('flags', [bool(o.unsigned), bool(o.unmoved), bool(o.neutral)], [vi == 0, not pn, n == 0], t)

        tests = [
            v_sequence, v_matrix, v_str, v_strings, v_flags,
            lambda: c.eq('length', o.length, n, t),
            lambda: c.eq('keyneg_index', o.keyneg_index, ki, t),
            lambda: c.eq('valneg_index', o.valneg_index, vi, t),
            lambda: c.eq('perm_index', o.perm_index, pi, t),
            lambda: c.eq('pair', o.pair, (vi, pi), t),
            lambda: c.eq('binv', o.binv.vector, [i in neg_vals for i in range(n)], t),
            lambda: c.true('perm', o.perm == Perm(pn), t),
            lambda: c.eq('entries', [o[i] for i in range(n)], s, t),
        ]
        rng.shuffle(tests)
        for f in tests:
            f()
    o0, t0 = objs[0]
    c.sample(f'{o0}: {len(objs)} constructions, e.g. {objs[-1][1]}')
    for o, t in objs[1:]:
        c.true('equal', o == o0 and o0 == o and not o != o0, t0, t)
        c.true('hash', hash(o) == hash(o0) and str(o) == str(o0), t0, t)
    # told apart from others
    if n:
        k = rng.randrange(n)
        d = list(s)
        d[k] = ~d[k]
        i, j = (rng.sample(range(n), 2) if n > 1 else (0, 0))
        e = list(s)
        e[i], e[j] = e[j], e[i]
        for other in (d, e, s + [~n], sig_inv(s)):
            q = SigPerm(sequence=list(other))
            same = sig_canon(other) == s
            c.eq('different', [bool(q == o0), bool(o0 == q), not q != o0, not o0 != q, str(q) == str(o0)], [same] * 5, s, other)
    # comparison with ordinary permutations
    p = Perm(pn)
    c.eq('equals-perm', [bool(o0 == p), bool(p == o0)], [vi == 0, vi == 0], s)
    if pn:
        c.eq('equals-perm', bool(SigPerm(sequence=pn) == Perm()), False, s)


@scenario(quick=2000, thorough=20000)
def conversions(c):
    """sequence <-> matrix, also transposed"""
    n = c.rng.randint(1, 9)
    s = gen.signed_seq(c.rng, n)
    m = ref_matrix(s, n)
    inv = sig_inv(s)
    inv = inv + list(range(len(inv), n))
    c.state('conversion', tuple(s))
    c.eq('conversion', np.asarray(sequence_to_matrix(list(s))).tolist(), m, s)
    c.eq('conversion', np.asarray(sequence_to_matrix(list(s), inverse=True)).tolist(), [list(r) for r in zip(*m)], s)
    for mat in (m, np.array(m)):
        c.eq('conversion', matrix_to_sequence(mat), s)
        c.eq('conversion', matrix_to_sequence(mat, inverse=True), inv, s)
