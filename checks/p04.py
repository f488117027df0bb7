from itertools import permutations

from discretehelpers.a import schoute_coset_gen, int_to_perm
from discretehelpers.perm import Perm
from discretehelpers.sig_perm import SigPerm

from lib import hooks, gen
from lib.core import scenario
from lib.ref import sig_canon, sig_mul, sig_inv, sig_on_number, RefPerm, rev_colex_rank

PROPERTY = 'P04'
RULE = ('Signed permutations are enumerated up to 3 and drawn up to 7 variables; the Schoute permutation is compared with the digit-wise action on all numbers of the period and beyond, '
        'with products and inverses, and inverted. Cosets are compared with filtering all permutations. A state is the signed sequence or the coset; trivial for the neutral one.')
REQUIRED = ['unsigned', 'signed', 'product', 'inverse', 'recover', 'coset', 'coset-count', 'period']


def prepare():
    hooks.install_perm()


def judge(c, s):
    """s: signed sequence"""
    s = sig_canon(s)
    sp = SigPerm(sequence=list(s))
    q = sp.schoute_perm
    n = len(s)
    c.state(tuple(s), trivial=n == 0)
    N = 1 << n
    c.eq('signed', [q[i] for i in range(N)], [sig_on_number(s, i) for i in range(N)], s)
    if n:
        far = c.rng.randrange(1, 50) * N + c.rng.randrange(N)
        c.eq('signed', q[far], sig_on_number(s, far), s, far)
        c.eq('period', int(q.perilen), N, s)
        m = c.rng.randrange(N * 8)
        c.eq('signed', sp.apply_on_natural_number(m), q[m], s, m)
    else:
        c.true('signed', q.neutral, s)
    back = SigPerm(schoute_perm=q)
    c.true('recover', back == sp, s, str(back))
    if n:
        back = SigPerm(schoute_perm=[q[i] for i in range(N)])
        c.true('recover', back == sp, s, str(back))
    c.true('inverse', sp.inverse.schoute_perm == q.inverse, s)
    c.eq('inverse', [sp.inverse.schoute_perm[i] for i in range(N)], [sig_on_number(sig_inv(s), i) for i in range(N)], s)
    return sp


@scenario(quick=2200, thorough=20000)
def signed(c):
    if c.index < 48:
        i, n = c.index, 3
        seqs = list(permutations(range(3)))
        s = [~e if (i % 8) >> k & 1 else e for k, e in enumerate(seqs[i // 8])]
    else:
        n = c.rng.choice([0, 1, 2, 3, 4, 4, 5, 6, 7])
        s = gen.signed_seq(c.rng, n)
    c.sample(str(s))
    a = judge(c, s)
    t = gen.signed_seq(c.rng, c.rng.randint(0, min(n + 1, 6)))
    b = SigPerm(sequence=list(t))
    c.true('product', (a * b).schoute_perm == a.schoute_perm * b.schoute_perm, s, t)
    m = max(len(s), len(t))
    prod = (a * b).schoute_perm
    c.eq('product', [prod[i] for i in range(1 << m)], [sig_on_number(sig_mul(s, t), i) for i in range(1 << m)], s, t)


@scenario(quick=1500, thorough=15000)
def unsigned(c):
    n = c.rng.choice([0, 1, 2, 3, 4, 5, 6, 7])
    s = gen.perm_seq(c.rng, n)
    p = Perm(s)
    q = p.schoute_perm
    r = RefPerm(s)
    size = len(r.seq)
    c.state('unsigned', tuple(r.seq), trivial=r.neutral)
    N = 1 << size
    c.eq('unsigned', [q[i] for i in range(N)], [sig_on_number(r.seq, i) for i in range(N)], s)
    far = c.rng.randrange(1 << 12) if c.rng.random() < .5 else c.rng.getrandbits(c.rng.choice([31, 32, 53, 63, 64, 65, 130]))
    c.eq('unsigned', q[far], sig_on_number(r.seq, far), s, far)
    c.true('inverse', p.inverse.schoute_perm == q.inverse, s)
    t = gen.perm_seq(c.rng, c.rng.randint(0, 6))
    o = Perm(t)
    c.true('product', (p * o).schoute_perm == q * o.schoute_perm, s, t)
    if size:
        # a vector indexed by numbers is permuted like the numbers
        c.eq('unsigned', q.apply_on_vector([f'v{i}' for i in range(N)]),
             [f'v{sig_on_number(r.inverse().seq, i)}' for i in range(N)], s)


@scenario(quick=600, thorough=3000)
def cosets(c):
    arity = c.rng.randint(1, 5)
    k = c.rng.randint(0, arity)
    keys = sorted(c.rng.sample(range(arity), k))
    vals = sorted(c.rng.sample(range(arity), k))
    ki, vi = sum(1 << e for e in keys), sum(1 << e for e in vals)
    got = [int(e) for e in schoute_coset_gen(ki, vi, arity)]
    want = sorted(rev_colex_rank(p) for p in permutations(range(arity)) if {p[e] for e in keys} == set(vals))
    c.state('coset', ki, vi, arity, trivial=arity < 2)
    c.eq('coset', sorted(got), want, keys, vals, arity)
    c.eq('coset-count', len(set(got)), len(got), keys, vals, arity)
    # equivalently: the Schoute permutations that map one number to the other
    for r in c.rng.sample(got, min(3, len(got))):
        c.eq('coset', int_to_perm(r).schoute_perm[ki], vi, r, ki, vi)
    c.sample(f'places {keys} to {vals} of {arity}: {len(got)} permutations')
