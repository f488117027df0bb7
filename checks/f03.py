from discretehelpers.binv import Binv
from discretehelpers.boolf import Boolf
from discretehelpers.perm import Perm
from discretehelpers.sig_perm import SigPerm

from lib import hooks, gen
from lib.core import scenario
from lib.errors import error
from lib.ref import RefF, sig_mul, sig_canon, sig_inv

SarityMismatchError = error('boolf.methods.vals_apply.ex', 'SarityMismatchError', ValueError)
UnexpectedArgumentError = error('boolf.methods.vals_apply.ex', 'UnexpectedArgumentError', TypeError)

PROPERTY = 'F03'
RULE = ('Functions of up to 5 arguments on dense and sparse argument sets are evaluated at single assignments and lists of values, applied to lists of signed arguments and to signed and unsigned permutations, and renamed repeatedly; '
        'every result is compared with direct substitution. A state is the function with the substitution; trivial for constants and neutral permutations.')
REQUIRED = ['val', 'val-lists', 'vals', 'apply', 'apply-refused', 'apply_sigperm', 'apply_sigperm-forms', 'composition', 'inverse', 'homomorphism', 'constant', 'operands-unchanged', 'boolf-canonical']


def prepare():
    hooks.install_boolf()


def agree(c, monitor, f, r, *ctx):
    c.eq(monitor, [int(a) for a in f.atomvals], list(r.atoms), *ctx)
    c.eq(monitor, [bool(b) for b in f.root.vector], list(r.bits), *ctx)


def draw(rng, big=5):
    n = rng.choice([k for k in (0, 1, 1, 2, 2, 3, 3, 4, 5) if k <= big])
    return RefF(sorted(gen.atoms(rng, n)), gen.table(rng, n))


def rename(r, s):
    """signed permutation: argument a becomes s[a]"""
    return r.substitute([s[a] if a < len(s) else a for a in r.atoms])


@scenario(quick=3500, thorough=40000)
def evaluate(c):
    rng = c.rng
    r = draw(rng)
    f = Boolf(list(r.bits), list(r.atoms))
    n = r.valency
    c.state('eval', r.key, trivial=not r.atoms)
    for x in (range(1 << n) if n < 4 else rng.sample(range(1 << n), 8)):
        args = [x >> i & 1 for i in range(n)]
        args = [bool(a) for a in args] if rng.random() < .5 else args
        c.eq('val', bool(f.val(*args)), r.bits[x], args, r)
    if n:
        k = rng.randint(1, 9) if rng.random() < .97 else rng.randint(10, 300)
        cols = [[rng.getrandbits(1) for _ in range(k)] for _ in range(n)]
        want = [r.bits[sum(col[i] << j for j, col in enumerate(cols))] for i in range(k)]
        c.eq('val-lists', [bool(b) for b in f.val(*cols)], want, cols, r)
        c.eq('val-lists', [bool(b) for b in f.val(*[Binv(col) for col in cols])], want, cols, r)
        s = gen.signed_seq(rng, n)
        # i-th argument gets the pattern of the (negated) place s[i]
        want = [r.bits[sum(((x >> e & 1) if e >= 0 else 1 - (x >> ~e & 1)) << i for i, e in enumerate(s))] for x in range(1 << n)]
        c.eq('vals', [bool(b) for b in f.vals(*s)], want, s, r)
        c.raises('apply-refused', lambda: f.val(*[0] * (n + 1)), SarityMismatchError, r)
        c.raises('apply-refused', lambda: f.val(*[2] * n), UnexpectedArgumentError, r)
        c.raises('apply-refused', lambda: f.vals(*range(1, n + 1)), UnexpectedArgumentError, r)
    else:
        c.eq('constant', bool(f.val()), r.bits[0], r)
        c.eq('constant', [bool(b) for b in f.vals()], [r.bits[0]], r)
        c.true('constant', f.apply() == f, r)
    c.raises('apply-refused', lambda: f.apply(*range(n + 1)), SarityMismatchError, r)
    agree(c, 'operands-unchanged', f, r)


@scenario(quick=3500, thorough=40000)
def substitute(c):
    rng = c.rng
    r = draw(rng)
    if rng.random() < .1:                         # arguments with large gaps
        r = RefF(sorted(rng.sample(range(rng.choice([20, 70])), r.valency)), r.bits)
    f = Boolf(list(r.bits), list(r.atoms))
    n = r.valency
    target = rng.sample(range(rng.choice([n, n + 2, 12, 12, 70]) or 1), n) if n else []
    signed = [a if rng.random() < .5 else ~a for a in target]
    c.state('apply', r.key, tuple(signed), trivial=not r.atoms)
    g = f.apply(*signed)
    agree(c, 'apply', g, r.substitute(signed), signed, r)
    c.sample(f'{f}.apply{tuple(signed)} -> {g}')
    if n > 1:
        rep = list(signed)
        i, j = rng.sample(range(n), 2)
        rep[i] = rng.choice([rep[j], ~rep[j]])
        c.raises('apply-refused', lambda: f.apply(*rep), UnexpectedArgumentError, rep, r)
    agree(c, 'operands-unchanged', f, r)


@scenario(quick=5000, thorough=60000)
def rename_by_permutation(c):
    rng = c.rng
    r, q = draw(rng, 4), draw(rng, 3)
    f, g = Boolf(list(r.bits), list(r.atoms)), Boolf(list(q.bits), list(q.atoms))
    s = sig_canon(gen.signed_seq(rng, rng.randint(0, 8)))
    t = sig_canon(gen.signed_seq(rng, rng.randint(0, 8)))
    c.state('sigperm', r.key, tuple(s), trivial=not r.atoms or not s)
    want = rename(r, s)
    S, T = SigPerm(sequence=list(s)), SigPerm(sequence=list(t))
    h = f.apply_sigperm(S)
    agree(c, 'apply_sigperm', h, want, s, r)
    if s:
        pad = list(s) + list(range(len(s), len(s) + rng.randint(0, 2)))
        agree(c, 'apply_sigperm-forms', f.apply_sigperm(rng.choice([list, tuple])(pad)), want, s, r)
    u = [e if e >= 0 else ~e for e in s]
    agree(c, 'apply_sigperm-forms', f.apply_sigperm(Perm(u)), rename(r, u), u, r)
    agree(c, 'composition', h.apply_sigperm(T), rename(want, t), s, t, r)
    agree(c, 'composition', f.apply_sigperm(T * S), rename(want, t), s, t, r)
    c.true('composition', h.apply_sigperm(T) == f.apply_sigperm(T * S), s, t, r)
    c.true('inverse', h.apply_sigperm(S.inverse) == f, s, r)
    agree(c, 'inverse', f.apply_sigperm(S.inverse), rename(r, sig_inv(s)), s, r)
    if len(set(r.atoms) | set(q.atoms)) <= 6:
        for op in ('__and__', '__or__', '__xor__'):
            a = getattr(f, op)(g).apply_sigperm(S)
            b = getattr(f.apply_sigperm(S), op)(g.apply_sigperm(S))
            c.true('homomorphism', a == b, op, s, r, q)
    c.true('homomorphism', (~f).apply_sigperm(S) == ~h, s, r)
    agree(c, 'operands-unchanged', f, r)
