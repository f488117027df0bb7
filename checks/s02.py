import numpy as np

from discretehelpers.sig_perm import SigPerm
from discretehelpers.perm import Perm

from lib import hooks, gen
from lib.core import scenario
from lib.ref import sig_canon, sig_mul, sig_inv, sig_at, sig_on_number

PROPERTY = 'S02'
RULE = ('Cases draw pairs, triples and words of signed permutations up to 9 (some up to 70) elements of different sizes, and vectors and numbers longer than them; product, inverse, powers and actions are compared with '
        'composition of signed maps. A state is the tuple of operands; trivial when all are neutral.')
REQUIRED = ['product', 'matrix-product', 'associative', 'inverse', 'power', 'word', 'vector', 'vector-product', 'number', 'number-product', 'operands-unchanged', 'too-short']


def prepare():
    hooks.install_perm()


def draw(rng, top=9):
    n = rng.choice([k for k in (0, 1, 2, 3, 4, 5, 6, 7, 9) if k <= top])
    if top == 9 and rng.random() < .02:
        n = rng.choice([16, 31, 33, 64, 70])
    s = sig_canon(gen.signed_seq(rng, n))
    return SigPerm(sequence=list(s)), s


def power(s, k):
    base = s if k >= 0 else sig_inv(s)
    out = []
    for _ in range(abs(k)):
        out = sig_mul(out, base)
    return out


def act(s, vec):
    out = [None] * len(vec)
    for i, v in enumerate(vec):
        x = sig_at(s, i)
        out[x if x >= 0 else ~x] = v if x >= 0 else ~v
    return out


@scenario(quick=6000, thorough=60000)
def pairs(c):
    a, s = draw(c.rng)
    b, t = draw(c.rng)
    d, u = draw(c.rng, 5)
    c.state(tuple(s), tuple(t), trivial=not s and not t)
    c.sample(f'{a} * {b}')
    p = a * b
    c.eq('product', p.sequence(), sig_mul(s, t), s, t)
    c.true('product', isinstance(p, SigPerm), s, t)
    n = max(len(s), len(t))
    c.eq('matrix-product', np.asarray(p.matrix(n)).tolist(), np.dot(a.matrix(n), b.matrix(n)).tolist(), s, t)
    c.true('associative', (a * b) * d == a * (b * d), s, t, u)
    i = a.inverse
    c.eq('inverse', i.sequence(), sig_inv(s), s)
    c.true('inverse', (a * i).neutral and (i * a).neutral and i.inverse == a, s)
    c.true('inverse', p.inverse == b.inverse * a.inverse, s, t)
    k = c.rng.randint(-5, 6)
    q = a ** k
    c.eq('power', q.sequence(), power(s, k), k, s)
    j = c.rng.randint(-3, 3)
    c.true('power', (a ** j) * q == a ** (j + k), j, k, s)
    e = SigPerm(sequence=[])
    c.true('neutral', a * e == a and e * a == a, s)
    c.eq('operands-unchanged', [a.sequence(), b.sequence()], [s, t], s, t)


@scenario(quick=6000, thorough=60000)
def actions(c):
    a, s = draw(c.rng)
    b, t = draw(c.rng)
    c.state(tuple(s), tuple(t), 'action', trivial=not s)
    n = max(len(s), len(t)) + c.rng.choice([0, 0, 1, 4])
    vec = [c.rng.randint(-9, 9) for _ in range(n)]
    given = list(vec)
    r = a.apply_on_vector(given)
    c.true('vector', type(r) is list, s)
    c.eq('vector', r, act(s, vec), s, vec)
    c.eq('operands-unchanged', given, vec, s)
    r = a.apply_on_vector(tuple(vec))
    c.true('vector', type(r) is tuple, s)
    c.eq('vector', r, act(s, vec), s, vec)
    c.eq('vector-product', (a * b).apply_on_vector(list(vec)), a.apply_on_vector(b.apply_on_vector(list(vec))), s, t, vec)
    c.eq('vector-product', a.inverse.apply_on_vector(a.apply_on_vector(list(vec))), vec, s)
    m = c.rng.choice([0, 1, c.rng.getrandbits(max(1, len(s))), c.rng.getrandbits(max(1, n + 3)), c.rng.getrandbits(20), c.rng.getrandbits(c.rng.choice([31, 53, 63, 64, 65, 130]))])
    c.eq('number', int(a.apply_on_natural_number(m)), sig_on_number(s, m), s, m)
    c.eq('number-product', int((a * b).apply_on_natural_number(m)),
         int(a.apply_on_natural_number(int(b.apply_on_natural_number(m)))), s, t, m)
    c.eq('operands-unchanged', [a.sequence(), b.sequence()], [s, t], s, t)
    if s:
        c.raises('too-short', lambda: a.apply_on_vector(vec[:len(s) - 1]), ValueError, s)
    # ordinary permutations act alike
    if all(v >= 0 for v in s) and s:
        c.eq('vector', Perm(s).apply_on_vector(list(vec)), act(s, vec), s, vec)


@scenario(quick=2000, thorough=20000)
def words(c):
    gens = [draw(c.rng, 6) for _ in range(3)]
    p, s, text = SigPerm(sequence=[]), [], []
    for _ in range(c.rng.randint(2, 12)):
        k = c.rng.randrange(3)
        e = c.rng.choice([1, 1, -1, 2, -2, 0, 3])
        g, t = gens[k]
        f, u = g ** e, power(t, e)
        text.append(f'g{k}^{e}')
        if c.rng.random() < .5:
            p, s = p * f, sig_mul(s, u)
        else:
            p, s = f * p, sig_mul(u, s)
        c.eq('word', p.sequence(), s, ' '.join(text), [t for _, t in gens])
    c.state(' '.join(text), tuple(tuple(t) for _, t in gens))
    c.sample(f'word {" ".join(text)} over {[str(g) for g, _ in gens]}')
    c.eq('operands-unchanged', [g.sequence() for g, _ in gens], [t for _, t in gens])
