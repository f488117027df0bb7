from math import factorial

from discretehelpers.a import int_to_perm, int_to_factoradic, rev_colex_perms
from discretehelpers.perm import Perm
from discretehelpers.perm.a import (
    left_inversion_count, right_inversion_count, inversion_vector,
    left_inversion_count_to_permutation, right_inversion_count_to_permutation,
    inversion_set_to_count, inversion_set_to_permutation
)

from lib import hooks, gen
from lib.core import scenario
from lib.errors import error
from lib.ref import lex_rank, rev_colex_rank

PermNotFiniteError = error('perm.metributes.ranks.ex', 'PermNotFiniteError', ValueError)

PROPERTY = 'P03'
RULE = ('Permutations are drawn at random (up to 40 places) and enumerated by rank in consecutive stripes; ranks, digits, inversion sets, counts and reconstructions '
        'are compared with direct counting, and unranking with sorting all permutations of up to 6 places. A state is the sequence; trivial below two places.')
REQUIRED = ['left_rank', 'right_rank', 'int_to_perm', 'factoradic', 'inversion_set', 'left-count', 'right-count', 'vector',
            'left-reconstruct', 'right-reconstruct', 'set-to-count', 'set-reconstruct', 'successor', 'enumeration', 'periodic-refused']


def prepare():
    hooks.install_perm()


def trim(seq):
    seq = list(seq)
    while seq and seq[-1] == len(seq) - 1:
        seq.pop()
    return seq


def judge(c, seq):
    n = len(seq)
    p = Perm(list(seq))
    t = trim(seq)
    pairs = {(i, j) for j in range(n) for i in range(j) if seq[i] > seq[j]}
    left = [sum(1 for i, j in pairs if j == k) for k in range(n)]
    right = [sum(1 for i, j in pairs if i == k) for k in range(n)]
    byval = [0] * n
    for k in range(n):
        byval[seq[k]] = left[k]
    c.state(tuple(seq), trivial=n < 2)

    def ranks():
        c.eq('left_rank', int(p.left_rank), rev_colex_rank(seq), seq)
        c.eq('right_rank', int(p.right_rank), lex_rank(t), seq)
        c.true('int_to_perm', int_to_perm(int(p.left_rank)) == p, seq)

    def sets():
        c.eq('inversion_set', p.inversion_set, pairs, seq)

    def counts():
        given = list(seq)
        c.eq('left-count', left_inversion_count(given), left, seq)
        c.eq('right-count', right_inversion_count(given), right, seq)
        c.eq('vector', inversion_vector(given), byval, seq)
        c.eq('unchanged', given, seq)

    def back():
        c.eq('left-reconstruct', left_inversion_count_to_permutation(list(left)), seq)
        c.eq('right-reconstruct', right_inversion_count_to_permutation(list(right)), seq)
        c.eq('set-to-count', inversion_set_to_count(set(pairs)), left[:len(t)], seq)
        c.eq('set-to-count', inversion_set_to_count(set(pairs), True), left[:len(t)], seq)
        c.eq('set-to-count', inversion_set_to_count(set(pairs), False), right[:len(t)], seq)
        c.eq('set-reconstruct', inversion_set_to_permutation(set(pairs)), t, seq)

    tests = [ranks, sets, counts, back]
    c.rng.shuffle(tests)
    for f in tests:
        f()
    return p


@scenario(quick=6000, thorough=60000)
def random_permutations(c):
    n = c.rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 21, 25, 30, 40])
    seq = gen.perm_seq(c.rng, n)
    judge(c, seq)
    c.sample(str(seq))


@scenario(quick=3000, thorough=40000)
def numbers(c):
    """unranking of numbers of every magnitude"""
    k = c.index % 45
    n = max(0, factorial(k) * c.rng.randint(1, k + 1) + c.rng.choice([-2, -1, 0, 1, c.rng.randrange(factorial(k))]))
    digits = int_to_factoradic(n)
    c.state('number', n, trivial=n < 2)
    c.eq('factoradic', sum(d * factorial(i) for i, d in enumerate(digits)), n)
    c.true('factoradic', all(0 <= d <= i for i, d in enumerate(digits)), n, digits)
    c.true('factoradic', not digits or digits[-1] != 0, n, digits)
    p = int_to_perm(n)
    seq = [int(e) for e in p.sequence()]
    c.eq('int_to_perm', rev_colex_rank(seq), n, seq)
    c.eq('int_to_perm', len(seq), len(digits), n)
    c.eq('left_rank', int(p.left_rank), n)
    c.sample(f'{n} -> {seq}')


@scenario(quick=1500, thorough=15000)
def stripes(c):
    """consecutive ranks give consecutive permutations in reverse colexicographic order"""
    span = factorial(8)
    start = c.rng.randrange(span) if c.index % 3 else (c.index // 3 * 20) % span
    prev = None
    for r in range(start, start + 20):
        seq = [int(e) for e in int_to_perm(r).sequence()]
        full = seq + list(range(len(seq), 12))
        key = full[::-1]                       # reverse colex: later permutations have smaller reversed words
        if prev is not None:
            c.true('successor', key < prev, r, seq)
        prev = key
        c.eq('left_rank', int(Perm(full).left_rank), r, seq)
    c.state('stripe', start)
    judge(c, full[:c.rng.randint(max(len(seq), 1), 12)])


@scenario(quick=48, thorough=96)
def enumeration(c):
    from itertools import permutations
    n = c.index % 7
    want = sorted(permutations(range(n)), key=lambda s: [-e for e in reversed(s)])
    got = [tuple(int(e) for e in s) for s in rev_colex_perms(n)]
    c.eq('enumeration', got, want, n)
    c.eq('enumeration', [int(Perm(list(s)).left_rank) for s in got] if n else [0], list(range(len(got))), n)
    lex = list(permutations(range(n)))
    for s in c.rng.sample(lex, min(len(lex), 40)):
        p = Perm(list(s))
        m = int(p.length)
        c.eq('right_rank', int(p.right_rank), sorted(permutations(range(m))).index(tuple(s[:m])), s)
    c.state('all', n)


@scenario(quick=500, thorough=4000)
def periodic(c):
    n = c.rng.randint(2, 9)
    seq = gen.perm_seq(c.rng, n)
    p = Perm(seq, perilen=n)
    if p.neutral:
        c.state('neutral', n, trivial=True)
        return
    c.state('periodic', tuple(seq))
    c.raises('periodic-refused', lambda: p.left_rank, PermNotFiniteError, str(p))
    c.raises('periodic-refused', lambda: p.right_rank, PermNotFiniteError, str(p))
    m = int(p.perilen)
    c.eq('inversion_set', p.inversion_set, {(i, j) for j in range(m) for i in range(j) if seq[i] > seq[j]}, str(p))
