from discretehelpers.binv import Binv
from discretehelpers.binv.ex import LengthError

from lib import hooks, gen
from lib.core import scenario

PROPERTY = 'B01'
RULE = ('Each case draws a bit sequence (uniform, sparse, dense, runs, alternating, constant, or the neighbourhood of a power of two; '
        'length 0 to 300), builds it through every constructor, reads the views in a random order and compares each with a tuple-of-bits model. '
        'A state is the pair (length, bits, constructor); trivial when the length is below 2.')
REQUIRED = ['bits', 'length', 'intval', 'exposet', 'weight', 'changes', 'complement', 'reverse', 'set_part', 'string',
            'pretty', 'required_length', 'equal', 'different', 'hash', 'eval-str', 'too-short', 'binv-invariant']


def prepare():
    hooks.install_binv()


def ref_blocks(bits):
    ones = [i for i, b in enumerate(bits) if b]
    zeros = [i for i, b in enumerate(bits) if not b]
    return sorted(b for b in (ones, zeros) if len(b) > 1)


def ref_pretty(bits):
    out = ''
    for i, b in enumerate(bits):
        if i and i % 16 == 0:
            out += '  '
        elif i and i % 4 == 0:
            out += ' '
        out += '01'[b]
    return out


def views(c, v, bits, how):
    n = len(bits)
    ones = [i for i, b in enumerate(bits) if b]
    val = sum(1 << i for i in ones)
    ctx = (how, 'bits=' + ''.join('01'[b] for b in bits))

    def t_bits():
        c.eq('bits', [bool(v[i]) for i in range(n)], bits, *ctx)
        c.eq('bits', list(v), bits, *ctx)
        c.eq('bits', list(v.vector), bits, *ctx)

    def t_length():
        c.eq('length', v.length, n, *ctx)
        c.eq('length', len(v), n, *ctx)

    def t_complement():
        x = v.complement
        c.eq('complement', list(x.vector), [not b for b in bits], *ctx)
        c.eq('complement', x.length, n, *ctx)
        c.eq('complement', x.intval, (1 << n) - 1 - val, *ctx)
        c.eq('complement', (~v).vector, [not b for b in bits], *ctx)
        c.true('complement', ~~v == v, *ctx)

    def t_reverse():
        x = v.reverse
        c.eq('reverse', list(x.vector), bits[::-1], *ctx)
        c.true('reverse', x.reverse == v, *ctx)

    def t_set_part():
        sp = v.set_part
        c.eq('set_part', sp.blocks, ref_blocks(bits), *ctx)

    def t_string():
        c.eq('string', v.string, ''.join('01'[b] for b in bits), *ctx)

    def t_pretty():
        if n in (1, 2, 4, 8, 16, 32, 64):
            c.eq('pretty', v.pretty, ref_pretty(bits), *ctx)
            c.eq('pretty', list(Binv(v.pretty).vector), bits, *ctx)

    def t_has_index():
        for k in c.rng.sample(range(n + 5), min(n + 5, 4)):
            c.eq('has_index', bool(v.has_index(k)), k < n and bits[k], 'index', k, *ctx)

    def t_str():
        s = str(v)
        c.eq('repr', repr(v), s, *ctx)
        w = eval(s, {'Binv': Binv})
        c.eq('eval-str', list(w.vector), bits, s, *ctx)
        c.true('eval-str', w == v and hash(w) == hash(v) and str(w) == s, s, *ctx)

    tests = [
        t_bits, t_length, t_complement, t_reverse, t_set_part, t_string, t_pretty, t_has_index, t_str,
        lambda: c.eq('intval', v.intval, val, *ctx),
        lambda: c.eq('exposet', set(v.exposet), set(ones), *ctx),
        lambda: c.eq('weight', v.weight, len(ones), *ctx),
        lambda: c.eq('changes', v.changes, sum(bits[i] != bits[i + 1] for i in range(n - 1)), *ctx),
        lambda: c.eq('required_length', v.required_length, max(ones, default=-1) + 1, *ctx),
        lambda: c.eq('sum', sum(v), len(ones), *ctx),
    ]
    c.rng.shuffle(tests)
    for t in tests:
        t()


def variants(c, bits):
    """pairs (description, vector) of everything that denotes `bits`"""
    import numpy as np
    n = len(bits)
    ones = [i for i, b in enumerate(bits) if b]
    val = sum(1 << i for i in ones)
    need = max(ones, default=-1) + 1
    s = ''.join('01'[b] for b in bits)
    out = [
        ('list of bools', lambda: Binv(list(bits))),
        ('list of ints', lambda: Binv([int(b) for b in bits])),
        ('tuple', lambda: Binv(tuple(bits))),
        ('array', lambda: Binv(np.array([int(b) for b in bits], dtype=int))),
        ('string', lambda: Binv(s)),
        ('list of digits', lambda: Binv(list(s))),
        ('vector', lambda: Binv(Binv(list(bits)))),
        ('intval, length', lambda: Binv(intval=val, length=n)),
        ('exposet, length', lambda: Binv(exposet=set(ones), length=n)),
        ('exposet list, length', lambda: Binv(exposet=c.rng.sample(ones, len(ones)), length=n)),
        ('exposet tuple with repetition, length', lambda: Binv(exposet=tuple(ones + ones[:1]), length=n)),
    ]
    if n:
        k = c.rng.randrange(n + 1)
        out.append(('spaced string', lambda: Binv(s[:k] + ' ' + s[k:])))
    if n == need:
        m = c.rng.randint(0, n)
        out.append(('intval', lambda: Binv(intval=val)))
        out.append(('intval, smaller minimal length', lambda: Binv(intval=val, minimal_length=m)))
        out.append(('exposet', lambda: Binv(exposet=set(ones))))
        out.append(('exposet, smaller minimal length', lambda: Binv(exposet=set(ones), minimal_length=m)))
    out.append(('intval, minimal length', lambda: Binv(intval=val, minimal_length=n)))
    out.append(('exposet, minimal length', lambda: Binv(exposet=set(ones), minimal_length=n)))
    return out


@scenario(quick=7000, thorough=100000)
def sequence(c):
    bits = gen.bits(c.rng, c.index)
    n = len(bits)
    vs = []
    opts = variants(c, bits)
    if n > 40:
        opts = c.rng.sample(opts, 6)
    for how, make in opts:
        v = make()
        c.state(n, ''.join('01'[b] for b in bits), how, trivial=n < 2)
        views(c, v, bits, how)
        vs.append((how, v))
    (h0, v0) = vs[0]
    for how, v in vs[1:]:
        c.true('equal', v == v0 and v0 == v and not (v != v0), h0, how, bits)
        c.true('hash', hash(v) == hash(v0) and str(v) == str(v0), h0, how, bits)
    c.sample(f'{len(vs)} constructions of {v0}')
    # different sequences are told apart
    others = [bits + [False], bits + [True], [False] + bits]
    if n:
        k = c.rng.randrange(n)
        others += [bits[:k] + [not bits[k]] + bits[k + 1:], bits[:-1], bits[::-1], [not b for b in bits]]
    for o in others:
        if o != bits:
            w = Binv(o)
            c.true('different', w != v0 and not (w == v0) and v0 != w and not (v0 == w) and str(w) != str(v0), bits, o)
    c.eq('set-of-vectors', len({v for _, v in vs} | {Binv(o) for o in others}),
         len({tuple(bits)} | {tuple(o) for o in others}), bits)


@scenario(quick=9000, thorough=100000)
def integers(c):
    """integers of every magnitude, with exactly fitting, larger and too small lengths"""
    k = c.index % 200
    val = max(0, (1 << k) + c.rng.choice([-2, -1, 0, 1, 2, c.rng.randrange(1 << k), -c.rng.randrange((1 << k) + 1)]))
    need = val.bit_length()
    want = [bool(val >> i & 1) for i in range(need)]
    c.state(val, trivial=val < 2)
    v = Binv(intval=val)
    c.eq('bits', list(v.vector), want, val)
    c.eq('intval', v.intval, val)
    for extra in {0, 1, c.rng.randrange(70)}:
        w = Binv(intval=val, length=need + extra)
        c.eq('bits', list(w.vector), want + [False] * extra, 'intval', val, 'length', need + extra)
        c.eq('intval', w.intval, val)
        w = Binv(intval=val, minimal_length=need + extra)
        c.eq('bits', list(w.vector), want + [False] * extra, 'intval', val, 'minimal_length', need + extra)
    w = Binv(intval=val, minimal_length=c.rng.randint(0, need))
    c.eq('bits', list(w.vector), want, 'intval', val, 'minimal_length below need')
    if need:
        c.raises('too-short', lambda: Binv(intval=val, length=need - 1), LengthError, 'intval', val, 'length', need - 1)
        top = need - 1
        c.raises('too-short', lambda: Binv(exposet={top}, length=top), LengthError, 'exposet', {top}, 'length', top)
    c.sample(f'integer {val}, {need} bits')
