from itertools import combinations

from discretehelpers.boolf import Boolf
from discretehelpers.ex import ArgMismatchError, ArgTooSmallError, ArgValueError

from lib import gen, hooks
from lib.bf import back, lib, parity, striped
from lib.core import scenario
from lib.ref import RefF, wht

PROPERTY = 'F07'
RULE = ('All functions of up to 3 arguments and structured random ones of up to 6 (dense and spread), with their own, larger and explicitly listed sets of arguments; fissions in every argument and hyperfissions in random ordered argument lists. '
        'The spectrum is recomputed as the sum of signs over the true places. A state is the function with the argument set or list; trivial for constants.')
REQUIRED = ['spectrum', 'spectrum-abs', 'spectrum-layered', 'distances', 'inverse', 'parseval', 'refused', 'fission', 'fission-spectra', 'fission-zipped', 'fission-weight', 'hyperfission', 'hyperfission-spectra',
            'hyperfission-zipped', 'hyperfission-labeled', 'boolf-canonical']


def prepare():
    hooks.install_boolf()


def layered(v):
    n = len(v).bit_length() - 1
    return [[v[x] for x in range(len(v)) if bin(x).count('1') == k] for k in range(n + 1)]


def direct(t):
    return [sum(-1 if parity(x & w) else 1 for x, b in enumerate(t) if b) for w in range(len(t))]


@scenario(quick=1200, thorough=15000)
def spectra(c):
    rng = c.rng
    r = striped(c, rng, gen)
    f = lib(r)
    kind = rng.choice(['none', 'arity', 'atoms'])
    if kind == 'none':
        args, t = (), r.table()
    elif kind == 'arity':
        arity = rng.randint(r.adicity, min(8, r.adicity + 2))
        args, t = (arity,), r.table(arity)
    else:
        at = list(r.atoms) + rng.sample([a for a in range(12 if rng.random() < .9 else 90) if a not in r.atoms], rng.choice([0, 0, 1, 2]))
        rng.shuffle(at)
        args, t = (rng.choice([list, tuple, set])(at),), r.table_on(at)
    c.note(repr(r), repr(args))
    c.state(r.key, kind, len(t), trivial=not r.atoms)
    t = [int(b) for b in t]
    want = direct(t) if len(t) <= 32 else wht(t)
    reads = [
        lambda: c.eq('spectrum', f.walsh_spectrum(*args), want, r, args),
        lambda: c.eq('spectrum-abs', f.walsh_spectrum_abs(*args), [abs(w) for w in want], r, args),
        lambda: c.eq('spectrum-layered', f.walsh_spectrum_layered(*args), layered(want), r, args),
        lambda: c.eq('spectrum-layered', f.walsh_spectrum_abs_layered(*args), layered([abs(w) for w in want]), r, args),
    ]
    rng.shuffle(reads)
    for read in reads:
        read()
    if len(t) <= (64 if rng.random() < .9 else 256):
        c.eq('distances', f.walsh_distances(*args), [sum(b ^ parity(w & x) for x, b in enumerate(t)) for w in range(len(t))], r, args)
    got = f.walsh_spectrum(*args)
    c.eq('parseval', sum(w * w for w in got), len(t) * sum(t), r, args)
    if kind != 'atoms' or sorted(args[0]) == list(range(len(args[0]))):
        c.eq('inverse', back(Boolf(walsh_spectrum=rng.choice([list, tuple])(got))), r, args)
    if r.adicity:
        c.raises('refused', lambda: f.walsh_spectrum(r.adicity - 1), ArgTooSmallError, r)
        c.raises('refused', lambda: f.walsh_spectrum([a for a in r.atoms if a != rng.choice(r.atoms)] if r.valency == 1 else list(r.atoms[1:])), ArgMismatchError, r)
    bad = list(want)
    bad[rng.randrange(len(bad))] += rng.choice([1, -1, 2]) * rng.choice([1, len(bad)])
    if not set(wht(bad)) <= {0, len(bad)}:
        c.raises('refused', lambda: Boolf(walsh_spectrum=bad), ArgValueError, bad)


def parts(values, dims):
    """distributes the entries of a sequence to the parts numbered by the listed arguments, first argument lowest"""
    out = [[] for _ in range(1 << len(dims))]
    for x, v in enumerate(values):
        out[sum((x >> d & 1) << k for k, d in enumerate(dims))].append(v)
    return out


@scenario(quick=900, thorough=10000)
def fissions(c):
    rng = c.rng
    r = striped(c, rng, gen)
    if r.adicity > 7:
        r = r.root()
    f = lib(r)
    if not r.atoms:
        c.state('constant', r.key, trivial=True)
        c.eq('hyperfission', [p.vector for p in f.hyperfission([])], [[bool(r.bits[0])]], r)
        return
    c.state('fission', r.key)
    c.note(repr(r))
    t = [int(b) for b in r.table()]
    n = r.adicity
    want = [parts(t, [i]) for i in range(n)]
    spec = [[wht(p) for p in pair] for pair in want]
    ab = lambda v: [abs(x) for x in v]
    zipped = [[spec[i][x >> i & 1][x & (1 << i) - 1 | x >> (i + 1) << i] for x in range(1 << n)] for i in range(n)]
    reads = [
        lambda: c.eq('fission', [[[int(b) for b in p] for p in pair] for pair in f.fissions], want, r),
        lambda: c.eq('fission', f.fissions_layered, [[layered(p) for p in pair] for pair in want], r),
        lambda: c.eq('fission-weight', f.fissions_weight, [[sum(p) for p in pair] for pair in want], r),
        lambda: c.eq('fission-weight', f.fissions_weight_layered, [[[sum(l) for l in layered(p)] for p in pair] for pair in want], r),
        lambda: c.eq('fission-spectra', ints(f.fission_walsh_spectra), spec, r),
        lambda: c.eq('fission-spectra', ints(f.fission_walsh_spectra_abs), [[ab(s) for s in pair] for pair in spec], r),
        lambda: c.eq('fission-spectra', ints(f.fission_walsh_spectra_layered), [[layered(s) for s in pair] for pair in spec], r),
        lambda: c.eq('fission-spectra', ints(f.fission_walsh_spectra_layered_abs), [[layered(ab(s)) for s in pair] for pair in spec], r),
        lambda: c.eq('fission-zipped', ints(f.fission_walsh_spectra_zipped), zipped, r),
        lambda: c.eq('fission-zipped', ints(f.fission_walsh_spectra_abs_zipped), [ab(z) for z in zipped], r),
    ]
    rng.shuffle(reads)
    for read in reads:
        read()


def ints(x):
    if isinstance(x, (list, tuple)):
        return [ints(e) for e in x]
    return int(x)


@scenario(quick=900, thorough=10000)
def hyperfissions(c):
    rng = c.rng
    r = striped(c, rng, gen)
    if not r.atoms or r.adicity > 7:
        r = RefF(range(3), gen.table(rng, 3))
    if not r.atoms:
        r = RefF([0, 1], [0, 0, 0, 1])
    f = lib(r)
    n = r.adicity
    dims = rng.sample(range(n), rng.randint(0, n))
    if rng.random() < .5:
        dims.sort()
    dims = rng.choice([list, tuple])(dims)
    c.state('hyper', r.key, tuple(dims))
    c.note(repr(r), repr(dims))
    t = [int(b) for b in r.table()]
    want = parts(t, dims)
    spec = [wht(p) for p in want]
    ab = lambda v: [abs(x) for x in v]
    c.eq('hyperfission', [[int(b) for b in p] for p in f.hyperfission(dims)], want, r, dims)
    c.eq('hyperfission-spectra', ints(f.hyperfission_walsh_spectra(dims)), spec, r, dims)
    c.eq('hyperfission-spectra', ints(f.hyperfission_walsh_spectra_abs(dims)), [ab(s) for s in spec], r, dims)
    c.eq('hyperfission-spectra', ints(f.hyperfission_walsh_spectra_layered_abs(dims)), [layered(ab(s)) for s in spec], r, dims)
    where = parts(list(range(1 << n)), dims)
    zipped = [None] * (1 << n)
    for s, places in zip(spec, where):
        for v, x in zip(s, places):
            zipped[x] = v
    c.eq('hyperfission-zipped', ints(f.hyperfission_walsh_spectra_zipped(dims)), zipped, r, dims)
    if dims:
        c.eq('hyperfission-labeled', {tuple(k): ints(v) for k, v in f.hyperfission_walsh_spectra_labeled(dims).items()}, {tuple(p): s for p, s in zip(where, spec)}, r, dims)
