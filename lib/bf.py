"""Between the library's Boolean functions and the reference model."""
from discretehelpers.boolf import Boolf

from lib.ref import RefF


def back(f):
    return RefF([int(a) for a in f.atomvals], f.root.vector)


def lib(r):
    return Boolf(list(r.bits), list(r.atoms)) if r.atoms else Boolf(bool(r.bits[0]))


def parity(x):
    return bin(x).count('1') % 2


def to_int(bits):
    return sum(int(bool(b)) << i for i, b in enumerate(bits))


def bits_of(n, length):
    return [n >> i & 1 for i in range(length)]


def striped(c, rng, gen, top=6, spread=True):
    """all functions of up to 3 arguments in the first 278 cases, then structured random ones"""
    if c.index < 278:
        k = c.index
        for n in range(4):
            if k < 1 << (1 << n):
                return RefF(range(n), bits_of(k, 1 << n))
            k -= 1 << (1 << n)
    n = rng.choice([2, 3, 4, 4, 5, top])
    at = gen.atoms(rng, n, rng.choice([n, n, n, n + 1, max(n, 6)]) if spread else n)
    return RefF(sorted(at), gen.table(rng, n))
