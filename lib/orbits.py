"""Equivalence classes of Boolean functions by direct substitution."""
from itertools import combinations, permutations, product

from lib.ref import RefF, mobius


def perms(n):
    """permutations in reverse colexicographic order"""
    return sorted((list(p) for p in permutations(range(n))), key=lambda p: [-e for e in p[::-1]])


def zhe(r):
    return sum(b << i for i, b in enumerate(mobius(r.table())))


def rename(r, s):
    return r.substitute([s[a] if a < len(s) else a for a in r.atoms])


def negated(seq, m):
    """signed sequence: values in the set of places m are negated"""
    return [~v if m >> v & 1 else v for v in seq]


def family(r):
    """negator pattern (over the arguments of the function) -> function"""
    return {m: r.substitute([~a if m >> i & 1 else a for i, a in enumerate(r.atoms)]) for m in range(1 << r.valency)}


def faction(r, arity):
    return {n: rename(r, p) for n, p in enumerate(perms(arity))}


def clan(r, arity):
    return {(m, n): rename(r, negated(p, m)) for m in range(1 << arity) for n, p in enumerate(perms(arity))}


def faction_short(r, arity):
    """(rank of the permutation, key of the argument combination) -> function"""
    out = {}
    for c, combo in enumerate(combinations(range(arity), r.valency)):
        for n, p in enumerate(perms(r.valency)):
            # the entry at place i of the combination goes to place p[i]
            v = [None] * r.valency
            for i, e in enumerate(combo):
                v[p[i]] = e
            out[n, c] = r.substitute(v)
    return out


def clan_short(r, arity):
    out = {}
    for c, combo in enumerate(combinations(range(arity), r.valency)):
        for m in range(1 << r.valency):
            for n, p in enumerate(perms(r.valency)):
                v = [None] * r.valency
                for i, e in enumerate(combo):
                    v[p[i]] = ~e if m >> p[i] & 1 else e
                out[m, n, c] = r.substitute(v)
    return out


def split(functions, partner):
    """partition of a set of functions; partner(f) is the class of f"""
    left, out = set(functions), []
    while left:
        cls = set(partner(min(left, key=zhe))) & set(functions)
        out.append(cls)
        left -= cls
    return out
