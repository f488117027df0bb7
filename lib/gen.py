"""Generators of hostile inputs.  All randomness comes from the rng passed in."""


def bits(rng, i=0, maxlen=300):
    """bit sequence with the special shapes that matter: constant, sparse, runs, lengths around 16 and powers of two"""
    r = rng.random()
    if r < 0.25:
        n = rng.randint(0, 8)
    elif r < 0.45:
        n = rng.choice([15, 16, 17, 18, 31, 32, 33, 63, 64, 65])
    elif r < 0.6:
        n = rng.choice([1, 2, 4, 8, 16, 32, 64])
    elif r < 0.9:
        n = rng.randint(9, 70)
    else:
        n = rng.randint(min(70, maxlen), maxlen) if maxlen < 300 or rng.random() < .95 else rng.randint(maxlen, 5 * maxlen)
    shape = rng.randrange(7)
    if shape == 0:
        return [False] * n
    if shape == 1:
        return [True] * n
    if shape == 2:
        p = rng.choice([0.05, 0.95])
        return [rng.random() < p for _ in range(n)]
    if shape == 3:
        out, b = [], rng.random() < 0.5
        while len(out) < n:
            out += [b] * rng.randint(1, 6)
            b = not b
        return out[:n]
    if shape == 4:
        k = rng.randint(0, n)
        return [i % 2 == 1 if i < k else False for i in range(n)]
    if shape == 5:
        out = [rng.random() < 0.5 for _ in range(n)]
        # balanced: weight exactly half, or one more or less
        ones = n // 2 + rng.choice([-1, 0, 1])
        idx = set(rng.sample(range(n), max(0, min(n, ones))))
        return [i in idx for i in range(n)]
    return [rng.random() < 0.5 for _ in range(n)]


def perm_seq(rng, n):
    """sequence of a permutation of n places with varied structure"""
    s = list(range(n))
    kind = rng.randrange(7)
    if kind == 0 or n < 2:
        rng.shuffle(s)
    elif kind == 1:      # few transpositions
        for _ in range(rng.randint(1, 2)):
            i, j = rng.sample(range(n), 2)
            s[i], s[j] = s[j], s[i]
    elif kind == 2:      # rotation
        k = rng.randrange(n)
        s = s[k:] + s[:k]
    elif kind == 3:      # reversal
        s.reverse()
    elif kind == 4:      # one long cycle
        order = rng.sample(range(n), n)
        for i in range(n):
            s[order[i]] = order[(i + 1) % n]
    elif kind == 5:      # random on a part
        k = rng.randint(0, n)
        part = rng.sample(range(n), k)
        img = rng.sample(part, k)
        for a, b in zip(part, img):
            s[a] = b
    else:                # involution
        free = rng.sample(range(n), n)
        while len(free) > 1 and rng.random() < 0.9:
            a, b = free.pop(), free.pop()
            s[a], s[b] = b, a
    return s


def signed_seq(rng, n):
    s = perm_seq(rng, n)
    p = rng.choice([0, 0.5, 0.5, 0.3, 1])
    return [~e if rng.random() < p else e for e in s]


def invertible_matrix(rng, n, steps=None):
    """binary matrix invertible modulo two, as list of column integers"""
    cols = [1 << i for i in range(n)]
    if n < 2:
        return cols
    rng.shuffle(cols)
    for _ in range(rng.randint(0, 3 * n) if steps is None else steps):
        i, j = rng.sample(range(n), 2)
        cols[i] ^= cols[j]
    return cols


def domain_of(rng):
    """kind, argument for the constructor, elements to draw from"""
    kind = rng.choice(['N', 'N', 'Z', 'Z', 'finite', 'pairs', 'words'])
    size = rng.choice([3, 5, 8, 12, 20])
    if kind == 'N':
        return kind, 'N', rng.sample(range(rng.choice([size, 2 * size]) if rng.random() < .97 else 2000), size)
    if kind == 'Z':
        low = rng.choice([-size, -size // 2, -3, 0, 4]) if rng.random() < .97 else rng.choice([-3000, 3000])
        return kind, 'Z', list(range(low, low + size))
    if kind == 'finite':
        el = rng.sample(range(-5, 3 * size), size)
    elif kind == 'pairs':
        el = [(i, j) for i in range(4) for j in range(-1, size // 4 + 1)][:max(3, size)]
    else:
        el = ['', 'a', 'b', 'ab', 'ba', 'abc', 'x', 'y'][:max(3, min(size, 8))]
    return kind, rng.choice([set, list, tuple])(el), el


def table(rng, n):
    """truth table of n arguments with varied structure, as list of bools"""
    N = 1 << n
    kind = rng.randrange(12)
    if kind == 0:
        return [rng.random() < .12 for _ in range(N)]
    if kind == 1:
        return [rng.random() < .88 for _ in range(N)]
    if kind == 2:                                       # symmetric
        lay = [rng.random() < .5 for _ in range(n + 1)]
        return [lay[bin(x).count('1')] for x in range(N)]
    if kind == 3:                                       # linear or affine
        k, d = rng.randrange(N), rng.random() < .5
        return [(bin(x & k).count('1') % 2 == 1) != d for x in range(N)]
    if kind == 4:                                       # conjunction or disjunction of literals
        m, v, d = rng.randrange(N), rng.randrange(N), rng.random() < .5
        return [((x & m) == (v & m)) != d for x in range(N)]
    if kind == 5 and n:                                 # does not depend on one argument
        k = rng.randrange(n)
        b = [rng.random() < .5 for _ in range(N)]
        return [b[x & ~(1 << k)] for x in range(N)]
    if kind == 6 and n > 1:                             # two arguments forced equal or complementary on the true places
        i, j = rng.sample(range(n), 2)
        d = rng.random() < .5
        return [rng.random() < .6 and ((x >> i ^ x >> j) & 1 == 1) == d for x in range(N)]
    if kind == 7 and n:                                 # one argument constant on the true places
        i, d = rng.randrange(n), rng.random() < .5
        return [rng.random() < .6 and (x >> i & 1 == 1) == d for x in range(N)]
    if kind == 8:                                       # monotone
        up = [rng.randrange(N) for _ in range(rng.randint(1, 4))]
        return [any(x & u == u for u in up) for x in range(N)]
    if kind == 9:
        b = rng.random() < .5
        return [b] * N if rng.random() < .3 else [(x == rng.randrange(N)) != b for x in range(N)]
    return [rng.random() < .5 for _ in range(N)]


def atoms(rng, n, top=None):
    """n distinct arguments, dense or sparse"""
    top = top if top is not None else rng.choice([n, n, n + 1, n + 2, n + 4])
    return rng.sample(range(max(top, n)), n)
