"""Reference models: plain data, written independently of the library."""
import math


# ------------------------------------------------------------------ permutations of the natural numbers

class RefPerm:
    """function on the naturals: list for the first places; identity beyond (per None) or repeated with period len(seq)"""

    def __init__(self, seq, per=None):
        seq = [int(e) for e in seq]
        if per is not None:
            seq = seq + list(range(len(seq), per))
        self.per = per
        self.seq = seq
        self.canon()

    def canon(self):
        if self.seq == list(range(len(self.seq))):
            self.seq, self.per = [], None
            return
        if self.per is None:
            while self.seq[-1] == len(self.seq) - 1:
                self.seq.pop()
        else:
            n = self.per
            for d in range(1, n):
                if n % d == 0 and all(self.seq[i] == self.seq[i % d] + i - i % d for i in range(n)):
                    self.seq = self.seq[:d]
                    self.per = d
                    break

    @property
    def neutral(self):
        return not self.seq

    def __call__(self, i):
        n = len(self.seq)
        if self.per is None:
            return self.seq[i] if i < n else i
        return self.seq[i % n] + i - i % n

    def table(self, n):
        return [self(i) for i in range(n)]

    def __mul__(self, o):
        if self.neutral:
            return o
        if o.neutral:
            return self
        assert (self.per is None) == (o.per is None)
        n = max(len(self.seq), len(o.seq)) if self.per is None else math.lcm(self.per, o.per)
        return RefPerm([self(o(i)) for i in range(n)], None if self.per is None else n)

    def inverse(self):
        inv = [0] * len(self.seq)
        for i, e in enumerate(self.seq):
            inv[e] = i
        return RefPerm(inv, self.per)

    def power(self, k):
        base = self if k >= 0 else self.inverse()
        result, k = RefPerm([]), abs(k)
        while k:
            if k & 1:
                result = result * base
            base = base * base
            k >>= 1
        return result

    def cycles(self):
        """non-trivial cycles of one period, each starting with its smallest element, sorted"""
        seen, out = set(), []
        for i in range(len(self.seq)):
            if i in seen:
                continue
            cyc, j = [], i
            while j not in seen:
                seen.add(j)
                cyc.append(j)
                j = self.seq[j]
            if len(cyc) > 1:
                out.append(cyc)
        return out

    def order(self):
        return math.lcm(*[len(c) for c in self.cycles()]) if self.seq else 1

    def parity(self):
        return sum(len(c) - 1 for c in self.cycles()) % 2

    def moved(self):
        return {i for i, e in enumerate(self.seq) if i != e}

    def key(self):
        return tuple(self.seq), self.per


def lex_rank(seq):
    """position among all permutations of the same length in lexicographic order, by counting"""
    n, rank = len(seq), 0
    for i in range(n):
        smaller = sum(1 for j in range(i + 1, n) if seq[j] < seq[i])
        rank += smaller * math.factorial(n - 1 - i)
    return rank


def rev_colex_rank(seq):
    """position in reverse colexicographic order: the last places count most, greater values come first"""
    n, rank = len(seq), 0
    for i in range(n - 1, -1, -1):
        greater_before = sum(1 for j in range(i) if seq[j] > seq[i])
        rank += greater_before * math.factorial(i)
    return rank


# ------------------------------------------------------------------ signed permutations

def sig_canon(seq):
    seq = list(seq)
    while seq and seq[-1] == len(seq) - 1:
        seq.pop()
    return seq


def sig_at(seq, i):
    return seq[i] if i < len(seq) else i


def sig_mul(a, b):
    """a after b"""
    out = []
    for i in range(max(len(a), len(b))):
        x = sig_at(b, i)
        y = sig_at(a, x if x >= 0 else ~x)
        out.append(y if x >= 0 else ~y)
    return sig_canon(out)


def sig_inv(a):
    out = [0] * len(a)
    for i, x in enumerate(a):
        if x >= 0:
            out[x] = i
        else:
            out[~x] = ~i
    return sig_canon(out)


def sig_on_number(a, n):
    """moves binary digit i to place |a(i)|, flipped where the entry is negated"""
    size = max(len(a), n.bit_length())
    out = 0
    for i in range(size):
        x = sig_at(a, i)
        bit = n >> i & 1
        if x < 0:
            out |= (1 - bit) << ~x
        else:
            out |= bit << x
    return out


# ------------------------------------------------------------------ linear maps modulo two, as lists of column integers

def gf2_apply(cols, v):
    out, i = 0, 0
    while v:
        if v & 1:
            out ^= cols[i] if i < len(cols) else 1 << i
        v >>= 1
        i += 1
    return out


def gf2_rank(cols):
    pivots = []
    for c in cols:
        for p in pivots:
            c = min(c, c ^ p)
        if c:
            pivots.append(c)
    return len(pivots)


def gf2_canon(cols):
    cols = list(cols)
    while cols and cols[-1] == 1 << (len(cols) - 1) and not any(c >> (len(cols) - 1) & 1 for c in cols[:-1]):
        cols.pop()
    return cols


def gf2_mul(a, b):
    n = max(len(a), len(b))
    b = list(b) + [1 << i for i in range(len(b), n)]
    return gf2_canon([gf2_apply(a, c) for c in b])


def gf2_transpose(cols):
    n = len(cols)
    return gf2_canon([sum((cols[j] >> i & 1) << j for j in range(n)) for i in range(n)])


def gf2_inv(cols):
    n = len(cols)
    rows = [(sum((cols[j] >> i & 1) << j for j in range(n)), 1 << i) for i in range(n)]
    for col in range(n):
        piv = next(r for r in range(col, n) if rows[r][0] >> col & 1)
        rows[col], rows[piv] = rows[piv], rows[col]
        for r in range(n):
            if r != col and rows[r][0] >> col & 1:
                rows[r] = (rows[r][0] ^ rows[col][0], rows[r][1] ^ rows[col][1])
    inv_rows = [r[1] for r in rows]
    return gf2_canon([sum((inv_rows[i] >> j & 1) << i for i in range(n)) for j in range(n)])


def gf2_power(cols, k):
    base = list(cols) if k >= 0 else gf2_inv(cols)
    out, k = [], abs(k)
    while k:
        if k & 1:
            out = gf2_mul(out, base)
        base = gf2_mul(base, base)
        k >>= 1
    return gf2_canon(out)


# ------------------------------------------------------------------ equivalence relations

class RefPart:
    """equivalence relation as dict element -> frozenset, singletons implicit"""

    def __init__(self, blocks=()):
        self.of = {}
        for b in blocks:
            b = frozenset(b)
            for e in b:
                self.of[e] = b

    def block(self, e):
        return self.of.get(e, frozenset([e]))

    def merge(self, a, b):
        m = self.block(a) | self.block(b)
        if len(m) > 1:
            for e in m:
                self.of[e] = m

    def refine(self, new_blocks):
        for b in new_blocks:
            for e in b:
                self.of.pop(e, None)
        for b in new_blocks:
            if len(b) > 1:
                for e in b:
                    self.of[e] = frozenset(b)

    def blocks(self):
        return sorted(sorted(b) for b in set(self.of.values()))

    def elements(self):
        return set(self.of)

    def copy(self):
        r = RefPart()
        r.of = dict(self.of)
        return r

    def same(self, a, b):
        return b in self.block(a)

    def pairs(self):
        return {(a, b) for blk in set(self.of.values()) for a in blk for b in blk if a < b}

    def join(self, o):
        r = self.copy()
        for blk in set(o.of.values()):
            first = min(blk)
            for e in blk:
                r.merge(first, e)
        return r

    def meet(self, o):
        return RefPart(b for b in {s & t for s in set(self.of.values()) for t in set(o.of.values())} if len(b) > 1)

    def refines(self, o):
        return all(b <= o.block(min(b)) for b in set(self.of.values()))


# ------------------------------------------------------------------ equalities and complements

class RefComp:
    """equality/complement declarations, closed by search over signed edges"""

    def __init__(self):
        self.edges = {}

    def declare(self, a, b, sign):
        self.edges.setdefault(a, set()).add((b, sign))
        self.edges.setdefault(b, set()).add((a, sign))

    def component(self, a):
        """dict element -> sign relative to a"""
        seen, todo = {a: 0}, [a]
        while todo:
            x = todo.pop()
            for y, s in self.edges.get(x, ()):
                if y not in seen:
                    seen[y] = seen[x] ^ s
                    todo.append(y)
        return seen

    def relation(self, a, b):
        """0 equal, 1 complementary, None unrelated"""
        return self.component(a).get(b)

    def equal_block(self, a):
        return sorted(e for e, s in self.component(a).items() if s == 0)

    def comp_block(self, a):
        return sorted(e for e, s in self.component(a).items() if s == 1)

    def related(self):
        out = {tuple(sorted(self.component(e))) for e in self.edges}
        return sorted(list(b) for b in out if len(b) > 1)

    def blocks(self):
        return sorted(list(b) for b in {tuple(self.equal_block(e)) for e in self.edges} if len(b) > 1)

    def reps(self):
        return {tuple(sorted([self.equal_block(e)[0], self.comp_block(e)[0]])) for e in self.edges if self.comp_block(e)}

    def comp_pairs(self):
        return {tuple(sorted([e, f])) for e in self.edges for f in self.comp_block(e)}

    def copy(self):
        r = RefComp()
        r.edges = {k: set(v) for k, v in self.edges.items()}
        return r


# ------------------------------------------------------------------ Boolean functions

class RefF:
    """Boolean function as (ascending arguments, bits), reduced to the arguments it depends on"""
    __slots__ = ('atoms', 'bits')

    def __init__(self, atoms, bits):
        atoms, bits = list(atoms), [bool(b) for b in bits]
        assert len(bits) == 1 << len(atoms) and len(set(atoms)) == len(atoms)
        order = sorted(range(len(atoms)), key=lambda i: atoms[i])
        if order != list(range(len(atoms))):
            bits = [bits[sum((x >> k & 1) << order[k] for k in range(len(atoms)))] for x in range(len(bits))]
            atoms = [atoms[i] for i in order]
        k = 0
        while k < len(atoms):
            if all(bits[x] == bits[x | 1 << k] for x in range(len(bits)) if not x >> k & 1):
                bits = [bits[x] for x in range(len(bits)) if not x >> k & 1]
                del atoms[k]
            else:
                k += 1
        self.atoms, self.bits = tuple(atoms), tuple(bits)

    @classmethod
    def of(cls, atoms, fn):
        """fn takes the integer with the values of all arguments at their places"""
        atoms = sorted(atoms)
        return cls(atoms, [fn(sum((x >> k & 1) << a for k, a in enumerate(atoms))) for x in range(1 << len(atoms))])

    def at(self, x):
        k = 0
        for i, a in enumerate(self.atoms):
            k |= (x >> a & 1) << i
        return self.bits[k]

    @property
    def valency(self):
        return len(self.atoms)

    @property
    def adicity(self):
        return self.atoms[-1] + 1 if self.atoms else 0

    @property
    def key(self):
        return self.atoms, self.bits

    def __eq__(self, o):
        return self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return f'<{"".join("01"[b] for b in self.bits)} on {list(self.atoms)}>'

    def table(self, arity=None):
        return [self.at(x) for x in range(1 << (self.adicity if arity is None else arity))]

    def table_on(self, atoms):
        atoms = sorted(atoms)
        return [self.at(sum((x >> k & 1) << a for k, a in enumerate(atoms))) for x in range(1 << len(atoms))]

    def intval(self, arity=None):
        return sum(b << i for i, b in enumerate(self.table(arity)))

    def op(self, o, fn):
        return RefF.of(set(self.atoms) | set(o.atoms), lambda x: fn(self.at(x), o.at(x)))

    def __and__(self, o):
        return self.op(o, lambda a, b: a and b)

    def __or__(self, o):
        return self.op(o, lambda a, b: a or b)

    def __xor__(self, o):
        return self.op(o, lambda a, b: a != b)

    def __invert__(self):
        return RefF(self.atoms, [not b for b in self.bits])

    def implies(self, o):
        at = sorted(set(self.atoms) | set(o.atoms))
        return all(not a or b for a, b in zip(self.table_on(at), o.table_on(at)))

    def substitute(self, signed):
        """i-th argument becomes signed[i] (~a for a negated argument)"""
        ats = {s if s >= 0 else ~s for s in signed}
        def fn(x):
            k = 0
            for i, s in enumerate(signed):
                k |= (x >> s & 1 if s >= 0 else 1 - (x >> ~s & 1)) << i
            return self.bits[k]
        return RefF.of(ats, fn)

    def root(self):
        return RefF(range(self.valency), self.bits)


def mobius(bits):
    """algebraic normal form of a truth table (and back)"""
    b = [int(x) for x in bits]
    h = 1
    while h < len(b):
        for i in range(len(b)):
            if i & h:
                b[i] ^= b[i ^ h]
        h *= 2
    return b


def wht(v):
    """Walsh-Hadamard transform, natural order"""
    v = [int(x) for x in v]
    h = 1
    while h < len(v):
        for i in range(len(v)):
            if not i & h:
                v[i], v[i | h] = v[i] + v[i | h], v[i] - v[i | h]
        h *= 2
    return v
