import numpy as np

from discretehelpers.binv import Binv
from discretehelpers.binv import ex as bx
from discretehelpers.boolf import Boolf
from discretehelpers.boolf import ex as fx
from discretehelpers.boolf.methods.vals_apply import ex as vx
from discretehelpers.perm import Perm
from discretehelpers.perm import ex as px
from discretehelpers.set_part import SetPart
from discretehelpers.set_part import ex as tx
from discretehelpers.set_part_comp import SetPartComp
from discretehelpers.set_part_comp import ex as cx
from discretehelpers.sig_perm import SigPerm
from discretehelpers.walsh_perm import WalshPerm
from discretehelpers.walsh_perm import ex as wx
from discretehelpers import ex

from lib import gen, queries
from lib.core import scenario
from lib.queries import Recipe, ask, canon, make_recipe
from lib.ref import gf2_apply, gf2_rank, wht

PROPERTY = 'R01'
RULE = ('Each case takes the valid description of an object of one of the seven classes, or an existing object and an operation, damages it by one fault (wrong entry, wrong length, duplicate, '
        'missing or extra argument, out-of-domain element, singular matrix, ...), and watches that it is refused with the documented class, within the step budget, and that all operands and bystanders '
        'are unchanged and answer as before. A state is the damaged description.')
REQUIRED = ['bits-refused', 'perm-refused', 'sigperm-refused', 'walshperm-refused', 'partition-refused', 'partcomp-refused', 'function-refused', 'operation-refused', 'unchanged-after-refusal',
            'works-after-refusal', 'undamaged-accepted']

REFUSAL = (ValueError, TypeError)        # all documented classes derive from one of these
ASSERTED = (ValueError, TypeError, AssertionError, IndexError)


def junk(rng):
    return rng.choice([2, -1, 3, 7, 'x', '2', '', 0.5, 1.5, None, [1], (0,), -2])


# ------------------------------------------------------------------ damaged descriptions: (text, function, classes)

def bad_bits(rng):
    bits = [int(b) for b in gen.bits(rng, maxlen=40)] or [1]
    n = len(bits)
    ones = [i for i, b in enumerate(bits) if b]
    val = sum(1 << i for i in ones)
    k = rng.randrange(12)
    if k in (0, 1):
        v = list(bits)
        v[rng.randrange(n)] = j = junk(rng)
        classes = bx.VectorEntryError if isinstance(j, (int, float, str)) else REFUSAL
        return f'bits {v}', lambda: Binv(rng_type(rng)(v)), classes
    if k == 2:
        s = ''.join(map(str, bits))
        i = rng.randrange(n)
        s = s[:i] + rng.choice('2ab-9') + s[i + 1:]
        return f'bits {s!r}', lambda: Binv(s), bx.VectorEntryError
    if k == 3:
        v = rng.choice([{0: 1}, 7, 1.5, {5, 6}])
        return f'bits of type {type(v).__name__}', lambda: Binv(v), bx.VectorTypeError
    if k == 4:
        v = rng.choice([-1 - val, val + .5, 'a', None.__class__, [val]])
        return f'value {v!r}', lambda: Binv(intval=v), bx.IntvalError
    if k == 5 and val:
        length = rng.randint(-2, val.bit_length() - 1)
        return f'value {val} length {length}', lambda: Binv(intval=val, length=length), bx.LengthError
    if k == 6:
        length = rng.randint(-3, max(ones, default=-1))
        return f'indices {ones} length {length}', lambda: Binv(exposet=rng_type(rng, [set, list, tuple])(ones), length=length), bx.LengthError
    if k == 7:
        e = ones + [rng.choice([-1, -5, 'a', 0.5, None, (1,)])]
        return f'indices {e}', lambda: Binv(exposet=rng_type(rng, [list, tuple])(e)), bx.IndicesEntryError
    if k == 8:
        e = rng.choice([{-1: 1}, 5, 'ab', 1.5])
        return f'indices of type {type(e).__name__}', lambda: Binv(exposet=e), bx.IndicesTypeError
    if k == 9:
        return 'nothing', lambda: Binv(), bx.ArgumentError
    if k == 10:
        return 'length only', lambda: Binv(length=n), bx.ArgumentError
    kw = rng.choice([dict(vector=bits, intval=val), dict(vector=bits, length=n), dict(vector=bits, exposet=set(ones)),
                     dict(intval=val, exposet=set(ones)), dict(vector=bits, intval=val, exposet=set(ones)), dict(vector=bits, minimal_length=n)])
    return f'combination {sorted(kw)}', lambda: Binv(**kw), bx.ArgumentError


def rng_type(rng, types=(list, tuple)):
    return rng.choice(list(types))


def bad_perm(rng):
    n = rng.randint(2, 9)
    seq = gen.perm_seq(rng, n)
    k = rng.randrange(12)
    if k in (0, 1, 2):
        s = list(seq)
        i, j = rng.sample(range(n), 2)
        s[i] = rng.choice([s[j], n, n + 3, -1, ~s[i]])
        return f'sequence {s}', lambda: Perm(rng_type(rng)(s)), px.SequenceError
    if k == 3:
        s = list(seq)
        if rng.random() < .5:
            s.remove(rng.randrange(n - 1))
        else:
            s = [e + 1 for e in s]
        return f'sequence {s}', lambda: Perm(s), px.SequenceError
    if k == 4:
        s = list(seq)
        s[rng.randrange(n)] = rng.choice(['a', None, [0], 0.5])
        return f'sequence {s}', lambda: Perm(s), REFUSAL
    if k == 5:
        s = rng.choice([[e + .5 for e in seq], ['a' + str(e) for e in seq], [None]])
        return f'sequence {s!r}', lambda: Perm(s), REFUSAL
    if k in (6, 7):
        pool = rng.sample(range(2 * n), n)
        cut = rng.randint(1, n - 1)
        cyc = [pool[:cut], pool[cut:]]
        i = rng.randrange(2)
        r = rng.randrange(5)
        if r == 0:
            cyc[i].append(rng.choice(cyc[i]))                    # repeated within
        elif r == 1:
            cyc[i].insert(rng.randint(0, len(cyc[i])), rng.choice(cyc[1 - i]))      # shared
        elif r == 2:
            cyc[i][rng.randrange(len(cyc[i]))] = rng.choice([-1, -7, 0.5, 'a', None])
        elif r == 3:
            cyc.append(rng.choice([3, (2 * n, 2 * n + 1), 'ab', None]))
        else:
            cyc = cyc + [[pool[0]]]
        return f'cycles {cyc}', lambda: Perm(cyc), px.CyclesError
    if k in (8, 9):
        d = {i: v for i, v in enumerate(seq) if i != v} or {0: 1, 1: 0}
        r = rng.randrange(4)
        key = rng.choice(list(d))
        if r == 0:
            del d[key]
        elif r == 1:
            d[key] = rng.choice([v for q, v in d.items() if q != key])
        elif r == 2:
            d[key] = 2 * n
        else:
            d[-1], d[-2] = -2, -1
        return f'dictionary {d}', lambda: Perm(d), px.DictError
    if k == 10:
        p = rng.choice([max([i for i in range(n) if seq[i] != i], default=0), 1, 0, -2, '4', None.__class__, 2.5, [n]])
        if seq == sorted(seq):
            seq[0], seq[1] = seq[1], seq[0]
            p = min(p, 1) if isinstance(p, int) else p
        return f'sequence {seq} period {p}', lambda: Perm(list(seq), p), (px.PerilenTooSmallError, px.PeriodLengthNotNaturalError)
    a = rng.choice(['ab', 3, 1.5, {5, 7}])
    return f'argument {a!r}', lambda: Perm(a), px.ArgTypeError


def bad_sigperm(rng):
    n = rng.randint(1, 5)
    seq = gen.signed_seq(rng, n)
    k = rng.randrange(10)
    if k in (0, 1):
        s = list(seq)
        i = rng.randrange(n)
        s[i] = rng.choice([n, ~n, n + 2] + ([s[i - 1], ~s[i - 1]] if n > 1 else []))
        return f'sequence {s}', lambda: SigPerm(sequence=s), REFUSAL
    if k == 2:
        s = list(seq)
        s[rng.randrange(n)] = rng.choice(['a', None, 0.5, [0]])
        return f'sequence {s}', lambda: SigPerm(sequence=s), REFUSAL
    if k in (3, 4):
        m = queries.ref_sig_matrix(seq).tolist()
        i, j = rng.randrange(n), rng.randrange(n)
        m[i][j] = rng.choice([x for x in (-2, 2, 0, 1, -1) if x not in (m[i][j], -m[i][j])])
        form = rng.choice([list, np.array])
        return f'matrix {m}', lambda: SigPerm(matrix=form(m)), REFUSAL
    if k == 5:
        m = queries.ref_sig_matrix(seq).tolist()
        if rng.random() < .5:
            m = m[:-1] if n > 1 else [[1, 0]]
        else:
            m = [r + [0] for r in m]
        return f'matrix {m}', lambda: SigPerm(matrix=m), REFUSAL
    if k == 6:
        p = rng.choice([(1,), (-1, 0), (0, -1), ('a', 0), (0, 'a'), (1, 2, 3), 5, (0.5, 0)])
        return f'pair {p}', lambda: SigPerm(pair=p), REFUSAL
    pos = [e if e >= 0 else ~e for e in seq]
    if k == 7:
        kw = rng.choice([dict(), dict(valneg=[1]), dict(keyneg=[1]), dict(perm=pos), dict(perm_index=3), dict(valneg_index=3),
                         dict(valneg_index=1, keyneg_index=1)])
        return f'incomplete {kw}', lambda: SigPerm(**kw), ex.ArgComboError
    if k == 8:
        kw = rng.choice([dict(sequence=seq, pair=(0, 0)), dict(sequence=seq, valneg=[1], perm=pos), dict(valneg=[1], keyneg=[1], perm=pos),
                         dict(pair=(0, 0), perm=pos), dict(valneg=[1], perm=pos, perm_index=1), dict(valneg=[1], valneg_index=1, perm=pos),
                         dict(sequence=seq, matrix=queries.ref_sig_matrix(seq)), dict(sequence=seq, schoute_perm=Perm([1, 0], 2))])
        return f'contradicting {sorted(kw)}', lambda: SigPerm(**kw), ex.ArgComboError
    s = list(pos)
    if n > 1:
        s[0] = s[1]
    else:
        s = [1]
    kw = rng.choice([dict(valneg=[0], perm=s), dict(keyneg=[0, 1], perm=s), dict(valneg=[2], perm=pos), dict(valneg_index=-1, perm_index=0),
                     dict(valneg={-1}, perm=pos), dict(keyneg={'a'}, perm=pos), dict(valneg_index=0, perm_index=-1)])
    return f'parts {kw}', lambda: SigPerm(**kw), REFUSAL


def bad_walshperm(rng):
    n = rng.choice([2, 3, 3, 4, 5, 6])
    cols = gen.invertible_matrix(rng, n)
    k = rng.randrange(6)

    def rows(c):
        return [[v >> i & 1 for v in c] for i in range(n)]
    if k in (0, 1):
        bad = list(cols)
        i, *others = rng.sample(range(n), n)
        bad[i] = 0
        for j in rng.sample(others, rng.randint(0, len(others))):
            bad[i] ^= bad[j]
        if k == 0:
            return f'vector {bad}', lambda: WalshPerm(bad), wx.NotWalshPermError
        return f'matrix {rows(bad)}', lambda: WalshPerm(matrix=np.array(rows(bad))), wx.NotWalshPermError
    if k == 2:
        p = [gf2_apply(cols, i) for i in range(1 << n)]
        i, j = rng.sample(range(1 << n), 2)
        if n == 2 and 0 not in (i, j):
            i = 0
            j = j or 1
        p[i], p[j] = p[j], p[i]
        return f'permutation {p}', lambda: WalshPerm(perm=p), wx.NotWalshPermError
    if k == 3:
        v = list(cols)
        v[rng.randrange(n)] = rng.choice([1 << n, -1, 'a', 0.5, None])
        return f'vector {v}', lambda: WalshPerm(v), REFUSAL
    if k == 4:
        kw = rng.choice([dict(vector=cols, matrix=np.array(rows(cols))), dict(vector=cols, perm=[0, 2, 1, 3]),
                         dict(matrix=np.array(rows(cols)), perm=[0, 2, 1, 3])])
        return f'combination {sorted(kw)}', lambda: WalshPerm(**kw), wx.TooManyArgumentsError
    p = list(range(rng.choice([3, 5, 6, 7])))
    p[1:] = p[:0:-1]
    return f'permutation {p}', lambda: WalshPerm(perm=p), REFUSAL


def bad_partition(rng):
    r = make_recipe(rng, 'setpart')
    blocks, dom, _ = r.data
    blocks = [list(b) for b in blocks] or ([['a', 'b']] if not isinstance(dom, str) and 'a' in dom else [list(dom)[:2]] if not isinstance(dom, str) else [[1, 3]])
    d = dom if isinstance(dom, str) else set(dom)
    k = rng.randrange(6)
    if k == 0:
        b = rng.choice(blocks)
        b.insert(rng.randint(0, len(b)), rng.choice(b))
        return f'blocks {blocks} in {dom}', lambda: SetPart(blocks, d), tx.DuplicateElementsError
    if k == 1:
        other = [rng.choice(rng.choice(blocks))]
        free = [e for e in (range(50, 60) if dom in ('N', 'Z') else dom) if all(e not in b for b in blocks)]
        if free and rng.random() < .7:
            other.append(rng.choice(free))
        bl = blocks + [other]
        rng.shuffle(bl)
        return f'blocks {bl} in {dom}', lambda: SetPart(bl, d), tx.DuplicateElementsError
    if k in (2, 3):
        out = [-1, -7, 0.5] if dom == 'N' else [0.5, 1.5] if dom == 'Z' else ['zz', 'q'] if 'a' in dom else [999, -999]
        b = rng.choice(blocks)
        b.append(rng.choice(out))
        return f'blocks {blocks} in {dom}', lambda: SetPart(blocks, d), tx.NotInDomainError
    if k == 4:
        d = rng.choice([3, 'Q', 1.5])
        return f'domain {d!r}', lambda: SetPart([[0, 1]], d), tx.DomainNotSetLikeError
    v = rng.choice([5, [5, 6], [[0, 1], 7], 1.5, [None]])
    return f'blocks {v!r}', lambda: SetPart(v), REFUSAL


def bad_partcomp(rng):
    r = make_recipe(rng, 'partcomp')
    blocks, comp = r.data
    blocks = [list(b) for b in blocks] or [[1, 3]]
    comp = [tuple(p) for p in comp]
    k = rng.randrange(6)
    b = rng.choice(blocks)
    if k == 0:
        comp = comp + [tuple(rng.sample(b, 2))]
        rng.shuffle(comp)
        return f'{blocks} {comp}', lambda: SetPartComp(blocks, comp), cx.PartCompMismatchError
    if k == 1:
        x, y, z = 20, 21, 22
        comp = comp + [(x, y), (y, z), (z, x)]        # odd circle
        rng.shuffle(comp)
        return f'{blocks} {comp}', lambda: SetPartComp(blocks, comp), cx.PartCompMismatchError
    if k == 2:
        comp = comp + [(b[0], b[0])]
        return f'{blocks} {comp}', lambda: SetPartComp(blocks, comp), cx.PartCompMismatchError
    if k == 3:
        return f'pairs only {comp}', lambda: SetPartComp(comp_pairs=set(comp) or {(0, 1)}), cx.CompWithoutPartError
    if k == 4:
        blocks = blocks + [[b[0], 30]]
        return f'{blocks}', lambda: SetPartComp(blocks), tx.DuplicateElementsError
    v = rng.choice([3, 'x', ((0, 1),), 1.5, {0: 1}])
    return f'equality {v!r}', lambda: SetPartComp(v), REFUSAL


def bad_function(rng):
    n = rng.choice([1, 2, 2, 3, 4])
    bits = [int(b) for b in gen.table(rng, n)]
    if len(set(bits)) == 1:
        bits[0] ^= 1
    atoms = sorted(gen.atoms(rng, n, n + 2))
    N = 1 << n
    ones = [i for i, b in enumerate(bits) if b]
    k = rng.randrange(20)
    if k in (0, 1):
        m = rng.choice([x for x in range(3, 33) if x & (x - 1)])
        t = [rng.randrange(2) for _ in range(m)]
        form = rng.choice([list, tuple, Binv, lambda v: ''.join(map(str, v))])
        if len(set(t)) == 1:                              # an all-equal table of odd length is a constant
            t[0] ^= 1
        return f'table {t}', lambda: Boolf(form(t)), REFUSAL
    if k == 2:
        t = list(bits)
        t[rng.randrange(N)] = j = junk(rng)
        return f'table {t}', lambda: Boolf(t), REFUSAL
    if k == 3:
        a = list(atoms)
        if rng.random() < .5 or n == 1:
            a.append(9)
        else:
            a.pop()
        return f'table {bits} arguments {a}', lambda: Boolf(bits, a), fx.SarityVectorMismatchError
    if k == 4 and n > 1:
        a = list(atoms)
        i, j = rng.sample(range(n), 2)
        a[i] = a[j]
        return f'table {bits} arguments {a}', lambda: Boolf(bits, a), fx.AtomvalsNotUniqueError
    if k == 5:
        a = list(atoms)
        a[rng.randrange(n)] = -1 - rng.randrange(5)
        return f'table {bits} arguments {a}', lambda: Boolf(bits, a), fx.AtomvalNegativeError
    if k == 6:
        a = list(atoms)
        a[rng.randrange(n)] = rng.choice(['a', 0.5, None, [1]])
        return f'table {bits} arguments {a}', lambda: Boolf(bits, a), REFUSAL
    if k == 7:
        f = ones + [rng.choice([N, N + 5, -1, 'a', 0.5, None])]
        kw = rng.choice([dict(arity=n), dict(atomvals=atoms)])
        return f'true places {f} {kw}', lambda: Boolf(fullspots=f, **kw), REFUSAL
    if k == 8:
        kw = rng.choice([dict(fullspots=ones), dict(fullspots=ones, arity=n, atomvals=atoms), dict(), dict(arity=n), dict(atomvals=atoms),
                         dict(tt=bits, atom=1), dict(tt=bits, zhe=3), dict(tt=bits, fullspots=ones), dict(atom=1, arity=3), dict(zhe=3, arity=2),
                         dict(atom=1, zhe=1), dict(multi_and=[0], multi_or=[1]), dict(multi_and=[0], tt=bits), dict(walsh_spectrum=[2, 0], tt=bits),
                         dict(walsh_spectrum=[2, 0], zhe=1), dict(fullspots=ones, zhe=1)])
        return f'combination {kw}', lambda: Boolf(**kw), ex.ArgComboError
    if k == 9:
        z = rng.choice([-1, -9, 'a', 0.5, [1]])
        return f'Zhegalkin index {z!r}', lambda: Boolf(zhe=z), REFUSAL
    if k in (10, 11):
        w = wht([int(b) for b in bits])
        w = [int(x) for x in w]
        i = rng.randrange(N)
        w[i] += rng.choice([1, -1, 2, -2, 0.5, N])
        if k == 11:
            w = w[:-1] if N > 2 else w + [0]
        # the inverse transform decides whether the damaged spectrum still denotes a function
        if len(w) & (len(w) - 1) == 0:
            back = wht(w)
            if all(x % len(w) == 0 and x // len(w) in (0, 1) for x in back):
                return None
        return f'spectrum {w}', lambda: Boolf(walsh_spectrum=w), REFUSAL
    if k == 12:
        a = rng.choice(['a', 1.5, [1], (0,), {1}])
        return f'atom {a!r}', lambda: Boolf(atom=a), REFUSAL
    if k == 13:
        name = rng.choice(['multi_and', 'multi_or', 'multi_xor', 'multi_xand'])
        a = [0, 2, rng.choice(['a', 1.5, None, [1]])]
        rng.shuffle(a)
        return f'{name} {a}', lambda: Boolf(**{name: a}), REFUSAL
    if k == 14:
        t = rng.choice([3, 0, 1.5, {0, 1}, {0: 1}, object])
        return f'table {t!r}', lambda: Boolf(t), REFUSAL
    if k == 15:
        kw = rng.choice([dict(atomvals=[0]), dict(arity=2), dict(atomvals=[]), dict(skip_deflation=True), dict(arity=0)])
        v = rng.random() < .5
        return f'constant {v} {kw}', lambda: Boolf(v, **kw), ex.ArgComboError
    if k == 16:
        v = rng.choice([1, 0, None, 'x', []])
        return f'skip_deflation {v!r}', lambda: Boolf(bits, skip_deflation=v), ex.ArgTypeError
    if k == 17:
        kw = rng.choice([dict(fullspots=[0, 1], arity=0), dict(fullspots=[1], atomvals=[]), dict(fullspots=[0, 5], atomvals=[])])
        return f'places {kw}', lambda: Boolf(**kw), ex.ArgMismatchError
    if k == 18 and n > 1:
        a = list(atoms)
        i, j = rng.sample(range(n), 2)
        a[i] = a[j]
        return f'places {ones} arguments {a}', lambda: Boolf(fullspots=ones, atomvals=a), fx.AtomvalsNotUniqueError
    t = rng.choice(['', [], ()])
    return f'table {t!r}', lambda: Boolf(t), REFUSAL


DAMAGE = [('bits', bad_bits), ('perm', bad_perm), ('sigperm', bad_sigperm), ('walshperm', bad_walshperm), ('partition', bad_partition),
          ('partcomp', bad_partcomp), ('function', bad_function)]


def bystanders(rng):
    recipes = [make_recipe(rng) for _ in range(2)]
    return [(r, r.build(rng.randrange(4))) for r in recipes]


def unharmed(c, objs, *ctx):
    rng = c.rng
    for r, o in objs:
        c.eq('unchanged-after-refusal', canon(o), canon(r.build()), r, 'after', *ctx)
        for q in rng.sample(queries.questions(rng, r, o), 3):
            c.eq('works-after-refusal', ask(o, *q), ask(r.build(), *q), q[0], q[1], r, 'after', *ctx)


@scenario(quick=8000, thorough=120000)
def descriptions(c):
    rng = c.rng
    name, damage = DAMAGE[c.index % len(DAMAGE)]
    objs = bystanders(rng) if c.index % 5 == 0 else []
    r = damage(rng)
    if r is None:
        return
    text, fn, classes = r
    c.note(name, text)
    c.raises(name + '-refused', fn, classes, text)
    c.state(name, text)
    c.sample(f'{name} {text}')
    unharmed(c, objs, text)


@scenario(quick=1500, thorough=20000)
def undamaged(c):
    """the same generators without damage give acceptable descriptions"""
    r = make_recipe(c.rng)
    for way in range(4):
        o = r.build(way)
        c.eq('undamaged-accepted', canon(o), canon(r.build()), r)
    c.state('undamaged', str(r), trivial=True)


# ------------------------------------------------------------------ refused operations on existing objects

def bad_operation(rng, recipe, o):
    """(text, function, classes, further operands)"""
    kind, data = recipe.kind, recipe.data
    stranger = rng.choice([3, None, 'x', [0, 0], 1.5])
    if kind == 'bits':
        n = len(data[0])
        return rng.choice([
            (f'place {n + 2}', lambda: o[n + 2], ASSERTED), (f'flip {n}', lambda: o.flip_bit(n), ASSERTED),
            ('concatenation', lambda: o + stranger, ASSERTED), ('comparison', lambda: o == stranger, ASSERTED)])
    if kind == 'perm':
        seq, per = data
        n = len(seq)
        nonneutral = any(i != v for i, v in enumerate(seq))
        opts = [('product', lambda: o * stranger, px.OtherNotPermError), ('comparison', lambda: o == stranger, px.OtherNotPermError),
                ('place', lambda: o[rng.choice([-1, -3, 'a', None, 1.5])], ASSERTED), ('power', lambda: o ** rng.choice([0.5, 'a', None, 1.5]), ASSERTED)]
        if nonneutral and per is None:
            top = max(i for i in range(n) if seq[i] != i)
            opts += [(f'sequence {top}', lambda: o.sequence(top), px.LengthTooSmallError), ('cycles', lambda: o.cycles_dynamic(), px.NotPeriodicError),
                     ('mixed product', lambda: o * Perm([1, 0], 2), px.OtherPerilenMismatchError),
                     ('mixed product', lambda: Perm([1, 2, 0], 3) * o, px.OtherPerilenMismatchError)]
        if nonneutral and per is not None:
            p = int(o.perilen)
            opts += [(f'sequence {p + 1}', lambda: o.sequence(p + 1), px.LengthMismatchPerilenError), (f'cycles {p + 1}', lambda: o.cycles_dynamic(p + 1), px.LengthMismatchPerilenError),
                     ('mixed product', lambda: o * Perm([1, 2, 0]), px.OtherPerilenMismatchError), ('rank', lambda: o.left_rank, REFUSAL), ('rank', lambda: o.right_rank, REFUSAL)]
        return rng.choice(opts)
    if kind == 'sigperm':
        n = o.length
        opts = [('number', lambda: o.apply_on_natural_number(rng.choice([-1, 1.5, 'a'])), REFUSAL), ('comparison', lambda: o == stranger, REFUSAL),
                ('power', lambda: o ** rng.choice([0.5, 1.5, 'a']), REFUSAL)]
        if n:
            opts += [('sequence', lambda: o.sequence(n - 1), REFUSAL), ('matrix', lambda: o.matrix(n - 1), REFUSAL), ('vector', lambda: o.apply_on_vector([1] * (n - 1)), REFUSAL)]
        return rng.choice(opts)
    if kind == 'walshperm':
        d = o.degree
        opts = [('length', lambda: o.sequence(3 << d), wx.NotPowerOfTwoError), ('two sizes', lambda: o.sequence(1 << d, d), wx.RedundantParametersError)]
        if d:
            opts += [('degree', lambda: o.sequence(degree=d - 1), REFUSAL), ('matrix', lambda: o.matrix(d - 1), REFUSAL), ('vector', lambda: o.vector(d - 1), REFUSAL),
                     ('product', lambda: o * stranger, REFUSAL), ('place', lambda: o[-1], ASSERTED),
                     ('length of cycles', lambda: o.cycles_dynamic(3 << d), wx.NotPowerOfTwoError), ('two sizes of cycles', lambda: o.cycles_dynamic(1 << d, d), wx.RedundantParametersError),
                     ('cycles', lambda: o.cycles_dynamic(1 << d - 1), wx.RequestedDegreeSmallerActualDegreeError), ('sequence', lambda: o.sequence(1 << d - 1), wx.RequestedDegreeSmallerActualDegreeError),
                     ('degree of cycles', lambda: o.cycles_dynamic(degree=d - 1), wx.RequestedDegreeSmallerActualDegreeError),
                     ('transpose', lambda: o.transpose_vector(d - 1), wx.RequestedDegreeSmallerActualDegreeError), ('pattern', lambda: o.complement_pattern(d - 1), wx.RequestedDegreeSmallerActualDegreeError)]
        return rng.choice(opts)
    if kind == 'setpart':
        blocks, dom, labels = data
        inside = 1 if isinstance(dom, str) else rng.choice(list(dom))
        outside = rng.choice([-1, 0.5, -9] if dom == 'N' else [0.5, 'a', None] if dom == 'Z' else ['zz', 999, None, (1, 2)])
        other = SetPart([], 'Z' if dom != 'Z' else 'N')
        opts = [(f'merge {inside} {outside}', lambda: o.merge_pair(inside, outside), tx.NotInDomainError), (f'merge {outside} {inside}', lambda: o.merge_pair(outside, inside), tx.NotInDomainError),
                ('other domain', lambda: other.meet(o), tx.DomainsNotEqualError), ('other domain', lambda: o < other, tx.DomainsNotEqualError), ('other domain', lambda: o != other, tx.DomainsNotEqualError),
                ('merge unhashable', lambda: o.merge_pair(inside, [inside]), REFUSAL),
                (f'label {outside}', lambda: o.add_label_to_element(outside, 'new'), REFUSAL), ('label of no block', lambda: o.add_label_to_block([inside, outside], 'new'), REFUSAL),
                ('other domain', lambda: o.join(other), tx.DomainsNotEqualError), ('other domain', lambda: o.meet(other), tx.DomainsNotEqualError),
                ('other domain', lambda: o == other, tx.DomainsNotEqualError), ('other domain', lambda: o <= other, tx.DomainsNotEqualError),
                ('other domain', lambda: other.join(o), tx.DomainsNotEqualError)]
        if blocks:
            b = list(rng.choice(blocks))
            other_b = [x for bl in blocks for x in bl if x not in b]
            opts += [('refine incompletely', lambda: o.refine_block([b[:1]]), REFUSAL), ('refine overlapping', lambda: o.refine_block([b[:1], b]), REFUSAL),
                     ('refine by a stranger', lambda: o.refine_block([b[:1], b[1:] + [outside]]), REFUSAL), ('refine by nothing', lambda: o.refine_block([]), REFUSAL)]
            if other_b:
                opts += [('refine across blocks', lambda: o.refine_block([b[:1], b[1:] + other_b[:1]]), REFUSAL)]
            if not isinstance(dom, str):
                opts += [('blocks of a part', lambda: o.blocks_with_singletons(elements=b[:1]), REFUSAL), ('blocks by length', lambda: o.blocks_with_singletons(length=99), REFUSAL),
                         ('blocks by range', lambda: o.blocks_with_singletons(range_pair=(-99, 99)), REFUSAL)]
            opts += [('elements of another type', lambda: o.blocks_with_singletons(elements=rng.choice([tuple(b), dict.fromkeys(b), 'ab', 5])), REFUSAL),
                     ('two sizes', lambda: o.blocks_with_singletons(**rng.choice([dict(length=99, range_pair=(-99, 99)), dict(range_pair=(-99, 99), elements=list(b)), dict(length=99, elements=list(b))])), REFUSAL),
                     ('refine by another type', lambda: o.refine_block(rng.choice([dict(enumerate([b[:1], b[1:]])), {tuple(b[:1]), tuple(b[1:])}])), ex.ArgTypeError),
                     ('refine with repetition', lambda: o.refine_block([b[:1], b[1:], b[:1]]), ex.ArgValueError),
                     ('labels of another type', lambda: o.refine_block([b[:1], b[1:]], rng.choice(['xy', {'x', 'y'}, {0: 'x', 1: 'y'}])), ex.ArgTypeError),
                     ('too few labels', lambda: o.refine_block([b[:1], b[1:]], ['x']), ex.ArgValueError), ('too many labels', lambda: o.refine_block([b[:1], b[1:]], ['x', 'y', 'z']), ex.ArgValueError)]
            if labels:
                lb, lab = rng.choice(labels)
                opts += [('contradicting label', lambda: o.add_label_to_block(list(lb), 'another'), REFUSAL), ('contradicting label', lambda: o.add_label_to_element(lb[0], 'another'), REFUSAL)]
                if len(labels) > 1:
                    x, y = rng.sample(labels, 2)
                    opts += [('merge of labelled blocks', lambda: o.merge_pair(x[0][-1], y[0][-1]), REFUSAL)] * 3
            if dom == 'N':
                top = max(max(bl) for bl in blocks)
                opts += [('too short', lambda: o.blocks_with_singletons(length=top), REFUSAL), ('too many', lambda: o.blocks_with_singletons(length=99, elements=[0, 1]), REFUSAL)]
                opts += [('length of another type', lambda: o.blocks_with_singletons(length=rng.choice(['99', 99.0, [99]])), REFUSAL), ('range', lambda: o.blocks_with_singletons(range_pair=(0, 99)), REFUSAL)]
            if dom == 'Z':
                low, high = min(min(bl) for bl in blocks), max(max(bl) for bl in blocks) + 1
                pair = rng.choice([(low + 1, high), (low, high - 1), (low - 3, high - 1), (low + 1, high + 5), (high, low)])
                opts += [(f'range {pair}', lambda: o.blocks_with_singletons(range_pair=pair), REFUSAL), ('range of another type', lambda: o.blocks_with_singletons(range_pair=(low - .5, high)), REFUSAL),
                         ('length', lambda: o.blocks_with_singletons(length=99), REFUSAL)] * 2
            if dom in ('N', 'Z'):
                opts += [('singletons', lambda: SetPart([[0, 1]], 'Z').singletons, tx.DomainNotFiniteError)]
        return rng.choice(opts)
    if kind == 'partcomp':
        blocks, comp = data
        opts = [('own complement', lambda: o.set_comp(9, 9), cx.SetCompEqualsError)]
        if blocks:
            x, y = rng.sample(rng.choice(blocks), 2)
            opts += [(f'complement {x} {y}', lambda: o.set_comp(x, y), cx.SetCompEqualsError)] * 2
        if comp:
            a, b = rng.choice(comp)
            a, b = rng.choice(o.get_block(a)), rng.choice(o.get_block(b))
            opts += [(f'equal {a} {b}', lambda: o.set_equal(a, b), cx.SetEqualComplementsError), (f'equal {b} {a}', lambda: o.set_equal(b, a), cx.SetEqualComplementsError)] * 2
        return rng.choice(opts)
    atoms, bits = data
    n, top = len(atoms), max(atoms, default=-1) + 1
    opts = [('order', lambda: o.apply(*range(n + 1)), vx.SarityMismatchError), ('values', lambda: o.val(*[0] * (n + 1)), vx.SarityMismatchError),
            ('values', lambda: o.vals(*range(n + 1)), vx.SarityMismatchError),
            ('foreign argument', lambda: o.filtrated_boolf([top + 3]), REFUSAL),
            ('table', lambda: o.tt(rng.choice(['a', -1, 2.5])), REFUSAL)]
    if n:
        opts += [('arity', lambda: o.tt(top - 1), REFUSAL), ('spectrum', lambda: o.walsh_spectrum(top - 1), REFUSAL), ('too few', lambda: o.apply(*range(n - 1)), vx.SarityMismatchError),
                 ('arguments', lambda: o.tt([a for a in atoms[1:]] + [40]), REFUSAL), ('value', lambda: o.val(*([0] * (n - 1) + [rng.choice([2, 'a', None, -1])])), REFUSAL),
                 ('consul', lambda: o.consul(top - 1), ASSERTED), ('patron', lambda: o.patron_int(top - 1), ASSERTED), ('noble', lambda: o.is_noble(top - 1), ASSERTED),
                 ('sharp', lambda: o.is_sharp(top - 1), ASSERTED), ('clan', lambda: o.ec_clan(top - 1), REFUSAL), ('faction', lambda: o.ec_faction(top - 1), REFUSAL),
                 ('signed permutation', lambda: o.apply_sigperm(stranger), (ValueError, TypeError, AttributeError)), ('inflate', lambda: o.inflated_fullspots(list(atoms[1:])), REFUSAL)]
    names = [f'n{i}' for i in range(n)]
    wrong = rng.choice([names + ['more'], names[:-1] + names[:1] if n > 1 else names + ['more'], names[1:] if n else ['more']])
    opts += [('names', lambda: o.fullspot_atoms_pretty(wrong), ex.ArgMismatchError), ('names', lambda: o.filtrated_pairs_pretty(wrong), ex.ArgMismatchError)]
    if n:
        k, out = rng.randrange(n), n + rng.randrange(3)
        pair = rng.choice([(k, k), (k, out), (out, k)])
        method = rng.choice([o.atom_pair_subset, o.atom_pair_intersect, o.atom_pair_crossing, o.atom_border_in_atom_side])
        opts += [(f'pair {pair}', lambda: method(*pair), fx.NotPairOfAtomKeysError)] * 3
        opts += [('pair', lambda: o.filtrated_pair(k, out), ASSERTED), ('place too big', lambda: o.bloatless_spotint((1 << n) + rng.randrange(3)), ValueError),
                 ('twin', lambda: o.twin(top - 1), ASSERTED), ('argument type', lambda: o.inflated_fullspots(rng.choice(['x', dict.fromkeys(atoms), range(top)])), REFUSAL)]
        if list(atoms) != list(range(n)):
            opts += [('matrix of a spread function', lambda: o.ec_clan_matrix(), fx.NotSpreadlessError)]
    if n > 1:
        sub = list(range(n))
        sub[0] = rng.choice([sub[1], ~sub[1]])
        opts += [(f'repeated argument {sub}', lambda: o.apply(*sub), vx.UnexpectedArgumentError), (f'repeated argument {sub}', lambda: o.vals(*sub), vx.UnexpectedArgumentError)]
    return rng.choice(opts)


@scenario(quick=3500, thorough=50000)
def operations(c):
    rng = c.rng
    recipe = make_recipe(rng)
    o = recipe.build(rng.randrange(4))
    objs = bystanders(rng)[:1] + [(recipe, o)]
    if rng.random() < .4:
        for q in rng.sample(queries.questions(rng, recipe, o), 4):       # a past with questions
            ask(o, *q)
    for _ in range(rng.choice([1, 1, 3])):
        text, fn, classes = bad_operation(rng, recipe, o)
        c.note(str(recipe), text)
        c.raises('operation-refused', fn, classes, text, recipe)
        c.state(str(recipe), text)
        c.eq('unchanged-after-refusal', canon(o), canon(recipe.build()), recipe, 'after', text)
    unharmed(c, objs, text, 'of', recipe)
