from discretehelpers.binv import Binv
from discretehelpers.boolf import Boolf
from discretehelpers.ex import ArgMismatchError, ArgTooSmallError

from lib import hooks, gen
from lib.core import scenario
from lib.ref import RefF, mobius, wht

PROPERTY = 'F01'
RULE = ('Tables of up to 6 arguments of many shapes (symmetric, linear, sparse, with redundant or tied arguments) on dense and sparse argument sets are given to every constructor in every admissible form; '
        'all views, comparison, hash and printed form are compared with the function itself. A state is the reduced table with its arguments; trivial for constants.')
REQUIRED = ['table-constructor', 'integer-constructor', 'atom', 'true-places-constructor', 'and', 'or', 'xor', 'xand', 'zhegalkin', 'walsh', 'constant', 'reduced', 'table', 'table-arity', 'table-arguments', 'item',
            'table-refused', 'root', 'sizes', 'complement', 'weight', 'equal', 'different', 'hash', 'eval-str', 'order', 'unreduced', 'arguments-unchanged', 'boolf-canonical']


def prepare():
    hooks.install_boolf()


def agree(c, f, r, monitor, *ctx):
    """the function f is the function r, read by any of its views"""
    c.eq(monitor, [int(a) for a in f.atomvals], list(r.atoms), *ctx)
    c.eq(monitor, [bool(b) for b in f.root.vector], list(r.bits), *ctx)


def views(c, f, r, *ctx):
    rng = c.rng

    def v_table():
        if r.adicity <= 9:
            c.eq('table', [bool(b) for b in f.tt()], r.table(), *ctx)
            n = min(r.adicity + rng.randint(0, 2), 9)
            c.eq('table-arity', [bool(b) for b in f.tt(n)], r.table(n), n, *ctx)
        if r.adicity:
            c.raises('table-refused', lambda: f.tt(r.adicity - 1), ArgTooSmallError, *ctx)

    def v_table_on():
        extra = rng.sample(range(r.adicity + 4), min(rng.randint(0, 2), r.adicity + 4))
        at = list(set(r.atoms) | set(extra))
        rng.shuffle(at)
        arg = rng.choice([list, set, tuple])(at)
        c.eq('table-arguments', [bool(b) for b in f.tt(arg)], r.table_on(at), at, *ctx)
        if r.atoms:
            a = rng.choice(r.atoms)
            c.raises('table-refused', lambda: f.tt([x for x in at if x != a]), ArgMismatchError, *ctx)

    def v_item():
        for _ in range(6):
            x = rng.randrange(1 << (r.adicity + 3))
            c.eq('item', bool(f[x]), r.at(x), x, *ctx)

    def v_places():
        c.eq('true-places', sorted(f.fullspots), [i for i, b in enumerate(r.bits) if b], *ctx)

    def v_root():
        q = f.root_boolf
        agree(c, q, r.root(), 'root', *ctx)
        c.eq('root', bool(f.is_root), r.valency == r.adicity, *ctx)
        c.eq('root', [int(x) for x in f.spread_vector], [a - i for i, a in enumerate(r.atoms)], *ctx)

    def v_sizes():
        c.eq('sizes', (f.valency, f.adicity, bool(f.is_constant)), (r.valency, r.adicity, r.valency == 0), *ctx)
        c.eq('sizes', f.atomvals_integer, sum(1 << a for a in r.atoms), *ctx)

    def v_complement():
        agree(c, f.complement, ~r, 'complement', *ctx)
        agree(c, ~f, ~r, 'complement', *ctx)
        c.true('complement', ~~f == f, *ctx)

    def v_weight():
        c.eq('weight', (f.weight_fract.numerator * len(r.bits)), sum(r.bits) * f.weight_fract.denominator, *ctx)
        if r.adicity <= 8:
            t = r.table()
            n = sum(b << (len(t) - 1 - i) for i, b in enumerate(t))
            v = f.value_fract()
            c.eq('weight', v.numerator * ((1 << len(t)) - 1), n * v.denominator, *ctx)

    def v_str():
        s = str(f)
        c.eq('repr', repr(f), s)
        q = eval(s, {'Boolf': Boolf})
        c.true('eval-str', q == f and str(q) == s, s, *ctx)
        agree(c, q, r, 'eval-str', s, *ctx)

    tests = [v_table, v_table_on, v_item, v_places, v_root, v_sizes, v_complement, v_weight, v_str]
    rng.shuffle(tests)
    for t in tests:
        t()


def documented(atoms):
    """the argument behind each digit of the index of a table whose arguments are given in this order

    Arguments in ascending order are taken as they are. Others are sorted together with the table, by the bit permutation
    described in the documentation of the reordering (and pinned in the tests): for [2, 0, 1] digits 0, 1, 2 become 1, 2, 0.
    """
    asc = sorted(atoms)
    rank = [asc.index(a) for a in atoms]
    return [asc[rank.index(i)] for i in range(len(atoms))]


def builds(c, atoms, bits):
    """ways to build the function with the given table on the given arguments (in the given order)"""
    rng = c.rng
    r = RefF(documented(atoms), bits)
    n = len(atoms)
    text = ''.join('01'[b] for b in bits)
    spaced = ' '.join(text[i:i + 4] for i in range(0, len(text), 4))
    out = []
    forms = [list(bits), [int(b) for b in bits], tuple(bits), text, spaced, Binv(list(bits))]
    out.append(('table-constructor', lambda x=rng.choice(forms): Boolf(x, rng.choice([list, tuple])(atoms))))
    out.append(('table-constructor', lambda x=rng.choice(forms): Boolf(tt=x, atomvals=list(atoms))))
    asc = sorted(atoms)
    tab = r.table_on(asc)
    out.append(('table-constructor', lambda: Boolf(tab, asc)))
    if r.adicity <= 8:
        ar = min(r.adicity + rng.randint(0, 2), 8)
        t = r.table(ar)
        out.append(('table-constructor', lambda: Boolf(t)))
        out.append(('integer-constructor', lambda: Boolf(r.intval(ar), arity=ar)))
        out.append(('true-places-constructor', lambda: Boolf(fullspots=rng.choice([list, set])(i for i, b in enumerate(t) if b), arity=ar)))
        out.append(('zhegalkin', lambda: Boolf(zhe=sum(b << i for i, b in enumerate(mobius(t))))))
        if ar <= 6:
            out.append(('walsh', lambda: Boolf(walsh_spectrum=wht(t))))
    out.append(('integer-constructor', lambda: Boolf(sum(b << i for i, b in enumerate(bits)), list(atoms), arity=n)))
    out.append(('true-places-constructor', lambda: Boolf(fullspots=[i for i, b in enumerate(bits) if b], atomvals=rng.choice([list, tuple])(atoms))))
    if n == 0 or not r.atoms:
        out.append(('constant', lambda: Boolf(bool(bits[0]))))
        out.append(('constant', lambda: Boolf('01'[bits[0]])))
    # algebraic normal form, spelled out with the other constructors
    if r.valency <= 4:
        terms = [[a for k, a in enumerate(r.atoms) if m >> k & 1] for m, b in enumerate(mobius(r.bits)) if b]
        out.append(('xor', lambda: Boolf(multi_xor=[Boolf(multi_and=t) for t in terms])))
        clauses = [[a if m >> k & 1 else ~a for k, a in enumerate(r.atoms)] for m, b in enumerate(r.bits) if b]
        out.append(('or', lambda: Boolf(multi_or=[Boolf(multi_and=t) for t in clauses])))
    return r, out


@scenario(quick=1500, thorough=25000)
def functions(c):
    rng = c.rng
    n = rng.choice([0, 1, 2, 2, 3, 3, 4, 4, 5, 6]) if rng.random() < .97 else rng.choice([7, 8])
    atoms, bits = gen.atoms(rng, n, None if rng.random() < .95 else rng.choice([40, 120, 1500])), gen.table(rng, n)
    r, ways = builds(c, atoms, bits)
    c.state(r.key, trivial=not r.atoms)
    given = list(atoms)
    objs = []
    for how, make in ways:
        f = make()
        agree(c, f, r, how, given, bits)
        objs.append((how, f))
    c.eq('arguments-unchanged', atoms, given)
    rng.shuffle(objs)
    for how, f in objs[:3]:
        views(c, f, r, how, r)
    h0, f0 = objs[0]
    for h, f in objs[1:]:
        c.true('equal', f == f0 and f0 == f and not f != f0, h0, h, r)
        c.true('hash', hash(f) == hash(f0) and str(f) == str(f0) and len({f, f0}) == 1, h0, h, r)
    c.sample(str(f0))
    # a neighbour: one bit, one argument, or shifted
    b2, a2 = list(bits), list(atoms)
    k = rng.random()
    if k < .5 or n == 0:
        i = rng.randrange(len(bits))
        b2[i] = not b2[i]
    else:
        a2[rng.randrange(n)] = max(atoms) + 1
    s = RefF(documented(a2), b2)
    g = Boolf(b2, a2)
    agree(c, g, s, 'table-constructor', a2, b2)
    c.eq('different', (f0 == g, f0 != g, g == f0, g != f0, str(f0) == str(g)), (r == s, r != s, r == s, r != s, r == s), r, s)
    c.eq('order', [f0 < g, f0 > g, f0 == g].count(True), 1, r, s)
    c.eq('order', (f0 <= g, f0 >= g), (not f0 > g, not f0 < g), r, s)


@scenario(quick=4000, thorough=40000)
def signed_atoms(c):
    rng = c.rng
    n = rng.randint(0, 6) if rng.random() < .97 else rng.randint(7, 8)
    signed = [rng.choice([a, ~a]) for a in rng.choices(range(8), k=n)] if rng.random() < .4 else [rng.choice([a, ~a]) for a in rng.sample(range(12 if rng.random() < .9 else 150), n)]
    lits = [RefF([s if s >= 0 else ~s], [s < 0, s >= 0]) for s in signed]
    one, zero = RefF([], [True]), RefF([], [False])
    a, o, x = one, zero, zero
    for q in lits:
        a, o, x = a & q, o | q, x ^ q
    e = one
    for q in lits:
        e = e ^ ~q
    c.state('multi', tuple(signed), trivial=n == 0)
    give = rng.choice([list, tuple])(signed)
    agree(c, Boolf(multi_and=give), a, 'and', signed)
    agree(c, Boolf(multi_or=give), o, 'or', signed)
    agree(c, Boolf(multi_xor=give), x, 'xor', signed)
    agree(c, Boolf(multi_xand=give), e, 'xand', signed)
    s = rng.choice([1, -1]) * rng.randint(0, rng.choice([40, 40, 400])) - rng.randrange(2)
    agree(c, Boolf(atom=s), RefF([s if s >= 0 else ~s], [s < 0, s >= 0]), 'atom', s)
    f, want = Boolf(rng.random() < .5), None
    c.true('constant', f.is_constant and f.valency == 0 and f.adicity == 0 and list(f.atomvals) == [])
    z = rng.getrandbits(rng.choice([1, 2, 4, 8, 16, 32, 64, 64, 128, 256]))
    n = 6 if z < 1 << 64 else 8
    t = mobius([z >> i & 1 for i in range(1 << n)])
    agree(c, Boolf(zhe=z), RefF(range(n), t), 'zhegalkin', z)


@scenario(quick=600, thorough=10000)
def internal(c):
    """redundant arguments of any number and place are removed, alone or together"""
    rng = c.rng
    n = rng.randint(1, 3)
    core = gen.table(rng, n)
    at = rng.sample(range(9), n + rng.randint(1, 3))
    dep, red = at[:n], at[n:]
    order = rng.sample(at, len(at))
    named = documented(order)
    bits = []
    for x in range(1 << len(at)):
        k = sum((x >> named.index(a) & 1) << i for i, a in enumerate(dep))
        bits.append(core[k])
    r = RefF(dep, core)
    f = Boolf(bits, order)
    c.state(r.key, tuple(red))
    agree(c, f, r, 'reduced', order)
    c.true('equal', f == Boolf(r.table_on(dep), sorted(dep)), r)
    g = Boolf(fullspots=[i for i, b in enumerate(bits) if b], atomvals=order)
    agree(c, g, r, 'reduced', order)
    # construction without reduction
    wide = sorted(at)
    want = [core[sum((x >> wide.index(a) & 1) << i for i, a in enumerate(dep))] for x in range(1 << len(wide))]
    for g in () if not r.atoms else (Boolf(bits, order, skip_deflation=True), Boolf(fullspots=[i for i, b in enumerate(want) if b], atomvals=wide, skip_deflation=True)):
        c.eq('unreduced', ([bool(b) for b in g.root.vector], [int(a) for a in g.atomvals], g.valency, g.adicity, bool(g.is_inflated)),
             ([bool(b) for b in want], wide, len(wide), wide[-1] + 1, True), r, order)
        c.eq('unreduced', [bool(b) for b in g.tt().vector], r.table(wide[-1] + 1), r, order)
    if r.atoms:
        g = Boolf(list(r.bits), list(r.atoms), skip_deflation=True)
        c.eq('unreduced', (g == Boolf(list(r.bits), list(r.atoms)), bool(g.is_inflated)), (True, False), r)
    c.true('unreduced', not f.is_inflated, r)
