from collections import Counter, defaultdict
from itertools import product

import numpy as np

from discretehelpers.a import (default_to_regular_dict, find_integer_partitions, flatten, have, have_only, inventory_dict, inventory_partition,
                               inverse_cartesian_product, is_error, is_multisubset, key_tuples, logic_abs, logic_abs_increase, logic_abs_increase_vector, logic_abs_vector,
                               logic_negate, logic_negate_vector, logic_str, logic_str_vector, make_transposition, multiset_to_distri, other_entry_in_pair, powerset,
                               pretty_signs, repeat_sequence, slice_to_range, sort_cols_together, sort_rows_together, sort_together, sorted_colex, subdict, swap_matrix_rows,
                               true_except, try_except, vector_zip_apart, vector_zip_together)
from discretehelpers.a import is_integer_matrix
from discretehelpers.binv import Binv
from discretehelpers.ex import ArgComboError

from lib.core import scenario

PROPERTY = 'H03'
RULE = ('Random sequences, multisets, nested containers, matrices and slices with duplicates, empty and single-element cases; inputs are compared with a deep copy after every call. '
        'The oracle restates each specification as a multiset, order or pointwise condition. A state is the helper with the shape of the input; trivial for empty input.')
REQUIRED = ['powerset', 'partitions', 'cartesian', 'cartesian-refused', 'inventory', 'multisubset', 'distri', 'zip', 'zip-back', 'flatten', 'repeat', 'sort-together', 'sort-rows', 'sort-cols',
            'colex', 'slice', 'transposition', 'swap-rows', 'logic', 'logic-string', 'signs', 'subdict', 'keys', 'other', 'have', 'errors', 'unchanged', 'refused']


def seq(rng, lo=0, hi=8, vals=range(-4, 9)):
    return [rng.choice(vals) for _ in range(rng.randint(lo, hi))]


@scenario(quick=30000, thorough=200000)
def sequences(c):
    rng = c.rng
    SECTIONS[c.index % len(SECTIONS)](c, rng)


def sec_powerset(c, rng):
    s = seq(rng, 0, 7)
    t = rng.choice([list, tuple])(s)
    got = [tuple(x) for x in powerset(t)]
    c.state('powerset', len(s), trivial=not s)
    c.note(s)
    want = Counter(tuple(v for i, v in enumerate(s) if m >> i & 1) for m in range(1 << len(s)))
    c.eq('powerset', Counter(got), want, s)
    c.true('powerset', [len(x) for x in got] == sorted(len(x) for x in got), s)
    c.eq('unchanged', list(t), s, s)


def sec_partitions(c, rng):
    n = rng.randint(1, 12)
    c.state('partitions', n)
    got = find_integer_partitions(n)

    def parts(n, top):
        if n == 0:
            yield ()
        for k in range(min(n, top), 0, -1):
            for p in parts(n - k, k):
                yield (k, *p)
    c.eq('partitions', {tuple(p) for p in got}, {tuple(sorted(p)) for p in parts(n, n)}, n)


def sec_cartesian(c, rng):
    left = sorted(set(seq(rng, 0, 4)))
    right = sorted(set(seq(rng, 0, 4))) if left else []
    if not right:
        left = []
    pairs = list(product(left, right))
    rng.shuffle(pairs)
    c.state('cartesian', len(left), len(right), trivial=not pairs)
    c.note(pairs)
    c.eq('cartesian', inverse_cartesian_product(pairs), (tuple(left), tuple(right)), pairs)
    bad = None
    if len(left) > 1 and len(right) > 1:
        bad = pairs[1:]
    elif pairs:
        bad = pairs + [(max(left) + 1, max(right) + 1)]
    if bad is not None:
        c.raises('cartesian-refused', lambda: inverse_cartesian_product(bad), AssertionError, bad)


def sec_inventory(c, rng):
    s = seq(rng, 0, 9, rng.choice([range(4), 'abc', range(-2, 3)]))
    keys = rng.sample(range(50), len(s))
    d = dict(zip(keys, s))
    c.state('inventory', len(s), len(set(s)), trivial=not s)
    c.note(s, keys)
    want = {v: s.count(v) for v in sorted(set(s))}
    for arg in (list(s), tuple(s), dict(d), defaultdict(list, d)):
        got = inventory_dict(arg)
        c.eq('inventory', list(got.items()), list(want.items()), s, type(arg).__name__)
        p = inventory_partition(arg)
        places = range(len(s)) if type(arg) in (list, tuple) else keys
        blocks = sorted(sorted(k for k, v in zip(places, s) if v == val) for val in want)
        c.eq('inventory', p.block_labels, {tuple(b): dict(zip(places, s))[b[0]] for b in blocks}, s, type(arg).__name__)
        c.eq('inventory', p.blocks, [b for b in blocks if len(b) > 1], s, type(arg).__name__)
        c.eq('unchanged', list(arg) if type(arg) in (list, tuple) else dict(arg), s if type(arg) in (list, tuple) else d, s)
    c.raises('refused', lambda: inventory_dict('aab'), TypeError)
    c.raises('refused', lambda: inventory_partition({1, 2}), TypeError)


def sec_multiset(c, rng):
    vals = rng.sample(range(10), 5)
    a = {v: rng.randint(0, 3) for v in vals if rng.random() < .6}
    b = {v: rng.randint(0, 3) for v in vals if rng.random() < .8}
    if rng.random() < .4:
        b = {**b, **{v: k + rng.randint(0, 1) for v, k in a.items()}}
    c.state('multiset', tuple(sorted(a.values())), tuple(sorted(b.values())), trivial=not a)
    c.note(a, b)
    c.eq('multisubset', bool(is_multisubset(a, b)), all(k <= b.get(v, 0) for v, k in a.items()), a, b)
    c.eq('distri', multiset_to_distri(a, vals), [a.get(v, 0) for v in vals], a, vals)
    c.raises('refused', lambda: multiset_to_distri({**a, 99: 1}, vals), AssertionError)


def sec_zip(c, rng):
    n = rng.randint(0, 10)
    k = rng.randint(1, 4)
    pat = [rng.randrange(k) for _ in range(n)]
    v = [rng.randint(-9, 99) for _ in range(n)]
    c.state('zip', n, tuple(sorted(Counter(pat).values())), trivial=not n)
    c.note(v, pat)
    want = [[e for e, p in zip(v, pat) if p == i] for i in range(max(pat, default=-1) + 1)]
    got = vector_zip_apart(rng.choice([list, tuple])(v), rng.choice([list, tuple])(pat))
    c.eq('zip', [list(x) for x in got], want, v, pat)
    parts = [list(x) for x in want]
    c.eq('zip-back', vector_zip_together(parts, pat), v, v, pat)
    c.eq('unchanged', parts, want, v, pat)
    if want:
        c.eq('zip-back', vector_zip_together(tuple(tuple(x) for x in want), tuple(pat)), tuple(v), v, pat)
    if n:
        bits = [p % 2 for p in pat]
        got = vector_zip_apart(Binv([e % 2 for e in v]), Binv(bits))
        c.eq('zip', [[int(b) for b in x.vector] for x in got], [[e % 2 for e, b in zip(v, bits) if b == i] for i in range(max(bits) + 1)], v, bits)
        c.raises('refused', lambda: vector_zip_apart(v, pat[1:]), Exception, v)
        c.raises('refused', lambda: vector_zip_apart(v, [-1] + pat[1:]), Exception, v)


def nested(rng, depth):
    return [nested(rng, depth - 1) if depth and rng.random() < .4 else rng.choice([rng.randint(-20, 120), rng.random() < .5]) for _ in range(rng.randint(0, 4))] if rng.random() < .6 \
        else tuple(nested(rng, depth - 1) if depth and rng.random() < .4 else rng.randint(-20, 120) for _ in range(rng.randint(0, 4)))


def leaves(x):
    return [y for e in x for y in leaves(e)] if isinstance(x, (list, tuple)) else [x]


def signs(x):
    if isinstance(x, bool):
        return '●' if x else '○'
    if isinstance(x, int):
        return f'{x: d}'
    inner = ', '.join(signs(e) for e in x)
    return f'[{inner}]' if isinstance(x, list) else f'({inner},)' if len(x) == 1 else f'({inner})'


def sec_nested(c, rng):
    x = nested(rng, 3)
    c.state('nested', repr(x).count('['), repr(x).count('('), trivial=not leaves(x))
    c.note(x)
    before = repr(x)
    got = flatten(x)
    c.true('flatten', type(got) is tuple, x)
    c.eq('flatten', [(type(e), e) for e in got], [(type(e), e) for e in leaves(x)], x)
    c.eq('signs', pretty_signs(x), signs(x), x)
    c.eq('unchanged', repr(x), before, x)


def sec_repeat(c, rng):
    s = seq(rng, 1, 5)
    k = rng.randint(0, 4) if rng.random() < .95 else rng.randint(50, 2000)
    t = rng.choice([list, tuple])(s)
    c.state('repeat', len(s), k)
    got = repeat_sequence(t, k * len(s))
    c.true('repeat', type(got) is type(t) and list(got) == [s[i % len(s)] for i in range(k * len(s))], s, k)
    if len(s) > 1:
        c.raises('refused', lambda: repeat_sequence(t, k * len(s) + 1), AssertionError, s, k)


def sec_sort(c, rng):
    n, k = rng.randint(0, 8) if rng.random() < .9 else rng.randint(9, 40), rng.randint(1, 3)
    lists = [[rng.randint(0, 3) for _ in range(n)] for _ in range(k)]
    c.state('sort', n, k, trivial=not n)
    c.note(lists)
    before = [list(x) for x in lists]
    got = sort_together(*[rng.choice([list, tuple])(x) for x in lists])
    c.eq('sort-together', [list(x) for x in got], [[row[i] for row in sorted(zip(*lists))] for i in range(k)], lists)
    if n:
        c.raises('refused', lambda: sort_together(lists[0], lists[0][1:]), ValueError)
    c.eq('unchanged', lists, before, lists)
    if n:
        mats = [np.array([[rng.randint(0, 2) for _ in range(rng_w)] for _ in range(n)]) for rng_w in [rng.randint(1, 4) for _ in range(k)]]
        copies = [m.copy() for m in mats]
        got = sort_rows_together(*mats)
        order = sorted(range(n), key=lambda i: [m[i].tolist() for m in mats])
        c.eq('sort-rows', [g.tolist() for g in got], [m[order].tolist() for m in mats], [m.tolist() for m in mats])
        small = rng.random() < .5
        cols = [m.T.copy() for m in mats]
        got = sort_cols_together(*cols, small_on_top=small)
        order = sorted(range(n), key=lambda i: [m[i].tolist()[::-1 if small else 1] for m in mats])
        c.eq('sort-cols', [g.tolist() for g in got], [m[order].T.tolist() for m in mats], [m.tolist() for m in cols], small)
        c.true('unchanged', all((a == b).all() for a, b in zip(mats, copies)), 'matrices')
        m = mats[0]
        a, b = rng.randrange(n), rng.randrange(n)
        want = m.tolist()
        want[a], want[b] = want[b], want[a]
        c.eq('swap-rows', swap_matrix_rows(m, a, b).tolist(), want, m.tolist(), a, b)
        c.true('unchanged', (m == copies[0]).all(), 'matrix')
        c.raises('refused', lambda: swap_matrix_rows(m, a, n), ValueError)
        c.true('swap-rows', is_integer_matrix(m), m.tolist())
        f = m.astype(float)
        if f.size:
            c.true('swap-rows', is_integer_matrix(f), f.tolist())
            f[rng.randrange(f.shape[0]), rng.randrange(f.shape[1])] += rng.choice([.5, .25, -.5, .125])
            c.true('swap-rows', not is_integer_matrix(rng.choice([f, f.tolist()])), f.tolist())


def sec_colex(c, rng):
    k = rng.randint(0, 4)
    kind = rng.choice(['str', 'list', 'tuple'])
    xs = [[rng.randrange(3) for _ in range(k if rng.random() < .8 else rng.randint(0, 4))] for _ in range(rng.randint(0, 8))]
    conv = {'str': lambda x: ''.join(map(str, x)), 'list': list, 'tuple': tuple}[kind]
    arg = [conv(x) for x in xs]
    c.state('colex', len(xs), k, kind, trivial=not xs)
    c.note(arg)
    got = sorted_colex(arg)
    want = list(arg)
    for i in range(1, len(want)):            # insertion sort by the reversed entries
        j = i
        while j and tuple(want[j])[::-1] < tuple(want[j - 1])[::-1]:
            want[j - 1], want[j] = want[j], want[j - 1]
            j -= 1
    c.eq('colex', list(got), want, arg)
    c.eq('unchanged', arg, [conv(x) for x in xs], arg)


def sec_slice(c, rng):
    start, stop = rng.choice([None, rng.randint(0, 6)]), rng.choice([None, rng.randint(0, 12)])
    step, default = rng.choice([None, 1, 2, 3]), rng.choice([None, 0, 9])
    c.state('slice', start, stop, step, default)
    if stop is None and default is None:
        c.raises('refused', lambda: slice_to_range(slice(start, stop, step)), Exception)
    else:
        got = list(slice_to_range(slice(start, stop, step), default))
        end = default if stop is None else stop
        c.eq('slice', got, [i for i in range(end) if i >= (start or 0) and (i - (start or 0)) % (step or 1) == 0], start, stop, step, default)
    n = rng.randint(2, 9)
    a, b = rng.sample(range(n), 2)
    c.eq('transposition', list(make_transposition(a, b, n)), [b if i == a else a if i == b else i for i in range(n)], a, b, n)
    c.raises('refused', lambda: make_transposition(a, a, n), ValueError)
    c.raises('refused', lambda: make_transposition(a, n, n), ValueError)
    pair = rng.sample([0, 1, '', 'x', (1,), None, -1], 2)
    for e, o in (pair, pair[::-1]):
        c.eq('other', other_entry_in_pair(rng.choice([list, tuple, set])(pair), e), o, pair)
    c.raises('refused', lambda: other_entry_in_pair([*pair, 5], pair[0]), Exception)


def sec_logic(c, rng):
    n = rng.randint(0, 7)
    v = [rng.randint(-6, 6) for _ in range(n)]
    big = rng.random() < .2
    if big:
        v = [e * 10 ** 20 + e for e in v]
    ab = [e if e >= 0 else -e - 1 for e in v]
    st = [str(a) if e >= 0 else '~' + str(a) for e, a in zip(v, ab)]
    show = lambda xs: '[' + ', '.join(('~' if e < 0 else '') + str(-e - 1 if e < 0 else e) for e in xs) + ']'
    c.state('logic', n, sum(e < 0 for e in v), trivial=not n)
    c.note(v)
    keep = list(v)
    for e, a, s in zip(v, ab, st):
        c.eq('logic', logic_abs(e), a, e)
        c.eq('logic', logic_negate(e), -e - 1, e)
        c.eq('logic', logic_negate(logic_negate(e)), e, e)
        for do in (True, False, 1, 0, '1', '0'):
            w = -e - 1 if do in (True, 1, '1') else e
            c.eq('logic', logic_negate(e, do), w, e, repr(do))
            c.eq('logic-string', '[' + logic_negate(e, do_it=do, want_string=True) + ']', show([w]), e, repr(do))
        c.eq('logic-string', logic_str(e), s, e)
        inc = rng.randint(-a if a < 10 else -10, 9)
        w = a + inc if e >= 0 else -(a + inc) - 1
        c.eq('logic', logic_abs_increase(e, inc), w, e, inc)
        c.eq('logic-string', '[' + logic_abs_increase(e, inc, want_string=True) + ']', show([w]), e, inc)
        c.raises('refused', lambda: logic_abs_increase(e, -a - 1), ValueError, e)
    c.eq('logic', logic_abs_vector(v), ab, v)
    c.eq('logic-string', logic_str_vector(v), show(v), v)
    where = [rng.randrange(2) for _ in v]
    want = [-e - 1 if w else e for e, w in zip(v, where)]
    form = rng.choice([list, tuple, lambda w: [bool(x) for x in w]])
    c.eq('logic', logic_negate_vector(v, where=form(where)), want, v, where)
    c.eq('logic-string', logic_negate_vector(v, where=form(where), want_string=True), show(want), v, where)
    which = {a for a in ab if rng.random() < .5}
    want = [-e - 1 if a in which else e for e, a in zip(v, ab)]
    c.eq('logic', logic_negate_vector(v, which=rng.choice([list, set, tuple])(which)), want, v, which)
    c.eq('logic-string', logic_negate_vector(v, which=which, want_string=True), show(want), v, which)
    inc = [rng.randint(-min(a, 10), 9) for a in ab]
    want = [a + i if e >= 0 else -(a + i) - 1 for e, a, i in zip(v, ab, inc)]
    c.eq('logic', logic_abs_increase_vector(v, inc), want, v, inc)
    c.eq('logic-string', logic_abs_increase_vector(v, inc, want_string=True), show(want), v, inc)
    c.eq('unchanged', v, keep, v)
    c.raises('refused', lambda: logic_negate_vector(v, where=where, which=which), ArgComboError)
    c.raises('refused', lambda: logic_negate_vector(v), ArgComboError)
    c.raises('refused', lambda: logic_negate_vector(v, where=where + [1]), ValueError)
    c.raises('refused', lambda: logic_negate_vector(v, which={max(ab, default=0) + 1}), ValueError)


def sec_dicts(c, rng):
    pool = rng.choice(['abcdefgh', range(8), [0, 1, '', 'a', (), (1,), None, -1]])
    d = {k: rng.randint(0, 9) for k in rng.sample(pool[:6], rng.randint(0, 6))}
    drop = rng.choice([None, [], rng.sample(pool[:6], 2)])
    fresh = rng.choice([None, {}, {k: 'new' for k in rng.sample(pool, 3)}])
    c.state('dict', len(d), drop is None, fresh is None, trivial=not d)
    c.note(d, drop, fresh)
    keep = dict(d)
    kw = {k: v for k, v in (('drop', drop), ('fresh', fresh)) if v is not None}
    c.eq('subdict', subdict(d, **kw), {**{k: v for k, v in d.items() if k not in (drop or [])}, **(fresh or {})}, d, drop, fresh)
    c.eq('unchanged', d, keep, d)
    dd = defaultdict(lambda: defaultdict(int))
    for k in d:
        dd[k][d[k]] = 1
    got = default_to_regular_dict(dd)
    c.true('subdict', type(got) is dict and all(type(v) is dict for v in got.values()) and got == {k: {v: 1} for k, v in d.items()}, d)
    x = tree(rng, 3)
    c.eq('keys', key_tuples(x), paths(x), x)
    c.raises('refused', lambda: key_tuples(rng.choice([5, 'a', (1,), {1}, None])), Exception)


def tree(rng, depth):
    def item():
        return tree(rng, depth - 1) if depth and rng.random() < .5 else rng.choice([0, 'a', (1, 2), {1}, None, [], {}])
    n = rng.randint(0, 3) if rng.random() < .95 else rng.randint(4, 5)
    return [item() for _ in range(n)] if rng.random() < .5 else {k: item() for k in rng.sample(['x', 'y', 0, 1, (1,)], n)}


def paths(x):
    out = []
    for k, v in enumerate(x) if isinstance(x, list) else x.items():
        out += [(k, *p) for p in paths(v)] if type(v) in (list, dict) and v else [(k,)]
    return out


def sec_errors(c, rng):
    class A(ValueError):
        pass

    class B(KeyError):
        pass
    for x in (0, '', False, [], 1, 'a'):
        c.eq('have', bool(have(x)), True, repr(x))
        if x:
            true_except(x, A)
        else:
            c.raises('errors', lambda: true_except(x, A), A, repr(x))
    c.eq('have', bool(have(None)), False)
    args = [rng.choice([None, 0, 1, '', 'x', False, []]) for _ in range(4)]
    sel = sorted(rng.sample(range(4), rng.randint(1, 4)))
    chosen = [args[i] for i in sel]
    c.state('have', tuple(a is None for a in args), tuple(sel))
    c.note(args, sel)
    if any(a is None for a in chosen):
        c.eq('have', bool(have_only(chosen, args)), False, args, sel)
    elif any(args[i] is not None for i in range(4) if i not in sel):
        c.raises('have', lambda: have_only(chosen, args), ArgComboError, args, sel)
    else:
        c.eq('have', bool(have_only(chosen, args)), True, args, sel)
    for x in (ValueError, A, Exception, KeyError):
        c.true('errors', is_error(x), x)
    for x in (int, 'ValueError', ValueError('x'), None, 5, object):
        c.true('errors', not is_error(x), repr(x))

    def bad():
        raise B
    c.raises('errors', lambda: try_except(bad, A), A)
    c.raises('errors', lambda: try_except(bad, A, KeyError), A)
    c.raises('errors', lambda: try_except(bad, A, TypeError), B)
    try_except(lambda: 1, A)
    try_except(lambda: 1, A, KeyError)


SECTIONS = [sec_powerset, sec_partitions, sec_cartesian, sec_inventory, sec_multiset, sec_zip, sec_nested, sec_repeat, sec_sort, sec_colex, sec_slice, sec_logic, sec_dicts, sec_errors]
