import numpy as np

from discretehelpers import a, ex
from discretehelpers.a.other_entry_in_pair import ex as pair_ex
from discretehelpers.a.vector_zip_apart import ex as zip_ex
from discretehelpers.binv import Binv
from discretehelpers.binv.a import binary_length
from discretehelpers.boolf import Boolf
from discretehelpers.boolf import a as fa
from discretehelpers.perm import Perm
from discretehelpers.sig_perm.a import schoute_to_finite_inverse

from lib import gen
from lib.core import scenario
from lib.errors import error
from lib.ref import sig_on_number

DecimalNotNatural = error('a.decimal_length', 'NotNaturalError', ValueError)
RowNotNatural = error('a.int_to_sierpinski_row.ex', 'NotNaturalError', TypeError)
ArgNotContainerError = error('a.key_tuples.ex', 'ArgNotContainerError', ValueError)
StopMissingError = error('a.slice_to_range.ex', 'StopMissingError', ValueError)
LengthMismatchError = error('a.sort_together.ex', 'LengthMismatchError', ValueError)
NotWalshRowError = error('a.walsh_function_to_index.ex', 'NotWalshRowError', ValueError)
SpecifiedLengthTooShortError = error('boolf.a.int_to_rcv.ex', 'SpecifiedLengthTooShortError', ValueError)

PROPERTY = 'R02'
RULE = ('Each case draws arguments a helper must accept and a damaged version it must refuse (negative or fractional number, sign of the wrong kind, unequal lengths, missing, superfluous or contradicting '
        'argument, value beyond the stated size, table that is not of the required kind), and watches that the first call returns, the second is refused with the documented class, the arguments of both '
        'are as they were, and the first call then still gives the same result. A state is the helper with the kind of damage.')
REQUIRED = ['accepted', 'refused', 'same-after-refusal', 'arguments-unchanged']

ASSERTED = (ValueError, TypeError, AssertionError, IndexError)
VALUE_OR_TYPE = (ValueError, TypeError)

HELPERS = []


def helper(fn):
    HELPERS.append((fn.__name__, fn))
    return fn


def big(rng):
    return rng.choice([rng.randrange(20), rng.randrange(2000), rng.getrandbits(rng.randint(1, 120)), 1 << rng.randrange(90)])


def unnatural(rng):
    return rng.choice([-1, -2, -rng.randint(3, 1000), 0.5, 2.5, -0.5])


def some(rng, low, high):
    """mostly small, sometimes up to three times as many"""
    return rng.randint(low, high if rng.random() < .8 else 3 * high)


def ints(rng, n, low=-9, high=9):
    return [rng.randint(low, high) for _ in range(n)]


# every helper function returns (kind of damage, function, good arguments, bad arguments, classes); arguments are (args, kwargs)

@helper
def logarithms(rng):
    fn = rng.choice([a.log_floor, a.log_ceil, a.log_int])
    good = 1 << rng.randrange(90) if fn is a.log_int else big(rng) + 1
    bad = rng.choice([0, -1, -rng.randint(2, 99), -good, 0.5, good % 1000 + .5])
    if fn is a.log_int and rng.random() < .5:
        bad = rng.choice([3, 5, 6, (1 << rng.randint(3, 60)) + 1, (1 << rng.randint(3, 60)) - 1, 3 << rng.randrange(70)])
    return f'{fn.__name__} {bad}', fn, ([good], {}), ([bad], {}), ex.ArgValueError


@helper
def lengths(rng):
    if rng.random() < .5:
        return 'decimal', a.decimal_length, ([big(rng)], {}), ([unnatural(rng)], {}), DecimalNotNatural
    return 'binary', binary_length, ([big(rng)], {}), ([unnatural(rng)], {}), VALUE_OR_TYPE


@helper
def evil_odious(rng):
    n = big(rng)
    odd = bin(n).count('1') % 2
    k = rng.randrange(3)
    if k == 0:
        fn = rng.choice([a.index_to_evil, a.index_to_odious])
        return f'{fn.__name__} negative', fn, ([n], {}), ([-rng.randint(1, 99)], {}), ex.ArgValueError
    evil, odious = (2 * n + odd, 2 * n + 1 - odd)
    if rng.random() < .4:
        evil, odious, bad1, bad2 = evil, odious, -rng.randint(1, 99), -rng.randint(1, 99)
    else:
        bad1, bad2 = odious, evil
    if k == 1:
        return f'evil_to_index {bad1 < 0}', a.evil_to_index, ([evil], {}), ([bad1], {}), ex.ArgValueError
    return f'odious_to_index {bad2 < 0}', a.odious_to_index, ([odious], {}), ([bad2], {}), ex.ArgValueError


@helper
def edges(rng):
    return 'cube', a.hypercube_edges, ([rng.randrange(6)], {}), ([rng.choice([-1, -3, 1.5, '2', None])], {}), ex.ArgValueError


@helper
def sierpinski_rows(rng):
    n = rng.getrandbits(rng.randint(1, 9))
    k = rng.randrange(3)
    if k == 0:
        return 'both', a.int_to_sierpinski_row, ([n], {}), ([n, [0, 1]], {}), ex.ArgComboError
    if k == 1:
        return 'none', a.int_to_sierpinski_row, ([n], {}), ([], {}), ex.ArgComboError
    return 'unnatural', a.int_to_sierpinski_row, ([n], {}), ([unnatural(rng)], {}), RowNotNatural


@helper
def sierpinski_matrix(rng):
    d = rng.randint(1, 5)
    o = rng.choice(['tl', 'tr', 'bl', 'br'])
    good = rng.choice([([o, d], {}), ([o], dict(size=1 << d))])
    kind, bad, cls = rng.choice([
        ('orientation', ([rng.choice(['lt', 'rt', 'top', '', None, 'TL']), d], {}), ex.ArgValueError), ('neither', ([o], {}), ex.ArgComboError),
        ('both', ([o, d, 1 << d], {}), ex.ArgComboError), ('degree', ([o, rng.choice([0, -1])], {}), ex.ArgValueError),
        ('size', ([o], dict(size=rng.choice([1, 0, -2]))), ex.ArgTooSmallError), ('size', ([o], dict(size=rng.choice([3, 5, 6, 7, 12]))), ex.ArgValueError)])
    return kind, a.sierpinski, good, bad, cls


@helper
def determinants(rng):
    n = some(rng, 1, 5)
    m = [ints(rng, n) for _ in range(n)]
    b = [list(r) for r in m]
    b[rng.randrange(n)][rng.randrange(n)] += rng.choice([.5, .25, -.1])
    form = rng.choice([lambda x: x, np.array])
    return 'fraction', a.integer_determinant, ([form(m)], {}), ([form(b)], {}), TypeError


@helper
def inventories(rng):
    fn = rng.choice([a.inventory_dict, a.inventory_partition])
    v = ints(rng, rng.randint(1, 7), 0, 3)
    good = rng.choice([v, tuple(v), dict(enumerate(v))])
    return f'{fn.__name__} type', fn, ([good], {}), ([rng.choice([5, 'ab', {1, 2}, 1.5, None])], {}), ex.ArgTypeError


@helper
def key_tuples(rng):
    return 'type', a.key_tuples, ([rng.choice([[1, 2], {1: [2]}, []])], {}), ([rng.choice([5, 'ab', (1, 2), {1}, None])], {}), ArgNotContainerError


@helper
def logic_increase(rng):
    n = rng.randint(-20, 20)
    size = n if n >= 0 else ~n
    b = rng.randint(-size, 9)
    kind, bad, cls = rng.choice([
        ('below zero', ([n, -size - rng.randint(1, 5)], {}), ex.ArgValueError),
        ('type', (rng.choice([[n, 1.0], [1.5, b], ['1', b], [n, None], [n, '1'], [n, True]]), {}), ex.ArgTypeError),
        ('flag', ([n, b, rng.choice([1, 0, 'yes', None])], {}), ex.ArgTypeError)])
    return kind, a.logic_abs_increase, ([n, b], {}), bad, cls


@helper
def logic_increase_vectors(rng):
    n = some(rng, 1, 6)
    v, w = ints(rng, n), ints(rng, n, 0, 5)
    bad = rng.choice([(v, w[1:]), (v, w + [0]), (v + [3], w), (v[1:], w)])
    return 'lengths', a.logic_abs_increase_vector, ([v, w], {}), (list(bad), {}), ex.ArgValueError


@helper
def logic_negations(rng):
    n = rng.randint(-20, 20)
    do = rng.choice([False, 0, '0', True, 1, '1'])
    bad = rng.choice([[n, 2], [n, 'x'], [n, None], [n, -1], [1.5, do], ['3', do], [None, do], [True, do]])
    return 'value', a.logic_negate, ([n, do], {}), (bad, {}), ex.ArgValueError


@helper
def logic_negation_vectors(rng):
    n = some(rng, 1, 6)
    v = ints(rng, n)
    sizes = [x if x >= 0 else ~x for x in v]
    where = ints(rng, n, 0, 1)
    which = rng.sample(sizes, rng.randint(1, n))
    if rng.random() < .3:
        which = set(which)
    absent = next(x for x in range(99) if x not in sizes)
    string = rng.random() < .3
    wrong = list(where)
    wrong[rng.randrange(n)] = rng.choice([2, -1, 3])
    damages = [('both', dict(where=where, which=which), ex.ArgComboError), ('neither', {}, ex.ArgComboError), ('where short', dict(where=where[1:]), ex.ArgMismatchError),
               ('where long', dict(where=where + [0]), ex.ArgMismatchError), ('where entries', dict(where=wrong), ex.ArgValueError),
               ('negative which', dict(which=list(which) + [-rng.randint(1, 5)]), ex.ArgValueError), ('absent which', dict(which=list(which) + [absent]), ex.ArgMismatchError)]
    kind, bad, cls = rng.choice(damages)
    good = rng.choice([dict(where=where), dict(which=which)])
    return kind, a.logic_negate_vector, ([v], dict(good, want_string=string)), ([v], dict(bad, want_string=string)), cls


@helper
def logic_strings(rng):
    n = rng.randint(-20, 20)
    return 'type', a.logic_str, ([n], {}), ([rng.choice([1.0, '1', None, True, [n]])], {}), ex.ArgTypeError


@helper
def linear_vectors(rng):
    d = rng.randint(1, 6)
    w, p = rng.randrange(1 << d), rng.randrange(2)
    lead, q = rng.randrange(1 << d - 1), rng.randrange(4)
    patterns = a.make_atompatterns(d)
    good = rng.choice([([w, d], {}), ([w, d, p], {}), ([], dict(arity=d, leader=lead, quadrant=q)), ([w, d, p], dict(prefab_atom_patterns=patterns))])
    kind, bad, cls = rng.choice([
        ('no arity', ([w], {}), ex.ArgComboError), ('arity', ([0, rng.choice([0, -1, 1.5])], {}), ex.ArgValueError), ('leader besides', ([w, d], dict(leader=lead)), ex.ArgComboError),
        ('quadrant besides', ([w, d], dict(quadrant=q)), ex.ArgComboError), ('both besides', ([w, d, p], dict(leader=lead, quadrant=q)), ex.ArgComboError),
        ('parity', ([w, d, rng.choice([2, -1, 3, 'x'])], {}), ex.ArgValueError), ('quadrant', ([], dict(arity=d, leader=lead, quadrant=rng.choice([4, -1, 7]))), ex.ArgValueError),
        ('parity of a leader', ([], dict(arity=d, leader=lead, quadrant=q, parity=p)), ex.ArgComboError), ('leader alone', ([], dict(arity=d, leader=lead)), ex.ArgComboError),
        ('quadrant alone', ([], dict(arity=d, quadrant=q)), ex.ArgComboError), ('too big', ([(1 << d) + rng.randrange(3), d], {}), ex.ArgTooBigError),
        ('leader too big', ([], dict(arity=d, leader=(1 << d - 1) + rng.randrange(3), quadrant=q)), ex.ArgTooBigError),
        ('patterns of another arity', ([w, d], dict(prefab_atom_patterns=a.make_atompatterns(d + 1))), ex.ArgValueError), ('nothing', ([], {}), ex.ArgComboError)])
    return kind, a.make_linear_binv, good, bad, cls


@helper
def linear_functions(rng):
    w, p, lead, q = rng.randrange(64), rng.randrange(2), rng.randrange(32), rng.randrange(4)
    good = rng.choice([([w], {}), ([w, p], {}), ([], dict(leader=lead, quadrant=q))])
    kind, bad, cls = rng.choice([
        ('leader besides', ([w], dict(leader=lead)), ex.ArgComboError), ('quadrant besides', ([w], dict(quadrant=q)), ex.ArgComboError), ('both besides', ([w, p], dict(leader=lead, quadrant=q)), ex.ArgComboError),
        ('parity', ([w, rng.choice([2, -1, 3, 'x'])], {}), ex.ArgValueError), ('quadrant', ([], dict(leader=lead, quadrant=rng.choice([4, -1, 7]))), ex.ArgValueError),
        ('parity of a leader', ([], dict(leader=lead, quadrant=q, parity=p)), ex.ArgComboError), ('leader alone', ([], dict(leader=lead)), ex.ArgComboError),
        ('quadrant alone', ([], dict(quadrant=q)), ex.ArgComboError), ('nothing', ([], {}), ex.ArgComboError), ('parity alone', ([], dict(parity=p)), ex.ArgComboError)])
    return kind, a.make_linear_boolf, good, bad, cls


@helper
def linear_readers(rng):
    d = rng.randint(2, 6)
    w, p = rng.randrange(1 << d), rng.randrange(2)
    row = [(bin(w & i).count('1') + p) % 2 for i in range(1 << d)]
    fn = rng.choice([a.walsh_function_to_index, a.linear_to_walsh_and_oddness, a.linear_to_leader_and_quadrant])
    if fn is a.walsh_function_to_index:
        row = [b ^ p for b in row]
    bad = list(row)
    for i in rng.sample(range(1, 1 << d), rng.choice([1, 1, 2])):      # distance 1 or 2 from a row is no row, except for tables of 4
        bad[i] ^= 1
    kind = 'not linear'
    cls = NotWalshRowError
    if d == 2 and sum(x != y for x, y in zip(row, bad)) == 2:
        bad = row[:3]
    if rng.random() < .2 or len(bad) == 3:
        bad = row[:rng.choice([x for x in range(3, 1 << d) if x & (x - 1)])]
        if not any(bad):
            bad[1] ^= 1
        kind, cls = 'length', ValueError
    form = rng.choice([list, tuple, Binv])
    if fn is not a.walsh_function_to_index and rng.random() < .1:
        return 'type', fn, ([form(row)], {}), ([rng.choice([5, 1.5, {0, 1}, None])], {}), ex.ArgValueError
    return f'{fn.__name__} {kind}', fn, ([form(row)], {}), ([form(bad)], {}), cls


@helper
def transpositions(rng):
    n = some(rng, 2, 9)
    i, j = rng.sample(range(n), 2)
    bad = rng.choice([[i, i, n], [i, n, n], [n + rng.randrange(3), j, n], [n, n + 1, n]])
    return 'places', a.make_transposition, ([i, j, n], {}), (bad, {}), ex.ArgValueError


@helper
def other_entries(rng):
    p = rng.sample(range(20), 2)
    form = rng.choice([list, tuple, set])
    if rng.random() < .5:
        return 'type', a.other_entry_in_pair, ([form(p), p[0]], {}), ([rng.choice(['ab', dict.fromkeys(p), range(2)]), p[0]], {}), pair_ex.WrongTypeError
    return 'length', a.other_entry_in_pair, ([form(p), p[0]], {}), ([form(rng.choice([p[:1], p + [20], []])), p[0]], {}), pair_ex.WrongLengthError


@helper
def slices(rng):
    s = slice(rng.choice([None, 0, 2]), None, rng.choice([None, 1, 2]))
    return 'stop', a.slice_to_range, ([s, rng.randint(2, 9)], {}), ([s], {}), StopMissingError


@helper
def sorting_together(rng):
    k, n = rng.randint(2, 4), rng.randint(1, 5)
    i = rng.randrange(1, k)
    if rng.random() < .4:
        lists = [ints(rng, n) for _ in range(k)]
        bad = [list(v) for v in lists]
        bad[i] = rng.choice([bad[i] + [1], bad[i][1:]])
        return 'lists', a.sort_together, (lists, {}), (bad, {}), LengthMismatchError
    mats = [np.array([ints(rng, n) for _ in range(n)]) for _ in range(k)]
    bad = list(mats)
    if rng.random() < .5:
        bad[i] = np.array([ints(rng, n) for _ in range(n + rng.choice([1, 2]))])
        return 'rows', a.sort_rows_together, (mats, {}), (bad, {}), ex.ArgMismatchError
    w = n + rng.choice([1, 2])
    bad[i] = np.array([ints(rng, w) for _ in range(n)])
    return 'columns', a.sort_cols_together, (mats, dict(small_on_top=rng.random() < .5)), (bad, {}), ex.ArgMismatchError


@helper
def row_swaps(rng):
    h, w = rng.randint(1, 5), rng.randint(1, 5)
    m = np.array([ints(rng, w) for _ in range(h)])
    i, j = rng.randrange(h), rng.randrange(h)
    bad = rng.choice([[i, h], [h, j], [h + 2, h + 1]])
    return 'rows', a.swap_matrix_rows, ([m, i, j], {}), ([m] + bad, {}), ex.ArgMismatchError


@helper
def unzipping(rng):
    n = some(rng, 1, 8)
    v, p = ints(rng, n), ints(rng, n, 0, 3)
    form = rng.choice([list, tuple])
    wrong = list(p)
    wrong[rng.randrange(n)] = rng.choice([-1, -2, .5, 'a'])
    kind, bad, cls = rng.choice([
        ('vector type', ['x' * n, p], zip_ex.NotListLikeError), ('vector type', [dict(enumerate(v)), p], zip_ex.NotListLikeError), ('pattern type', [form(v), '0' * n], zip_ex.NotListLikeError),
        ('pattern type', [form(v), {0, 1}], zip_ex.NotListLikeError), ('lengths', [form(v), form(p[1:])], zip_ex.LengthError), ('lengths', [form(v), form(p + [0])], zip_ex.LengthError),
        ('entries', [form(v), form(wrong)], zip_ex.NotNaturalError)])
    return kind, a.vector_zip_apart, ([form(v), form(p)], {}), (bad, {}), cls


@helper
def zipping(rng):
    n = some(rng, 1, 8)
    p = ints(rng, n, 0, 2)
    short = [ints(rng, p.count(i)) for i in range(3)]
    more = [list(s) for s in short]
    more[rng.randrange(3)].append(1)
    kind, bad = rng.choice([('lengths', [more, p]), ('lengths', [short, p + [0]]), ('pattern type', [short, '0' * n]), ('type', [dict(enumerate(short)), p]), ('inner type', [[set(s) for s in short[:1]] + short[1:], p])])
    return kind, a.vector_zip_together, ([short, p], {}), (bad, {}), ASSERTED


@helper
def atom_patterns(rng):
    n = rng.randint(1, 5)
    i = rng.randrange(n)
    signed = rng.choice([i, ~i])
    too = n + rng.randrange(3)
    return 'argument', a.make_atompattern, ([signed, n], {}), ([rng.choice([too, ~too]), n], {}), ASSERTED


@helper
def atom_pattern_lists(rng):
    return 'arity', a.make_atompatterns, ([rng.randint(1, 5)], {}), ([rng.choice([0, -1, 'ab', 1.5, None, {0, 1}])], {}), ASSERTED


@helper
def atom_pattern_readers(rng):
    n = rng.randint(2, 4)
    i, neg = rng.randrange(n), rng.randrange(2)
    t = [(k >> i & 1) ^ neg for k in range(1 << n)]
    bad = list(t)
    bad[rng.randrange(1 << n)] ^= 1
    if rng.random() < .2:
        bad = [neg] * (1 << n)
    return 'table', a.atompattern_to_signed_index, ([t], {}), ([bad], {}), ASSERTED


@helper
def walsh_matrices(rng):
    return 'arity', a.arity_to_walsh_matrix, ([rng.randrange(5)], dict(negate=rng.random() < .5)), ([rng.choice([-1, -2, 1.5, 'a', None])], {}), ASSERTED


@helper
def argument_sets(rng):
    n = some(rng, 2, 6)
    k = rng.randint(1, n - 1)
    have = rng.sample(range(n), k)
    args = [rng.randint(0, 9) if i in have else None for i in range(n)]
    too_many = list(args)
    too_many[rng.choice([i for i in range(n) if i not in have])] = rng.choice([0, False, 7, ''])
    check = [args[i] for i in have]
    return 'superfluous', a.have_only, ([check, args], {}), ([check, too_many], {}), ex.ArgComboError


@helper
def cartesian_factors(rng):
    left, right = rng.sample(range(20), rng.randint(2, 4)), rng.sample(range(20), rng.randint(2, 4))
    pairs = [(x, y) for x in left for y in right]
    rng.shuffle(pairs)
    bad = list(pairs)
    r = rng.randrange(3)
    if r == 0:
        bad.pop(rng.randrange(len(bad)))
    elif r == 1:
        bad.append((30, right[0]))
    else:
        bad.append(rng.choice(bad))
    return 'no product', a.inverse_cartesian_product, ([pairs], {}), ([bad], {}), ASSERTED


@helper
def distributions(rng):
    values = rng.sample(range(20), rng.randint(1, 6))
    m = {v: rng.randint(1, 4) for v in rng.sample(values, rng.randint(1, len(values)))}
    bad = dict(m)
    bad[30] = rng.randint(1, 3)
    return 'foreign value', a.multiset_to_distri, ([m, values], {}), ([bad, values], {}), ASSERTED


@helper
def folds(rng):
    v = [big(rng) for _ in range(rng.randint(2, 5))]
    return 'operator', a.multigrade_bitwise, ([v, rng.choice(['and', 'or', 'xor'])], {}), ([v, rng.choice(['nand', 'AND', '', None, '^'])], {}), ex.ArgValueError


@helper
def repetitions(rng):
    n, k = rng.randint(2, 5), rng.randint(1, 4)
    v = rng.choice([list, tuple])(ints(rng, n))
    bad = rng.choice([[v, n * k + rng.randint(1, n - 1)], [v, -n], [v, n + .5], ['ab', 4], [set(v), n * k]])
    return 'target', a.repeat_sequence, ([v, n * k], {}), (bad, {}), ASSERTED


@helper
def cosets(rng):
    n = rng.randint(1, 4)
    key = rng.randrange(1 << n)
    val = 0
    for i in rng.sample(range(n), bin(key).count('1')):
        val |= 1 << i
    too = (1 << n) + rng.randrange(3)
    return 'places', lambda *x: list(a.schoute_coset_gen(*x)), ([key, val, n], {}), (rng.choice([[too, val, n], [key, too, n]]), {}), ASSERTED


@helper
def integers_of_other_types(rng):
    good = rng.choice([3, 3.0, np.int64(4), '5', True])
    return 'type', lambda x: a.type_like_int(x) if x is good else a.type_clean_int(x), ([good], {}), ([rng.choice([1.5, 'a', None, [1], '1.5'])], {}), ASSERTED


# ------------------------------------------------------------------ helpers of Boolean functions

def noble_of(index, arity):
    """noble with this index: the table whose right half is the index and whose left half is the index xor its Moebius transform"""
    if arity == 0:
        return 0
    return fa.index_to_noble(index, arity)


@helper
def nobles(rng):
    n = rng.choice([0, 1, 2, 3, 3, 4])
    row = 1 if n == 0 else 1 << (1 << n - 1)
    i = rng.randrange(row)
    if rng.random() < .35:
        return f'index {n}', fa.index_to_noble, ([i, n], {}), ([row + rng.choice([0, 0, 1, 7]), n], {}), ex.ArgTooBigError
    noble = noble_of(i, n)
    top = 1 << (1 << n)
    fn = rng.choice([fa.noble_to_index, fa.noble_to_quadrant, fa.noble_to_royal_and_quadrant, fa.noble_to_royal])
    if n == 0:
        return f'{fn.__name__} 0', fn, ([0, 0], {}), ([rng.choice([1, 2, 5]), 0], {}), ex.ArgTooBigError
    if rng.random() < .5:
        return f'{fn.__name__} too big', fn, ([noble, n], {}), ([top - 1 + rng.choice([0, 0, 1, 5]), n], {}), ex.ArgTooBigError
    bad = noble ^ (1 << rng.randrange((1 << n) - 1))      # the last place is the noble of index (arity - 1 times) 10...0, the others are none
    return f'{fn.__name__} no noble', fn, ([noble, n], {}), ([bad, n], {}), ex.ArgValueError


@helper
def praetors(rng):
    n = rng.randint(1, 4)
    top = 1 << (1 << n)
    bad, cls = rng.choice([([top + rng.randrange(3), n], ex.ArgTooBigError), ([0, 0], ex.ArgTooSmallError), ([1, -1], ex.ArgTooSmallError)])
    return 'praetor', fa.praetor_int, ([rng.randrange(top), n], {}), (bad, {}), cls


@helper
def symmetric_tables(rng):
    n = rng.randrange(5)
    if n == 0:
        return 'arity 0', fa.symmetric_to_index, ([rng.randrange(2), 0], {}), ([rng.choice([2, 3, 9]), 0], {}), ex.ArgTooBigError
    half = [rng.randrange(2) for _ in range(1 << n - 1)]
    t = half[::-1] + half
    v = sum(b << i for i, b in enumerate(t))
    if rng.random() < .5:
        return 'too big', fa.symmetric_to_index, ([v, n], {}), ([(1 << (1 << n)) + rng.randrange(4), n], {}), ex.ArgTooBigError
    return 'no symmetry', fa.symmetric_to_index, ([v, n], {}), ([v ^ (1 << rng.randrange(1 << n)), n], {}), ex.ArgValueError


@helper
def ring_counts(rng):
    n = big(rng) + 2
    counts = fa.int_to_rcv(n)
    return 'length', fa.int_to_rcv, ([n, len(counts) + rng.randrange(3)], {}), ([n, len(counts) - rng.randint(1, len(counts))], {}), SpecifiedLengthTooShortError


@helper
def spreads(rng):
    n = some(rng, 1, 5)
    s, spread = gen.signed_seq(rng, n), ints(rng, n, 0, 4)
    return 'lengths', fa.spread_sigperm_to_sigvar, ([s, spread], {}), ([s, rng.choice([spread + [0], spread[1:]])], {}), ex.ArgValueError


@helper
def table_helpers(rng):
    n = rng.randint(1, 4)
    t = [rng.randrange(2) for _ in range(1 << n)]
    atoms = rng.sample(range(8), n)
    fn = rng.choice([fa.deflate, fa.reorder_if_atomvals_not_asc])
    return f'{fn.__name__} type', fn, ([Binv(t), sorted(atoms) if fn is fa.deflate else atoms], {}), ([rng.choice([t, tuple(t), ''.join(map(str, t)), 5]), atoms], {}), ValueError


@helper
def argument_sequences(rng):
    v = rng.sample(range(4), rng.randint(1, 3))
    bad = rng.choice([[v + v[:1]], [set(v)], ['01'], [v + [-1]], [v + [.5]]])
    return 'indices', fa.atom_indices_to_sequence, ([v], {}), (bad, {}), ASSERTED


@helper
def twins(rng):
    n = rng.randint(1, 4)
    t = [rng.randrange(2) for _ in range(1 << n)]
    if rng.random() < .5:
        fn = rng.choice([fa.vector_to_twin_gen, fa.zhe_vector_to_prefect_gen])
        return 'length', lambda x, y: list(fn(x, y)), ([t, n], {}), (rng.choice([[t[1:], n], [t, n + 1], [t + [0], n], [t, n - 1]]), {}), ASSERTED
    i = rng.randrange(1, 8)
    big_arity = n + bin(i).count('1')
    if i >> big_arity:
        i = 1
        big_arity = n + 1
    return 'sizes', fa.sierpinski_twin, ([t, i, big_arity], {}), ([t, i, big_arity + rng.choice([1, -1])], {}), ASSERTED


@helper
def schoute_readers(rng):
    n = rng.randint(2, 4)
    s = gen.signed_seq(rng, n)
    seq = [sig_on_number(s, i) for i in range(1 << n)]
    bad, cls = rng.choice([(3, ex.ArgTypeError), (None, ex.ArgTypeError), ('0123', ex.ArgTypeError), ([2, 0, 1], ex.ArgValueError), ([1, 2, 3, 4, 5, 0], ex.ArgValueError),
                           (Perm([4, 0, 1, 2, 3], 5), ex.ArgValueError), ([0, 1, 2, 3, 4, 5, 7, 6], ASSERTED), ([0, 2, 1, 3, 4, 5, 6, 7], ASSERTED)])
    return 'sequence', schoute_to_finite_inverse, ([seq], {}), ([bad], {}), cls


# ------------------------------------------------------------------ monitors

def frozen(x):
    if isinstance(x, np.ndarray):
        return 'array', x.shape, x.tolist()
    if isinstance(x, (list, tuple)):
        return type(x).__name__, tuple(frozen(e) for e in x)
    if isinstance(x, dict):
        return 'dict', tuple((k, frozen(v)) for k, v in x.items())
    if isinstance(x, (set, frozenset)):
        return 'set', tuple(sorted(map(repr, x)))
    if isinstance(x, Binv):
        return 'bits', tuple(map(bool, x.vector))
    if isinstance(x, Perm):
        return 'perm', tuple(x.sequence(16)) if not x.perilen else tuple(x.sequence())
    if isinstance(x, Boolf):
        return 'boolf', repr(x)
    return repr(x)


@scenario(quick=60000, thorough=400000)
def calls(c):
    rng = c.rng
    name, draw = HELPERS[c.index % len(HELPERS)]
    kind, fn, good, bad, classes = draw(rng)
    c.note(name, kind, 'good', repr(good), 'bad', repr(bad))
    before = frozen(good), frozen(bad)
    first = frozen(fn(*good[0], **good[1]))
    c.hit('accepted')
    c.raises('refused', lambda: frozen(fn(*bad[0], **bad[1])), classes, name, kind, repr(bad))
    c.eq('arguments-unchanged', (frozen(good), frozen(bad)), before, name, kind)
    c.eq('same-after-refusal', frozen(fn(*good[0], **good[1])), first, name, kind, repr(good))
    c.state(name, kind)
    c.sample(f'{name} {kind}: {bad}')
