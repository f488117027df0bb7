import copy
import os
import subprocess
import sys

import numpy as np

from discretehelpers.binv import Binv
from discretehelpers.boolf import Boolf
from discretehelpers.perm import Perm
from discretehelpers.set_part import SetPart
from discretehelpers.set_part_comp import SetPartComp
from discretehelpers.sig_perm import SigPerm
from discretehelpers.walsh_perm import WalshPerm

from lib import core, gen, queries
from lib.core import scenario
from lib.queries import Recipe, ask, ask_raw, canon, kind_of, make_recipe, objects_in, questions

PROPERTY = 'V01'
RULE = ('Each case asks objects of all seven classes long random sequences of questions (every public property and a table of calls) and records the answers; an offline checker '
        'then asks each recorded question of a freshly built equal object and again of the old one. Operands, arguments and all other objects are snapshotted before and compared after each step. '
        'A batch of answers is also compared between interpreters with different hash seeds and opposite orders of asking. A state is object and question; trivial for refused questions.')
REQUIRED = ['same-answer-fresh', 'same-answer-again', 'operands-unchanged', 'others-unchanged', 'result-questions', 'container-unchanged', 'later-change',
            'same-answer-other-process', 'equal-object', 'helper-twice']


def record(c, recipe, q, ans):
    c.state(recipe.kind, str(recipe.data), q[0], str(q[1]), trivial=ans[:1] == ('refused',) if isinstance(ans, tuple) else False)


@scenario(quick=400, thorough=6000)
def all_questions(c):
    """every question once, in random order, on one object; then each on a fresh object"""
    rng = c.rng
    recipe = make_recipe(rng)
    way = rng.randrange(4)
    obj = recipe.build(way)
    asked = questions(rng, recipe, recipe.build())
    rng.shuffle(asked)
    before = canon(obj)
    c.note('object', recipe, 'built by way', str(way))
    log = []
    for q in asked:
        ans = ask(obj, *q)
        c.note(f'{q[0]} {q[1]}')
        log.append((q, ans))
        record(c, recipe, q, ans)
        c.eq('others-unchanged', canon(obj), before, 'the object itself after', q[0], q[1], recipe)
    for q, ans in log:
        fresh = recipe.build(way)
        c.eq('same-answer-fresh', ask(fresh, *q), ans, 'fresh object against one asked many questions:', q[0], q[1], recipe)
    rng.shuffle(log)
    for q, ans in log:
        c.eq('same-answer-again', ask(obj, *q), ans, 'asked again:', q[0], q[1], recipe)


@scenario(quick=250, thorough=4000)
def built_differently(c):
    """equal objects from different constructor paths answer alike"""
    rng = c.rng
    recipe = make_recipe(rng)
    a, b = recipe.build(0), recipe.build(rng.randrange(1, 4))
    c.eq('equal-object', canon(a), canon(b), recipe)
    c.true('equal-object', a == b, recipe)
    asked = questions(rng, recipe, recipe.build())
    c.note('object', recipe)
    for q in asked:
        ans = ask(a, *q)
        record(c, recipe, q, ans)
        c.eq('equal-object', ask(b, *q), ans, q[0], q[1], recipe)


@scenario(quick=250, thorough=4000)
def histories(c):
    """several objects, used as operands of each other; their results are asked, too"""
    rng = c.rng
    kind = rng.choice(['boolf', 'boolf', 'perm', 'sigperm', 'walshperm', 'bits', 'setpart', 'partcomp'])
    recipes = [make_recipe(rng, kind) for _ in range(3)] + [make_recipe(rng)]
    if kind in ('setpart', 'bits'):
        recipes[1] = recipes[0]
    objs = [r.build(rng.randrange(4)) for r in recipes]
    prints = [canon(o) for o in objs]
    log = []
    for _ in range(25):
        i = rng.randrange(len(objs))
        q = rng.choice(questions(rng, recipes[i], objs[i]))
        name, args = q
        operands = []
        c.note(f'{i}: {name} {args}')
        # a recipe among the arguments is now and then replaced by a living object of the same kind
        if args and isinstance(args[0], Recipe) and rng.random() < .6:
            j = rng.choice([j for j in range(len(objs)) if recipes[j].kind == args[0].kind] or [None])
            if j is not None:
                f = queries.operation(objs[i], name)
                try:
                    raw = f(objs[j])
                    ans = canon(raw)
                except Exception as e:
                    raw, ans = None, ('refused', type(e).__name__)
                args = (recipes[j],)
                q = (name, args)
            else:
                raw, ans = ask_raw(objs[i], name, args, operands)
        else:
            raw, ans = ask_raw(objs[i], name, args, operands)
        log.append((i, q, ans))
        record(c, recipes[i], q, ans)
        if operands:
            for got, a in zip(operands, args):
                c.eq('operands-unchanged', canon(got), canon(a.build() if isinstance(a, Recipe) else a), name, 'of', recipes[i])
        for o, p, r in zip(objs, prints, recipes):
            c.eq('others-unchanged', canon(o), p, r, 'after', name, args, 'of', recipes[i])
        for res in objects_in(raw)[:3]:
            was = canon(res)
            for n in rng.sample(queries.properties(res), min(4, len(queries.properties(res)))):
                if queries.too_slow(res, n):
                    continue
                ask(res, n, None)
                c.eq('result-questions', canon(res), was, n, 'of the result of', name, args, 'of', recipes[i])
    for i, q, ans in log:
        c.eq('same-answer-again', ask(objs[i], *q), ans, 'asked again:', q[0], q[1], recipes[i])
        c.eq('same-answer-fresh', ask(recipes[i].build(rng.randrange(4)), *q), ans, 'fresh:', q[0], q[1], recipes[i])


# ------------------------------------------------------------------ arguments

def spoil(rng, x):
    """changes a container in place"""
    if isinstance(x, np.ndarray):
        x[...] = 1 - x
    elif isinstance(x, list):
        if x and isinstance(x[0], list) and rng.random() < .7:
            for e in x:
                spoil(rng, e)
        elif x and isinstance(x[0], set):
            for e in x:
                e.clear()
        elif rng.random() < .5:
            x.reverse()
            x.append(x[0] if x else 0)
        else:
            x.clear()
    elif isinstance(x, set):
        x.clear()
    elif isinstance(x, dict):
        x.clear()


def constructions(rng):
    """(recipe, function, mutable arguments)"""
    r = make_recipe(rng)
    k = r.kind
    if k == 'bits':
        bits = list(r.data[0])
        ones = [i for i, b in enumerate(bits) if b]
        opts = [(lambda v: Binv(v), [list(bits)]), (lambda v: Binv(v), [np.array(bits, dtype=int)]),
                (lambda v: Binv(v), [np.array(bits, dtype=bool)]),
                (lambda v: Binv(exposet=v, length=len(bits)), [set(ones)]), (lambda v: Binv(exposet=v, length=len(bits)), [list(ones)])]
    elif k == 'perm':
        seq, per = r.data
        opts = [(lambda v: Perm(v, per), [list(seq)]), (lambda v: Perm(v, per), [{i: v for i, v in enumerate(seq) if i != v}]),
                (lambda v: Perm(v, per), [[list(cy) for cy in queries.cycles_of(seq)]])]
    elif k == 'sigperm':
        seq = list(r.data[0])
        pos = [v if v >= 0 else ~v for v in seq]
        opts = [(lambda v: SigPerm(sequence=v), [list(seq)]), (lambda v: SigPerm(matrix=v), [queries.ref_sig_matrix(seq)]),
                (lambda v: SigPerm(matrix=v), [queries.ref_sig_matrix(seq).tolist()]) if seq else (lambda v: SigPerm(sequence=v), [[]]),
                (lambda v, w: SigPerm(keyneg=v, perm=w), [[x < 0 for x in seq], list(pos)]),
                (lambda v, w: SigPerm(keyneg=v, perm=w), [{i for i, x in enumerate(seq) if x < 0}, list(pos)])]
    elif k == 'walshperm':
        vec = list(r.data[0])
        n = len(vec)
        mat = [[v >> i & 1 for v in vec] for i in range(n)]
        opts = [(lambda v: WalshPerm(v), [list(vec)]), (lambda v: WalshPerm(matrix=v), [np.array(mat)]),
                (lambda v: WalshPerm(matrix=v, trust=True), [np.array(mat)])]
    elif k == 'setpart':
        blocks, dom, labels = r.data
        dom = dom if isinstance(dom, str) else rng.choice([set, list])(dom)
        opts = [(lambda b, d, l: SetPart(b, d, l), [[rng.choice([list, list, set])(b) for b in blocks], dom, dict(labels)])]
        if all(isinstance(b, list) for b in opts[0][1][0]):
            pass
        else:
            opts[0][1][0] = [set(b) for b in blocks]
    elif k == 'partcomp':
        blocks, comp = r.data
        opts = [(lambda b, p: SetPartComp(b, p), [[list(b) for b in blocks], set(comp)]),
                (lambda b, p: SetPartComp(b, p), [[list(b) for b in blocks], list(comp)])]
    else:
        atoms, bits = map(list, r.data)
        if not atoms:
            opts = [(lambda v: Boolf(v), [list(bits)]), (lambda v, w: Boolf(v, w), [list(bits), []])]
        else:
            ones = [i for i, b in enumerate(bits) if b]
            opts = [(lambda v, w: Boolf(v, w), [list(bits), list(atoms)]),
                    (lambda v, w: Boolf(v, w, skip_deflation=True), [list(bits), list(atoms)]),
                    (lambda v, w: Boolf(fullspots=v, atomvals=w), [list(ones), list(atoms)]),
                    (lambda v, w: Boolf(fullspots=v, atomvals=w), [set(ones), list(atoms)])]
            full = [b for b in bits]
            if atoms == list(range(len(atoms))):
                opts.append((lambda v: Boolf(v), [list(full)]))
                wal = np.array(recipe_spectrum(bits))
                opts.append((lambda v: Boolf(walsh_spectrum=v), [wal]))
                opts.append((lambda v: Boolf(walsh_spectrum=v), [wal.tolist()]))
    return (r,) + rng.choice(opts)


def recipe_spectrum(bits):
    from lib.ref import wht
    return wht([int(b) for b in bits])


@scenario(quick=900, thorough=15000)
def arguments(c):
    """constructors leave their arguments alone, and later changes of these do not reach the object"""
    rng = c.rng
    recipe, build, args = constructions(rng)
    c.note('object', recipe, 'from', str([type(a).__name__ for a in args]))
    was = copy.deepcopy(args)
    obj = build(*args)
    for a, w in zip(args, was):
        c.eq('container-unchanged', canon(a), canon(w), 'argument of the constructor of', recipe)
    want = canon(recipe.build())
    c.eq('equal-object', canon(obj), want, recipe)
    asked = [q for q in questions(rng, recipe, obj) if q[0] != 'hash']
    rng.shuffle(asked)
    early = [(q, ask(obj, *q)) for q in asked[:6]]
    for a, w in zip(args, was):
        c.eq('container-unchanged', canon(a), canon(w), 'argument of the constructor after questions to', recipe)
    for a in args:
        spoil(rng, a)
    c.eq('later-change', canon(obj), want, 'after changing the argument of', recipe)
    for q, ans in early:
        c.eq('later-change', ask(obj, *q), ans, q[0], q[1], 'after changing the argument of', recipe)
    for q in asked[6:14]:
        c.eq('later-change', ask(obj, *q), ask(recipe.build(), *q), q[0], q[1], 'after changing the argument of', recipe)
    c.state(recipe.kind, str(recipe.data), str([type(a).__name__ for a in args]))


def helper_calls(rng):
    """name -> arguments that are containers; functions of the library that take lists, sets, dictionaries or matrices"""
    n = rng.choice([2, 3, 4])
    tt = [int(b) for b in gen.table(rng, n)]
    bits = [rng.randrange(2) for _ in range(rng.choice([4, 8, 16]))]
    perm = gen.perm_seq(rng, 5)
    vec = [rng.randint(-9, 9) for _ in range(6)]
    mat = [[rng.randint(-3, 3) for _ in range(4)] for _ in range(4)]
    words = [rng.choice('abcd') for _ in range(7)]
    sub = rng.sample(range(6), 3)
    nested = [[1, [2, 3]], [], [[4]]]
    pattern = [rng.randrange(2) for _ in range(6)]
    atoms = sorted(rng.sample(range(4), 2))
    import discretehelpers.a as A
    import discretehelpers.boolf.a as BA
    import discretehelpers.perm.a as PA
    import discretehelpers.sig_perm.a as SA
    import discretehelpers.walsh_perm.a as WA
    cols = gen.invertible_matrix(rng, 3)
    gmat = np.array([[v >> i & 1 for v in cols] for i in range(3)])
    seq = gen.signed_seq(rng, 4)
    calls = [
        (A, 'integer_determinant', [mat]), (A, 'integer_determinant', [np.array(mat)]), (A, 'sort_together', [list(vec), list(range(6))]),
        (A, 'sort_rows_together', [np.array(mat), np.array(mat)]), (A, 'sort_cols_together', [np.array(mat), np.array(mat)]),
        (A, 'sorted_colex', [[list(e) for e in mat]]), (A, 'sorted_colex', [[tuple(sorted(rng.sample(range(6), 2))) for _ in range(4)]]),
        (A, 'swap_matrix_rows', [np.array(mat), 0, 2]), (A, 'flatten', [copy.deepcopy(nested)]), (A, 'key_tuples', [copy.deepcopy(nested), True]),
        (A, 'inventory_dict', [list(words)]), (A, 'inventory_partition', [list(words)]), (A, 'is_multisubset', [dict(a=1, b=2), dict(a=2, b=2)]),
        (A, 'multiset_to_distri', [dict(a=1, c=2), list('abcd')]), (A, 'powerset', [list(sub)]), (A, 'powerset', [set(sub)]),
        (A, 'subdict', [dict(a=1, b=2, c=3), ['a'], dict(d=4)]), (A, 'exposet_to_int', [set(sub)]), (A, 'vector_to_int', [list(bits)]),
        (A, 'vector_zip_apart', [list(vec), list(pattern)]), (A, 'repeat_sequence', [list(vec), 18]), (A, 'multi_lcm', [[abs(v) + 1 for v in vec]]),
        (A, 'logic_abs_vector', [list(vec)]), (A, 'logic_str_vector', [list(vec)]), (A, 'logic_negate_vector', [list(vec), list(pattern)]), (A, 'logic_negate_vector', [list(vec), None, [v for v in vec if v >= 0][:2]]),
        (A, 'make_atompatterns', [gen.signed_seq(rng, 3)]), (A, 'walsh_function_to_index', [[bin(5 & x).count('1') % 2 for x in range(8)]]),
        (A, 'inverse_cartesian_product', [[(a, b) for a in (1, 2) for b in (3, 4)]]), (A, 'pretty_signs', [list(vec)]),
        (A, 'is_integer_matrix', [np.array(mat)]), (A, 'int_to_sierpinski_row', [None, set(sub)]), (A, 'bin2svg', [np.array([bits, bits])]),
        (A, 'default_to_regular_dict', [dict(a=dict(b=1))]), (A, 'multigrade_bitwise', [[abs(v) for v in vec], 'and']),
        (A, 'linear_to_walsh_and_oddness', [[bin(6 & x).count('1') % 2 for x in range(8)]]),
        (A, 'create_hasse_matrix', [[{1}, {2}, {1, 2}], lambda a, b: a < b]),
        (PA, 'inversion_set_to_permutation', [{(i, j) for i in range(5) for j in range(i + 1, 5) if perm[i] > perm[j]}]),
        (PA, 'inversion_set_to_count', [{(i, j) for i in range(5) for j in range(i + 1, 5) if perm[i] > perm[j]}]),
        (PA, 'inversion_vector', [list(perm)]), (PA, 'left_inversion_count', [list(perm)]), (PA, 'right_inversion_count', [list(perm)]),
        (PA, 'left_inversion_count_to_permutation', [[rng.randint(0, i) for i in range(5)]]),
        (PA, 'right_inversion_count_to_permutation', [[rng.randint(0, 4 - i) for i in range(5)]]),
        (SA, 'matrix_to_sequence', [queries.ref_sig_matrix(seq)]), (SA, 'sequence_to_matrix', [list(seq)]),
        (WA, 'matrix_to_vector', [gmat.copy()]), (WA, 'vector_to_matrix', [list(cols)]), (WA, 'shrink_matrix', [gmat.copy()]),
        (BA, 'atom_indices_to_sequence', [list(sub)]), (BA, 'flat_to_layered', [list(tt)]), (BA, 'flat_to_layered', [list(tt), True]),
        (BA, 'mod_tt_neg', [list(tt), rng.randrange(1 << n)]), (BA, 'mod_tt_perm', [list(tt), gen.perm_seq(rng, n)]),
        (BA, 'sequence_to_entry_counts', [list(words)]), (BA, 'sort_each_layer', [[[3, 1, 2], [5, 4]]]),
        (BA, 'spotints_to_splits', [sorted(rng.sample(range(1 << n), 3)), n]), (BA, 'layered_is_greater', [[[3], [1, 2]], [[2], [1, 4]]]),
        (BA, 'deflate', [Binv(tt), list(range(n))]), (BA, 'reorder_if_atomvals_not_asc', [Binv(tt), rng.sample(range(9), n)]),
        (BA, 'sierpinski_twin', [list(tt), 1, n + 1]), (BA, 'segment_to_adjacent_spots', [[-1, 0, 1]]),
        (BA, 'apply_sigperm_to_colors', [{1: [0, 1], 2: [2, 3]}, 2, SigPerm(sequence=[1, 0])]),
        (BA, 'exposet_to_twin_gen', [set(rng.sample(range(1 << n), 3)), n]), (BA, 'vector_to_twin_gen', [list(tt), n]),
        (BA, 'zhe_exposet_to_prefect_gen', [set(rng.sample(range(1 << n), 3)), n]), (BA, 'zhe_vector_to_prefect_gen', [list(tt), n]),
    ] + [(BA, f'atoms_to_{name}_gen', [list(atoms), 4]) for name in ('and', 'or', 'xor', 'xand', 'eq', 'sand', 'gand', 'esand', 'osand')]
    return calls


@scenario(quick=60, thorough=1000)
def helper_arguments(c):
    """functions on plain data leave their arguments alone and answer the same twice"""
    rng = c.rng
    for mod, name, args in helper_calls(rng):
        f = getattr(mod, name, None)
        if f is None:
            continue
        c.note(f'{name} {args}')
        was = copy.deepcopy(args)
        answers = []
        for a in (args, args, copy.deepcopy(was)):
            try:
                r = f(*a)
                ans = canon(list(r) if hasattr(r, '__next__') else r)
            except Exception as e:
                ans = ('refused', type(e).__name__)
            answers.append(ans)
            c.eq('container-unchanged', canon([x for x in args if not callable(x)]), canon([x for x in was if not callable(x)]), 'arguments of', name, was)
        c.state(name, str(was), trivial=answers[0][:1] == ('refused',) if isinstance(answers[0], tuple) else False)
        c.eq('helper-twice', answers[0], answers[1], name, was)
        c.eq('helper-twice', answers[0], answers[2], name, was)
        if answers[0] == ('refused', 'TypeError'):
            c.hit('helper-not-applicable')


@scenario(quick=24, thorough=300)
def other_process(c):
    """the same batch of questions in two interpreters with different hash seeds, asked in opposite orders"""
    rng = c.rng
    seed = f'{rng.randrange(1 << 40)}'
    count = 60 if c.tier == 'quick' else 150
    outs = []
    for order in ('forwards', 'backwards'):
        hs = rng.randrange(1 << 32)
        code = ('import sys; sys.path.insert(0, %r); from lib import core; core.import_library(); from lib import queries; queries.main()' % core.VERIF)
        p = subprocess.run([sys.executable, '-c', code, seed, str(count), order], env=dict(os.environ, PYTHONHASHSEED=str(hs)),
                           cwd=core.VERIF, capture_output=True, text=True)
        if p.returncode:
            c.fail('same-answer-other-process', f'interpreter ended with {p.returncode}: {p.stderr[-600:]}')
        outs.append(p.stdout.splitlines())
    c.eq('same-answer-other-process', len(outs[0]), len(outs[1]))
    for a, b in zip(*outs):
        if a != b:
            c.fail('same-answer-other-process', f'{a[:500]} against {b[:500]}')
    c.hit('same-answer-other-process', len(outs[0]))
    c.state(seed)
