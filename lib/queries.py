"""Recipes for objects, the questions that can be asked about them, and a canonical form of the answers.

A recipe is plain data; building it gives an equal object each time, by one of several constructor paths.  Questions are
found by looking at the public properties of the class and the public data of a new object, and completed by a table of
calls with arguments.  A name that the library does not have is simply not asked.
"""
import inspect
import itertools
from fractions import Fraction
from functools import cached_property

import numpy as np

from discretehelpers.binv import Binv
from discretehelpers.boolf import Boolf
from discretehelpers.perm import Perm
from discretehelpers.set_part import SetPart
from discretehelpers.set_part_comp import SetPartComp
from discretehelpers.sig_perm import SigPerm
from discretehelpers.walsh_perm import WalshPerm

from lib import gen, ref
from lib.core import Violation


# ------------------------------------------------------------------ canonical form

def _ordered(items):
    return tuple(sorted(items, key=repr))


def canon(x, depth=0):
    """order of sequences matters, order of sets and dicts does not"""
    if x is None or isinstance(x, str):
        return x
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, Fraction):
        return 'fraction', x.numerator, x.denominator
    if isinstance(x, (float, np.floating)):
        return int(x) if x == int(x) else float(x)
    if isinstance(x, complex):
        return 'complex', x.real, x.imag
    if depth > 12:
        return 'deep'
    d = depth + 1
    if isinstance(x, Boolf):
        return 'Boolf', tuple(int(a) for a in x.atomvals), tuple(int(b) for b in x.root.vector)
    if isinstance(x, Binv):
        return 'Binv', tuple(int(b) for b in x.vector)
    if isinstance(x, SigPerm):
        return 'SigPerm', canon(x.sequence(), d)
    if isinstance(x, WalshPerm):
        return 'WalshPerm', canon(x.vector(), d)
    if isinstance(x, Perm):
        return 'Perm', canon(x.mapping, d), canon(x.perilen, d)
    if isinstance(x, SetPart):
        return 'SetPart', canon(x.blocks, d), canon(x.domain, d), canon(x.block_labels, d)
    if isinstance(x, SetPartComp):
        return 'SetPartComp', canon(x.equal_part, d), canon(x.comp_pairs, d)
    if isinstance(x, np.ndarray):
        return 'array', x.shape, canon(x.tolist(), d)
    if isinstance(x, (set, frozenset)) or type(x).__name__ == 'OrderedSet':
        return ('set',) + _ordered(canon(e, d) for e in x)
    if isinstance(x, dict) or type(x).__name__ == 'bidict':
        return ('dict',) + _ordered((canon(k, d), canon(v, d)) for k, v in x.items())
    if isinstance(x, (list, tuple, range)):
        return tuple(canon(e, d) for e in x)
    if hasattr(x, '__next__'):
        return tuple(canon(e, d) for e in itertools.islice(x, 100000))
    if type(x).__module__.startswith('discretehelpers'):
        data = {k: v for k, v in getattr(x, '__dict__', {}).items() if not k.startswith('_')}
        return ('object', type(x).__name__) + _ordered((k, canon(v, d)) for k, v in data.items() if not callable(v))
    if hasattr(x, '__iter__'):
        return tuple(canon(e, d) for e in x)
    return 'object', type(x).__name__


# ------------------------------------------------------------------ recipes

class Recipe:
    def __init__(self, kind, data):
        self.kind, self.data = kind, data

    def __repr__(self):
        return f'{self.kind}{self.data}'

    def build(self, way=0):
        return getattr(self, '_' + self.kind)(way, *self.data)

    @staticmethod
    def _bits(way, bits):
        bits = list(bits)
        if way == 1:
            return Binv(''.join('01'[b] for b in bits))
        if way == 2:
            return Binv(intval=ref_int(bits), length=len(bits))
        if way == 3:
            return Binv(exposet={i for i, b in enumerate(bits) if b}, length=len(bits))
        return Binv(bits)

    @staticmethod
    def _perm(way, seq, period):
        seq = list(seq)
        if way == 1:
            return Perm({k: v for k, v in enumerate(seq) if k != v}, period)
        if way == 2:
            return Perm([list(c) for c in cycles_of(seq)], period)
        if way == 3:
            a = Perm(seq, period)
            return (a * a.inverse) * a
        return Perm(seq, period)

    @staticmethod
    def _sigperm(way, seq):
        seq = list(seq)
        if way == 1:
            return SigPerm(matrix=ref_sig_matrix(seq))
        if way == 2:
            return SigPerm(keyneg=[v < 0 for v in seq], perm=[v if v >= 0 else ~v for v in seq])
        if way == 3:
            return SigPerm(sequence=seq).inverse.inverse
        return SigPerm(sequence=seq)

    @staticmethod
    def _walshperm(way, vector):
        if way == 1:
            n = len(vector)
            return WalshPerm(matrix=np.array([[v >> i & 1 for v in vector] for i in range(n)]))
        if way == 2:
            return WalshPerm(list(vector)).inverse.inverse
        if way == 3:
            return WalshPerm(list(vector)).transpose.transpose
        return WalshPerm(list(vector))

    @staticmethod
    def _setpart(way, blocks, domain, labels):
        dom = domain if isinstance(domain, str) else set(domain)
        labels = {k: v for k, v in labels}
        if way == 0 or labels and way == 1:
            return SetPart([list(b) for b in blocks], dom, labels or None)
        p = SetPart(domain=dom)
        blocks = list(blocks)
        if way == 2:
            blocks = blocks[::-1]
        for b in blocks:
            b = list(b) if way == 1 else list(b)[::-1]
            for x in b[1:]:
                p.merge_pair(b[0], x)
        for first, label in labels.items():
            p.add_label_to_block(first, label)
        return p

    @staticmethod
    def _partcomp(way, blocks, comp):
        comp = [tuple(p) for p in comp]
        if way == 0:
            return SetPartComp([list(b) for b in blocks], set(comp))
        if way == 1:
            return SetPartComp(SetPart([list(b) for b in blocks], 'Z'), set(p[::-1] for p in comp))
        p = SetPartComp()
        steps = [(p.set_equal, b[0], x) for b in blocks for x in b[1:]] + [(p.set_comp, a, b) for a, b in comp]
        for f, a, b in (steps if way == 2 else steps[::-1]):
            f(a, b)
        return p

    @staticmethod
    def _boolf(way, atoms, bits):
        atoms, bits = list(atoms), list(bits)
        if not atoms:
            return Boolf(bool(bits[0])) if way % 2 == 0 else Boolf(zhe=bits[0])
        if way == 1:
            return Boolf(fullspots=[i for i, b in enumerate(bits) if b], atomvals=atoms)
        if way == 2:
            return ~~Boolf(bits, atoms)
        if way == 3:
            return Boolf(ref.RefF(atoms, bits).table(max(atoms) + 1))
        return Boolf(bits, atoms)


def ref_int(bits):
    return sum(1 << i for i, b in enumerate(bits) if b)


def cycles_of(seq):
    seen, out = set(), []
    for i in range(len(seq)):
        if i in seen or seq[i] == i:
            continue
        c, j = [], i
        while j not in seen:
            seen.add(j)
            c.append(j)
            j = seq[j]
        out.append(c)
    return out


def ref_sig_matrix(seq):
    n = len(seq)
    m = [[0] * n for _ in range(n)]
    for k, v in enumerate(seq):
        m[v if v >= 0 else ~v][k] = 1 if v >= 0 else -1
    return np.array(m, dtype=int).reshape(n, n)


def make_recipe(rng, kind=None, size='small'):
    kind = kind or rng.choice(['bits', 'perm', 'sigperm', 'walshperm', 'setpart', 'partcomp', 'boolf', 'boolf', 'boolf'])
    if kind == 'bits':
        return Recipe(kind, (tuple(int(b) for b in gen.bits(rng, maxlen=90)),))
    if kind == 'perm':
        n = rng.randint(0, 9)
        seq = tuple(gen.perm_seq(rng, n))
        return Recipe(kind, (seq, None if n < 2 or rng.random() < .5 else n + rng.randint(0, 3)))
    if kind == 'sigperm':
        return Recipe(kind, (tuple(gen.signed_seq(rng, rng.randint(0, 6))),))
    if kind == 'walshperm':
        return Recipe(kind, (tuple(gen.invertible_matrix(rng, rng.randint(1, 4))),))
    if kind in ('setpart', 'partcomp'):
        dom = rng.choice(['N', 'Z', tuple(range(9)), tuple(rng.sample(range(-20, 40), 9)), ('', 'a', 'b', 'ab', 'ba', 'abc', 'x', 'y')]) if kind == 'setpart' else 'Z'
        pool = list(range(9)) if dom == 'N' else list(range(-4, 6)) if dom == 'Z' and kind == 'setpart' else \
            list(range(9)) if dom == 'Z' else list(dom)
        rng.shuffle(pool)
        blocks = []
        while len(pool) > 2 and rng.random() < .8:
            k = rng.randint(2, min(4, len(pool)))
            blocks.append(tuple(sorted(pool[:k])))
            pool = pool[k:]
        blocks.sort()
        if kind == 'setpart':
            labels = [(b, rng.choice([f'L{i}', i, (i, i)])) for i, b in enumerate(blocks) if rng.random() < .4]
            return Recipe(kind, (tuple(blocks), dom, tuple(labels)))
        reps = [b[0] for b in blocks] + pool
        rng.shuffle(reps)
        comp = [(reps[2 * i], reps[2 * i + 1]) for i in range(len(reps) // 2) if rng.random() < .5]
        return Recipe(kind, (tuple(blocks), tuple(tuple(sorted(p)) for p in comp)))
    n = rng.choice([0, 1, 2, 2, 3, 3, 3, 4] if size == 'small' else [3, 4, 4])
    r = ref.RefF(sorted(gen.atoms(rng, n, rng.choice([n, n, n + 1, 6]) if n else 0)) if n else [], gen.table(rng, n))
    return Recipe('boolf', (tuple(r.atoms), tuple(int(b) for b in r.bits)))


# ------------------------------------------------------------------ questions

SLOW = {'hypersplits', 'hypersplits_detailed', 'hypersplits_potential_cores', 'hypersplits_pretty',
        'hypersplits_potential_cores_pretty', 'ec_clan', 'ec_clan_matrix', 'ec_clan_partitioned', 'ec_clan_factions',
        'ec_faction', 'clan_minrep', 'faction_minrep', 'perm_symmetry_partition', 'symmetric_spots', 'consul_slow',
        'ec_clan_matrix_wiki', 'wiki_table_row', 'find_segments', 'ec_family_splinters'}
MUTATORS = {'set_dummies', 'set_trivial', 'set_neutral', 'set_empty', 'set_constant', 'set_unary', 'flip_bit', 'merge_pair',
            'merge_many', 'add_label_to_block', 'add_label_to_element', 'merge_block_labels', 'refine_block', 'set_comp',
            'set_equal'}
IGNORED = {'glove_compartment', 'vector_object', 'transpose_vector_object'}


def properties(obj):
    names = set()
    for n in dir(type(obj)):
        if n.startswith('_') or n in IGNORED:
            continue
        a = inspect.getattr_static(type(obj), n)
        if isinstance(a, (property, cached_property)):
            names.add(n)
    names.update(n for n in vars(obj) if not n.startswith('_') and n not in IGNORED)
    return sorted(names)


def too_slow(obj, name):
    if isinstance(obj, Boolf):
        return name in SLOW and (obj.valency > 3 or obj.adicity > 4)
    if isinstance(obj, Perm) and not isinstance(obj, SigPerm):
        return name == 'schoute_perm' and obj.length > 10
    return False


def questions(rng, recipe, obj):
    """list of (name, arguments); arguments may be recipes"""
    kind = recipe.kind
    out = [(n, None) for n in properties(obj)]
    if kind != 'partcomp':                # its text shows a set, whose order means nothing
        out += [('repr', ()), ('str', ())]
    calls = []
    if kind == 'bits':
        n = len(recipe.data[0])
        calls = [('has_index', (rng.randint(0, n + 2),)), ('len', ()), ('iter', ())]
        other = Recipe('bits', (tuple(rng.randrange(2) for _ in range(n)),))
        calls += [(op, (other,)) for op in ('and', 'or', 'xor', 'eq', 'add', 'bitwise_smaller', 'lt', 'le')]
        calls += [('invert', ())]
        if n:
            calls += [('getitem', (rng.randrange(n),)), ('getitem', (slice(rng.randrange(n), None, None),))]
    elif kind == 'perm':
        other = make_recipe(rng, 'perm')
        calls = [('mul', (other,)), ('eq', (other,)), ('pow', (rng.randint(-4, 6),)), ('hash', ()),
                 ('sequence', ()), ('sequence', (12,)), ('cycles_dynamic', (24,)), ('cycles_dynamic', ()),
                 ('apply_on_vector', (list(range(10, 22)),)), ('getitem', (rng.randrange(30),))]
    elif kind == 'sigperm':
        other = make_recipe(rng, 'sigperm')
        calls = [('mul', (other,)), ('eq', (other,)), ('pow', (rng.randint(-4, 6),)),
                 ('sequence', ()), ('sequence', (9,)), ('sequence_string', ()), ('sequence_string', (7, True)), ('matrix', ()),
                 ('matrix', (7,)), ('apply_on_natural_number', (rng.randrange(64),))]
    elif kind == 'walshperm':
        other = make_recipe(rng, 'walshperm')
        calls = [('mul', (other,)), ('eq', (other,)), ('pow', (rng.randint(-3, 5),)), ('sequence', ()),
                 ('sequence', (None, 5)), ('sequence', (7,)), ('matrix', ()), ('matrix', (6,)), ('vector', ()), ('vector', (6,)),
                 ('transpose_vector', (6,)), ('complement_pattern', (5,)), ('cycles_dynamic', (16,)), ('getitem', (rng.randrange(40),)),
                 ('apply_on_vector', (list(range(16)),))]
    elif kind == 'setpart':
        blocks, dom, labels = recipe.data
        els = [e for b in blocks for e in b] + ([0, 3, 7] if dom == 'N' else [-3, 2] if dom == 'Z' else list(dom)[:3])
        e, g = rng.choice(els), rng.choice(els)
        other = None
        for _ in range(50):
            o = make_recipe(rng, 'setpart')
            if o.data[1] == dom and isinstance(dom, str):
                other = Recipe('setpart', (o.data[0], dom, ()))
                break
        if other is None:
            d = list(dom) if not isinstance(dom, str) else els
            d = sorted(set(d))
            rng.shuffle(d)
            other = Recipe('setpart', ((tuple(sorted(d[:2])), tuple(sorted(d[2:4]))) if len(d) > 3 else (), dom, ()))
        calls = [('pair_in_same_block', (e, g)), ('element_to_block', (e,)), ('element_in_domain', (e,)),
                 ('element_in_domain', (99,)), ('get_label_from_element', (e,)), ('non_singleton_to_block_index_or_none', (e,)),
                 ('blocks_with_singletons', ()), ('blocks_with_singletons', (12,)),
                 ('join', (other,)), ('meet', (other,)), ('le', (other,)), ('lt', (other,)), ('eq', (other,))]
        if blocks:
            b = rng.choice(blocks)
            calls += [('get_label_from_block', (list(b),))]
        if labels:
            calls += [('get_block_from_label', (rng.choice(labels)[1],))]
    elif kind == 'partcomp':
        e, g = rng.randrange(10), rng.randrange(10)
        calls = [('are_equal', (e, g)), ('are_comp', (e, g)), ('get_comp', (e,)), ('get_block', (e,)), ('get_repr', (e,)),
                 ('related_part', ()), ('affected_elements', ()), ('length', ()), ('number_of_affected_elements', ()),
                 ('number_of_related_blocks', ()), ('all_complement_pairs', ()), ('boolf', ()), ('int_matches', (rng.randrange(512),)),
                 ('eq', (make_recipe(rng, 'partcomp'),))]
    else:
        atoms, bits = recipe.data
        n = len(atoms)
        top = max(atoms, default=-1) + 1
        arity = top + rng.choice([0, 0, 1])
        other = make_recipe(rng, 'boolf')
        calls = [(op, (other,)) for op in ('and', 'or', 'xor', 'eq', 'lt', 'le', 'gt', 'ge', 'bitwise_le', 'bitwise_lt', 'bitwise_ge')]
        calls += [('invert', ()), ('hash', ()), ('getitem', (rng.randrange(1 << 6),)), ('tt', ()), ('tt', (arity,)), ('value_fract', ()),
                  ('apply_sigperm', (make_recipe(rng, 'sigperm'),)),
                  ('walsh_distances', ()), ('walsh_spectrum', ()), ('walsh_spectrum', (arity,)), ('walsh_spectrum_abs', ()),
                  ('walsh_spectrum_layered', ()), ('walsh_spectrum_abs_layered', ()), ('find_segments', ()),
                  ('filtrated_boolf', (list(rng.sample(atoms, rng.randint(0, n))),)),
                  ('splits_combined', (rng.sample(range(n), rng.randint(0, n)),)),
                  ('inflated_fullspots', (list(range(top + 1)),)),
                  ('ec_family', ()), ('ec_family_splinters', ()), ('bundles_pretty', ()), ('filtrated_pairs_pretty', ()),
                  ('fullspot_atoms_pretty', ()), ('hypersplits_pretty', ()), ('hypersplits_potential_cores_pretty', ()),
                  ('diagonal_adjacency_matrix', ([rng.randrange(2) for _ in range(n)],)),
                  ('blightless_spotint', (rng.randrange(1 << n),)), ('bloatless_spotint', (rng.randrange(1 << n),))]
        if n:
            calls += [('apply', tuple(~a if rng.random() < .4 else a for a in rng.sample(range(7), n))),
                      ('vals', tuple(~a if rng.random() < .4 else a for a in rng.sample(range(n), n))),
                      ('val', tuple(rng.randrange(2) for _ in range(n)))]
        if n > 1:
            a, b = rng.sample(range(n), 2)
            calls += [(m, (a, b)) for m in ('atom_border_in_atom_side', 'atom_pair_crossing', 'atom_pair_intersect', 'atom_pair_subset',
                                            'filtrated_pair')]
        for d in ([], rng.sample(range(n), rng.randint(0, n)), list(range(n))):
            calls += [(m, (list(d),)) for m in ('hyperfission', 'hyperfission_walsh_spectra', 'hyperfission_walsh_spectra_abs',
                                          'hyperfission_walsh_spectra_layered_abs', 'hyperfission_walsh_spectra_zipped',
                                          'hyperfission_walsh_spectra_labeled')]
        if top <= 4:
            calls += [(m, (top,)) for m in (
                'consul', 'consul_weight', 'patron_boolf', 'patron_index', 'patron_int', 'patron_king_index_and_quadrant',
                'patron_quadrant', 'patron_royal', 'twin', 'is_acute', 'is_noble', 'is_rough', 'is_rude', 'is_sharp', 'leader',
                'noble_quadrant', 'octant', 'weight_quadrant', 'acute_quadrant', 'hasse_matrix_coordinates')]
            if top > 1:
                calls += [('is_solid', (top,))]
        if top <= 3:
            calls += [('ec_clan', ()), ('ec_faction', ()), ('ec_clan', (top,)), ('ec_faction', (top,)), ('ec_clan_factions', (top,)),
                      ('ec_clan_matrix', ()), ('ec_clan_partitioned', ())]
            calls += [('consul_slow', (top,))]
    out += calls
    return [(m, a) for m, a in out if m not in MUTATORS and not too_slow(obj, m)]


def operation(obj, name):
    import operator
    table = dict(mul=operator.mul, add=operator.add, eq=operator.eq, lt=operator.lt, le=operator.le, gt=operator.gt, ge=operator.ge,
                 xor=operator.xor, pow=operator.pow, invert=operator.invert, getitem=operator.getitem)
    table['and'], table['or'] = operator.and_, operator.or_
    if name in table:
        return lambda *a: table[name](obj, *a)
    if name in ('repr', 'str', 'bool', 'len'):
        f = dict(repr=repr, str=str, bool=bool, len=len)[name]
        return lambda: f(obj)
    if name == 'iter':
        return lambda: list(obj)
    if name == 'hash':
        return lambda: hash(obj)
    return getattr(obj, name, None)


def materialise(args):
    return tuple(a.build() if isinstance(a, Recipe) else list(a) if isinstance(a, list) else a for a in args)


def ask_raw(obj, name, args, operands=None):
    """answer and its canonical form; refusals are answers too, identified by their class"""
    try:
        if args is None:
            r = getattr(obj, name)
        else:
            f = operation(obj, name)
            if f is None:
                return None, ('no such question',)
            real = materialise(args)
            if operands is not None:
                operands.extend(real)
            r = f(*real)
        if hasattr(r, '__next__'):
            r = list(itertools.islice(r, 100000))
        return r, canon(r)
    except (Violation, RecursionError):
        raise
    except Exception as e:
        return None, ('refused', type(e).__name__)


def ask(obj, name, args):
    return ask_raw(obj, name, args)[1]


def kind_of(x):
    for cls, kind in ((Boolf, 'boolf'), (Binv, 'bits'), (SigPerm, 'sigperm'), (WalshPerm, 'walshperm'), (Perm, 'perm'),
                      (SetPart, 'setpart'), (SetPartComp, 'partcomp')):
        if isinstance(x, cls):
            return kind


def objects_in(x, depth=0):
    """library objects contained in an answer"""
    if kind_of(x):
        return [x]
    if depth > 3:
        return []
    if isinstance(x, dict):
        x = list(x.keys()) + list(x.values())
    if isinstance(x, (list, tuple, set, frozenset)):
        out = []
        for e in itertools.islice(x, 6):
            out += objects_in(e, depth + 1)
        return out
    return []


def main():
    """answers to a batch of questions, one line each; run as a process of its own with its own hash seed"""
    import os
    import random
    import sys
    seed, count, backwards = sys.argv[1], int(sys.argv[2]), sys.argv[3] == 'backwards'
    out = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    batch = make_batch(seed, count)
    lines = {}
    for i in (reversed(range(count)) if backwards else range(count)):
        recipe, asked = batch[i]
        obj = recipe.build()
        for j in (reversed(range(len(asked))) if backwards else range(len(asked))):
            lines[i, j] = repr(ask(obj, *asked[j]))
    with os.fdopen(out, 'w') as f:
        for i, (recipe, asked) in enumerate(batch):
            for j, (name, args) in enumerate(asked):
                f.write(f'{recipe} {name} {args}\t{lines[i, j]}\n')


def make_batch(seed, count):
    import random
    batch = []
    for i in range(count):
        rng = random.Random(f'{seed}|batch|{i}')
        recipe = make_recipe(rng)
        asked = [(n, a) for n, a in questions(rng, recipe, recipe.build()) if n != 'hash']
        batch.append((recipe, asked))
    return batch


if __name__ == '__main__':
    main()
