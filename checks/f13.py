import contextlib
import io
import re
from fractions import Fraction
from itertools import combinations, product
from math import lcm


from lib import gen, hooks, orbits
from lib.bf import lib, striped
from lib.core import scenario
from lib.errors import error
from lib.ref import RefF

BlightError = error('boolf.methods.wiki_table_row.ex', 'BlightError', Exception)
SpreadError = error('boolf.methods.wiki_table_row.ex', 'SpreadError', Exception)
VFractERROR = error('boolf.methods.wiki_table_row.ex', 'VFractERROR', Exception)

PROPERTY = 'F13'
RULE = ('All functions of up to 3 arguments and structured random ones of up to 6 are rendered as table rows, listings of segments and hypersplits and signed adjacency matrices; clan tables are rendered for functions of up to 3 (rarely 4) arguments. '
        'The text is parsed, and every number, fraction, truth table, signed sequence, mark and span in it is compared with direct computation. A state is the function with the kind of report; trivial for constants.')
REQUIRED = ['row', 'row-refused', 'table-header', 'table-rows', 'table-cells', 'table-marks', 'table-triples', 'table-spans', 'table-keys', 'segments-text', 'links-text', 'hypersplits-text', 'cores-text', 'adjacency', 'names', 'names-refused', 'boolf-canonical']


def prepare():
    hooks.install_boolf()


def printed(fn):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        fn()
    return out.getvalue()


def columns(r):
    full = [x for x, b in enumerate(r.bits) if b]
    return full, [tuple(x >> i & 1 for x in full) for i in range(r.valency)]


def blight(r):
    full, col = columns(r)
    neg = lambda t: tuple(1 - v for v in t)
    return any(len(set(k)) < 2 for k in col) or any(a in (b, neg(b)) for a, b in combinations(col, 2))


def bundles(r):
    full, col = columns(r)
    comp = []
    for i in range(r.valency):
        linked = [b for b in comp if any(len(set(zip(col[i], col[j]))) == 4 for j in b)]
        comp = [b for b in comp if b not in linked] + [sum(linked, [i])]
    return comp


@scenario(quick=5000, thorough=40000)
def rows(c):
    rng = c.rng
    r = striped(c, rng, gen, top=7)
    if not r.atoms:
        return
    if rng.random() < .6:
        r = r.root()
    f = lib(r)
    c.note(repr(r))
    c.state('row', r.key)
    name = rng.choice(['abc', '', 'x|y', '[[link]]'])
    b, n = r.bits, r.valency
    length = 1 << n
    value = Fraction(sum(int(v) << (length - 1 - i) for i, v in enumerate(b)), (1 << length) - 1)
    if blight(r):
        c.raises('row-refused', lambda: f.wiki_table_row(name), BlightError, r)
        return
    if r.atoms != tuple(range(n)):
        c.raises('row-refused', lambda: f.wiki_table_row(name), SpreadError, r)
        return
    if value == Fraction(1, 2):
        c.raises('row-refused', lambda: f.wiki_table_row(name), VFractERROR, r)
        return
    text = f.wiki_table_row(name)
    cells = re.findall(r'^\|class="([^"]*)"\| ?(.*)$', text, re.M)
    c.eq('row', len(cells), 12, r, text)
    z = orbits.zhe(r)
    w = Fraction(sum(b), length)

    def size(*numbers):
        digits = max(len(str(v)) for v in numbers)
        return ['smaller'] if digits > 30 else ['small'] if digits > 15 else []

    def half(v):
        return 'below-half' if v < Fraction(1, 2) else 'above-half' if v > Fraction(1, 2) else 'exactly-half'
    frac = size(value.numerator, value.denominator)
    want = [(['zhegalkin', 'odd' if z % 2 else 'even'] + size(z), str(z)),
            (['fraction', 'num'] + frac, str(value.numerator)), (['fraction', 'den'] + frac, str(value.denominator)),
            (['fraction', 'dec', half(value)], None),
            (['weight', 'num', 'reduced'], str(w.numerator)), (['weight', 'den', 'reduced'], str(w.denominator)),
            (['weight', 'dec', half(w)], None),
            (['weight', 'num', 'unreduced'], str(sum(b))), (['weight', 'den', 'unreduced'], str(length)),
            (['arity'], str(n)), (['bundles'] + (['uni'] if len(bundles(r)) == 1 else []), str(len(bundles(r)))),
            (['names'], name)]
    for (cls, val), (wcls, wval) in zip(cells, want):
        c.eq('row', cls.split(), wcls, r, text)
        if wval is None:
            exact = value if 'fraction' in cls else w
            c.true('row', val.startswith('.') and abs(Fraction('0' + val) - exact) < Fraction(1, 10 ** 15), r, text)
        else:
            c.eq('row', val, wval, r, cls)


@scenario(quick=5000, thorough=40000)
def listings(c):
    rng = c.rng
    r = striped(c, rng, gen, top=5 if c.index % 50 else rng.choice([6, 6, 7]))
    if not r.atoms:
        return
    f = lib(r)
    n = r.valency
    c.note(repr(r))
    c.state('listing', r.key)
    names = rng.choice([None, rng.sample([f'n{i}' for i in range(n)], n)])
    nm = names or [chr(65 + a) for a in r.atoms]
    arg = {} if names is None else dict(atomnames=names)
    full, col = columns(r)
    sign = {-1: '−', 0: '0', 1: '+'}

    def groups(text):
        out, key = {}, None
        for line in text.splitlines():
            m = re.fullmatch(r'#+ (\d+)', line)
            if m:
                key = int(m[1])
                c.true('segments-text', key not in out, r, 'one heading per dimension')
                out[key] = []
            elif line.strip():
                out[key].append(line)
        return out

    def segments():
        col = f.find_segments()[1]
        got = groups(printed(lambda: col.print_segments(**arg)))
        want = {}
        for v in product((-1, 0, 1), repeat=n):
            free = [i for i in range(n) if v[i] == 0]
            base = sum(1 << i for i in range(n) if v[i] == 1)
            spots = sorted(base + sum(1 << i for i in s) for k in range(len(free) + 1) for s in combinations(free, k))
            if all(x in full for x in spots):
                want.setdefault(len(free), {}).setdefault(','.join(nm[i] for i in free), {})[''.join(sign[e] for e in v)] = spots
        for k in set(got) | set(want):
            parsed = {}
            for line in got.get(k, []):
                m = re.fullmatch(r'(\S*)\s+(\{.*\})', line)
                parsed[m[1]] = eval(m[2])
            c.eq('segments-text', parsed, want.get(k, {}), r, k)

    def hyper():
        full_pretty = f.hypersplits_pretty(**arg)
        got = groups(printed(lambda: f.hypersplits_pretty(print_only=True, **arg)))
        c.eq('hypersplits-text', {k: [eval(x) for x in v] for k, v in got.items()}, full_pretty, r)
        want = {}
        for k in range(1, n + 1):
            for s in combinations(range(n), k):
                blocks = {}
                for x in full:
                    blocks.setdefault(' '.join('−+'[x >> a & 1] + nm[a] for a in s), []).append(x)
                if len(blocks) == 1 << k:
                    want.setdefault(k, []).append(sorted((name, sorted(b)) for name, b in blocks.items()))
        c.eq('hypersplits-text', {k: sorted(sorted(d.items()) for d in v) for k, v in full_pretty.items() if v}, {k: sorted(v) for k, v in want.items()}, r)
        full_pretty = f.hypersplits_potential_cores_pretty(**arg)
        raw = f.hypersplits_potential_cores
        c.eq('cores-text', full_pretty, {k: [{'fixed': ''.join(nm[a] for a in d['fixed']), 'free': ''.join(nm[a] for a in d['free']),
                                              'determined': ' '.join(nm[a] + sign[v] for a, v in d['determined'].items()),
                                              'vectors': [''.join(sign[e] for e in v) for v in d['vectors']]} for d in lst] for k, lst in raw.items()}, r)
        got = groups(printed(lambda: f.hypersplits_potential_cores_pretty(print_only=True, **arg)))
        c.eq('cores-text', {k: [eval(x) for x in v] for k, v in got.items()}, full_pretty, r)

    def names_of_arguments():
        def filtrate(i, j):
            return ''.join('1' if any((x >> i & 1) + 2 * (x >> j & 1) == k for x in full) else '0' for k in range(4))
        words = {'1111': 'crossing', '1110': 'disjoint', '0111': 'universal', '0110': 'complementary', '1001': 'equal', '1011': 'subset', '1101': 'subset'}
        want = {}
        for i, j in combinations(range(n), 2):
            k = filtrate(i, j)
            want.setdefault(words.get(k, k), []).append((nm[j], nm[i]) if k == '1101' else (nm[i], nm[j]))
        got = f.filtrated_pairs_pretty(**arg)
        c.eq('names', {k: sorted(v) for k, v in got.items()}, {k: sorted(v) for k, v in want.items()}, r, names)
        links = {}
        for x, y in combinations(full, 2):
            if (x ^ y) & (x ^ y) - 1 == 0:
                links.setdefault(nm[(x ^ y).bit_length() - 1], []).append((x, y))
        got = f.fullspotlinks_by_atom_pretty(**arg)
        c.eq('links-text', {k: sorted(v) for k, v in got.items() if v}, {k: sorted(v) for k, v in links.items()}, r, names)
        lines = printed(lambda: f.fullspotlinks_by_atom_pretty(print_only=True, **arg)).splitlines()
        c.eq('links-text', {k.split(' ', 1)[1]: eval(v) for k, v in zip(lines[::2], lines[1::2])}, got, r, names)
        c.eq('names', f.fullspot_atoms_pretty(**arg), {x: [nm[k] for k in range(n) if x >> k & 1] for x in full}, r, names)
        if not blight(r):
            c.eq('names', f.bundles_pretty(**arg), [[nm[k] for k in b] for b in f.bundles], r, names)
        if names and n > 1:
            wrong = rng.choice([names[1:], names[1:] + names[1:2], names + ['more']])
            methods = [f.filtrated_pairs_pretty, f.fullspot_atoms_pretty, f.fullspotlinks_by_atom_pretty, f.find_segments()[1].print_segments]
            if not blight(r):
                methods += [f.bundles_pretty, f.hypersplits_pretty, f.hypersplits_potential_cores_pretty]
            for method in methods:
                c.raises('names-refused', lambda: method(atomnames=wrong), ValueError, r, wrong)

    def adjacency():
        places = [rng.randrange(2) for _ in range(n)]
        q = r.root()
        got = lib(q).diagonal_adjacency_matrix(rng.choice([list, tuple])(places))
        want = [[0 if a == b else -1 if places[bin(a ^ b).count('1') - 1] else 1 for b in full] for a in full]
        c.eq('adjacency', got.tolist(), want, q, places)

    sections = [adjacency, segments, names_of_arguments] + ([hyper] if not blight(r) else [])
    rng.shuffle(sections)
    for s in sections:
        s()


@scenario(quick=160, thorough=2500)
def clan_tables(c):
    rng = c.rng
    while True:
        n = rng.choice([1, 2, 3, 3]) if c.index % 40 or c.tier == 'quick' and c.index > 40 else 4
        if c.index % 40 == 20:                    # four arguments, symmetric: many permutations lead to each member
            layers = [rng.random() < .5 for _ in range(5)]
            r = RefF(range(4), [layers[bin(x).count('1')] for x in range(16)])
        else:
            r = RefF(range(n), gen.table(rng, n))
        if r.atoms and r.atoms == tuple(range(r.valency)):
            break
    n = r.valency
    f = lib(r)
    c.note(repr(r))
    everything = orbits.clan(r, n)
    members = set(everything.values())
    c.state('clan', frozenset(g.key for g in members))
    factions = {min(map(orbits.zhe, s)): {orbits.zhe(g) for g in s} for s in orbits.split(members, lambda g: orbits.faction(g, n).values())}
    families = {min(map(orbits.zhe, s)): {orbits.zhe(g) for g in s} for s in orbits.split(members, lambda g: orbits.family(g).values())}
    table = {orbits.zhe(g): g for g in members}
    triples = {}
    for (vn, p), g in everything.items():
        seq = orbits.perms(n)[p]
        kn = sum(1 << k for k in range(n) if vn >> seq[k] & 1)
        triples.setdefault(orbits.zhe(g), set()).add((kn, p, vn))

    text = printed(f.ec_clan_matrix_wiki)
    c.true('table-header', text.count('{|') == 1 and text.count('|}') == 1 and text.index('{|') < text.index('|}'), r)
    c.eq('table-header', '4-ary' in text, n == 4, r)
    head, *body = re.split(r'^\|-$', text[text.index('{|'):text.index('|}')], flags=re.M)[1:]
    size = {a: len(factions[a] & families[min(families)]) for a in factions}
    span = lcm(*size.values())
    cols = [(int(w), [int(x) for x in re.findall(r'Finite permutation number (\d+)\.svg', icons)], int(rep))
            for w, icons, rep in re.findall(r'^!colspan="(\d+)"[^|]*\|(.*?)<span class="neg-ec-min[^"]*">(\d+)</span>', head, re.M)]
    c.eq('table-header', cols, [(span, sorted({p for z in families[b] for _, p, _ in triples[z]}), b) for b in sorted(families)], r)
    c.eq('table-rows', len(body), len(factions), r)
    for a, part in zip(sorted(factions), body):
        field = dict(re.findall(r'^\|class="([\w-]+)[^"]*"\| ?(\S+)$', part, re.M))
        c.eq('table-rows', field, {'zhegalkin-weight': str(bin(a).count('1')), 'cardinality': str(len(factions[a])), 'perm-ec-min': str(a)}, r, a)
        keys = re.search(r'^! (.*)$', part, re.M)[1]
        by = {}
        for kn in sorted({k for z in factions[a] for k, _, _ in triples[z]}):
            by.setdefault(bin(kn).count('1'), []).append(kn)
        c.eq('table-keys', [int(x) for x in re.findall(r'<td>(\d+)</td>', keys)], sorted(by), r, a)
        c.eq('table-keys', [[int(x) for x in re.findall(r'number (\d+) in square', s)] for s in re.findall(r'<td><span class="number-icons">(.*?)</span></td>', keys)], [by[k] for k in sorted(by)], r, a)
        c.eq('table-keys', re.search(r'sortkey">&(\w+)<', keys)[1], f'{sum(by)}_{"".join(map(str, sorted(by)))}', r, a)
        cells = re.findall(r'^\|colspan="(\d+)"([^|]*)\|(.*?)<abbr class="zhegalkin([^"]*)" title="([01 ]*)&#10;([01 ]*)">(\d+)</abbr>(.*)$', part, re.M)
        c.eq('table-cells', len(cells), len(factions[a]), r, a)
        at = 0
        for b in sorted(families):
            mine = cells[at:at + size[a]]
            at += size[a]
            c.eq('table-cells', sorted(int(x[6]) for x in mine), sorted(factions[a] & families[b]), r, a, b)
            for i, (w, cls, venn, marks, zb, tb, z, rest) in enumerate(mine):
                z = int(z)
                bits = lambda v: ''.join(str(int(x)) for x in v)
                g = table[z]
                c.eq('table-cells', (zb.replace(' ', ''), tb.replace(' ', '')), (bits([z >> k & 1 for k in range(1 << n)]), bits(g.bits)), r, z)
                if n in (2, 3):
                    c.eq('table-cells', re.findall(r'Venn ?([01 ]+)\.svg', venn)[0].replace(' ', ''), bits(g.bits), r, z)
                c.eq('table-spans', int(w), span // size[a], r, a)
                c.eq('table-marks', ('base' in cls, 'border' in cls), (z == orbits.zhe(r), i == size[a] - 1), r, z)
                c.eq('table-marks', ('neg-ec-min' in marks, 'perm-ec-min' in marks), (z in families, z in factions), r, z)
                small(c, rest, triples[z], n, r, z)


def small(c, text, triples, n, *ctx):
    """the small table of the transformations leading to one function"""
    order = lambda s: sorted(s, key=lambda x: (bin(x).count('1'), x))
    kns, vns = order({t[0] for t in triples}), order({t[2] for t in triples})
    icons, rest = text.split('<table', 1)
    c.eq('table-triples', [int(x) for x in re.findall(r'Cube vertex number (\d+)\.svg', icons)], vns, *ctx)
    first, *trs = re.findall(r'<tr.*?</tr>', rest)
    c.eq('table-triples', [int(x) for x in re.findall(r'Cube vertex number (\d+)\.svg', first)], vns, *ctx)
    border = [j > 0 and bin(vns[j]).count('1') != bin(vns[j - 1]).count('1') for j in range(len(vns))]
    c.eq('table-marks', ['border' in x for x in re.findall(r'<th[^>]*>', first)[1:]], border, *ctx)
    c.eq('table-triples', len(trs), len(kns), *ctx)
    for i, (kn, tr) in enumerate(zip(kns, trs)):
        c.eq('table-triples', [int(x) for x in re.findall(r'number (\d+) in square', tr)], [kn], *ctx)
        c.eq('table-marks', 'border' in re.match(r'<tr[^>]*>', tr)[0], i > 0 and bin(kn).count('1') != bin(kns[i - 1]).count('1'), *ctx)
        tds = re.findall(r'<td([^>]*)>(.*?)</td>', tr)
        c.eq('table-triples', len(tds), len(vns), *ctx)
        c.eq('table-marks', ['border' in x for x, _ in tds], border, *ctx)
        for vn, (_, td) in zip(vns, tds):
            got = []
            for p, seq in re.findall(r'Finite permutation number (\d+)\.svg.*?<span class="sequence">\((.*?)\)</span>', td):
                got.append((int(p), [~int(e) if 'negated' in k else int(e) for k, e in re.findall(r'<span class="entry([^"]*)">(\d+)</span>', seq)]))
            want = [(p, orbits.negated(orbits.perms(n)[p], vn)) for k, p, v in sorted(triples) if (k, v) == (kn, vn)]
            c.eq('table-triples', got, want, *ctx, kn, vn)
