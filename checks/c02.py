from discretehelpers.boolf import Boolf
from discretehelpers.set_part_comp import SetPartComp

from lib import hooks
from lib.core import scenario
from lib.ref import RefComp

PROPERTY = 'C02'
RULE = ('Consistent random constraint sets on natural numbers (dense and sparse, built by declarations or at once) are turned into functions and matched with integers; every assignment of the constrained places is compared with direct evaluation of the constraints. '
        'A state is the closed relation; trivial when nothing is related.')
REQUIRED = ['matches', 'matches-large', 'function', 'arguments', 'function-true-places', 'unchanged', 'boolf-canonical']


def prepare():
    hooks.install_set_part()
    hooks.install_boolf()


@scenario(quick=1500, thorough=20000)
def constraints(c):
    rng = c.rng
    n = rng.choice([3, 4, 5, 6, 7] if c.tier == 'quick' else [3, 4, 5, 6, 7, 8])
    el = rng.sample(range(rng.choice([n, n + 2, 3 * n, 40]) if rng.random() < .95 else 300), n)
    m, p = RefComp(), SetPartComp()
    kinds = rng.choice([[0, 1], [0, 1], [0, 0, 0, 0, 0, 1], [1]])
    for _ in range(rng.randint(0, n) if rng.random() < .8 else 3 * n):
        a, b = rng.choice(el), rng.choice(el)
        k = rng.choice(kinds)
        if a == b or m.relation(a, b) == 1 - k:
            continue
        m.declare(a, b, k)
        (p.set_comp if k else p.set_equal)(a, b)
    if rng.random() < .3:
        p = SetPartComp(m.blocks(), set(m.reps()))
    rel = m.related()
    flat = sorted(e for b in rel for e in b)
    eqs = [(a, b) for a in flat for b in flat if a < b and m.relation(a, b) == 0]
    cps = [(a, b) for a in flat for b in flat if a < b and m.relation(a, b) == 1]
    c.state(str(m.blocks()), str(sorted(m.reps())), trivial=not rel)
    c.sample(str(p))
    text = str(p)

    def holds(x):
        return all(x >> a & 1 == x >> b & 1 for a, b in eqs) and all(x >> a & 1 != x >> b & 1 for a, b in cps)

    # integers
    for _ in range(12):
        x = rng.getrandbits(rng.choice([1, 3, n, 12, 45]))
        if rng.random() < .6:                      # make it match, then perhaps spoil one digit
            for b in rel:
                v = rng.getrandbits(1)
                for e, s in m.component(b[0]).items():
                    x = x & ~(1 << e) | (v ^ s) << e
            if rng.random() < .4 and flat:
                x ^= 1 << rng.choice(flat)
        c.eq('matches', bool(p.int_matches(x)), holds(x), x, text)
    c.eq('matches', bool(p.int_matches(0)), holds(0), text)
    big = rng.getrandbits(120)
    c.eq('matches-large', bool(p.int_matches(big)), holds(big), big, text)
    # function
    f = p.boolf()
    c.eq('arguments', [int(a) for a in f.atomvals], flat, text)
    if len(flat) <= 8:
        for k in range(2 ** len(flat)):
            x = sum((k >> i & 1) << a for i, a in enumerate(flat))
            c.eq('function', bool(f.root.vector[k]), holds(x), k, text)
            c.eq('matches', bool(p.int_matches(x)), holds(x), x, text)
        if flat:
            t = f.tt(flat)
            c.eq('function-true-places', sorted(t.exposet), [k for k in range(2 ** len(flat)) if holds(sum((k >> i & 1) << a for i, a in enumerate(flat)))], text)
        else:
            c.true('function', f == Boolf('1'), text)
    c.eq('unchanged', str(p), text)
    # the function is the conjunction of the single constraints
    g = Boolf(True)
    for a, b in eqs:
        g = g & Boolf('1001', [a, b])
    for a, b in cps:
        g = g & Boolf('0110', [a, b])
    c.true('function', f == g, text)
