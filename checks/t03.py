from discretehelpers.set_part import SetPart
from discretehelpers.ex import ArgTypeError, ArgValueError

from lib import hooks
from lib.core import scenario
from lib.errors import error
from lib.gen import domain_of
from lib.ref import RefPart

LabelContradictionError = error('set_part.methods.block_labels.ex', 'LabelContradictionError', ValueError)
UnknownBlockError = error('set_part.methods.block_labels.ex', 'UnknownBlockError', ValueError)
UnknownElementError = error('set_part.methods.block_labels.ex', 'UnknownElementError', ValueError)

PROPERTY = 'T03'
RULE = ('Each case runs a random history of labelling, merging, refining and refused operations on a labelled partition next to a reference relation with a label per block, '
        'and compares every label view after every step, accepted or refused. A state is the set of blocks with labels; trivial without labels.')
REQUIRED = ['labels', 'label-of-element', 'label-of-block', 'block-of-label', 'label-block', 'label-element', 'label-merges', 'merge-keeps-label', 'contradiction-refused', 'merge-refused',
            'refine-relabels', 'refine-refused', 'unknown-refused', 'group-refused', 'built-with-labels', 'labels-combined', 'set-partition-invariant']

LABELS = ['red', 'green', 'blue', '', 0, 7, (1, 2), 'long label', -1, (0,)]


def prepare():
    hooks.install_set_part()


class Model:
    def __init__(self, kind, el):
        self.kind, self.el, self.rel, self.label = kind, el, RefPart(), {}

    def canonical(self):
        non = self.rel.elements()
        if self.kind == 'N':
            base = range(max(non) + 1) if non else []
        elif self.kind == 'Z':
            base = range(min(non), max(non) + 1) if non else []
        else:
            base = self.el
        return {self.rel.block(e) for e in base}

    def of(self, e):
        return self.label.get(self.rel.block(e))

    def merge(self, a, b):
        x, y = self.rel.block(a), self.rel.block(b)
        if x != y:
            lab = self.label.pop(x, None)
            lab = self.label.pop(y, None) if lab is None else lab
            self.rel.merge(a, b)
            if lab is not None:
                self.label[self.rel.block(a)] = lab

    def clash(self, a, b):
        return self.rel.block(a) != self.rel.block(b) and self.of(a) is not None and self.of(b) is not None


def watch(c, p, m, *ctx):
    c.eq('blocks', p.blocks, m.rel.blocks(), *ctx)
    want = {tuple(sorted(b)): lab for b, lab in m.label.items()}
    c.eq('labels', dict(p.block_labels), want, *ctx)
    for e in m.el:
        lab = m.of(e)
        c.eq('label-of-element', p.get_label_from_element(e), lab, e, *ctx)
        blk = sorted(m.rel.block(e))
        c.eq('label-of-block', p.get_label_from_block(c.rng.choice([list, tuple])(blk)), lab, blk, *ctx)
        if lab is not None:
            c.eq('block-of-label', list(p.get_block_from_element(e)), blk, e, *ctx)
    used = {lab: sorted(b) for b, lab in m.label.items()}
    for lab in LABELS:
        got = p.get_block_from_label(lab)
        c.eq('block-of-label', None if got is None else list(got), used.get(lab), lab, *ctx)


def step(c, p, m):
    rng = c.rng
    r = rng.random()
    el = m.el
    used = {lab: b for b, lab in m.label.items()}
    if r < .22:                                   # label for an element
        e, lab = rng.choice(el), rng.choice(LABELS)
        old = m.of(e)
        txt = f'label element {e} {lab!r}'
        if old is not None and old != lab:
            c.raises('contradiction-refused', lambda: p.add_label_to_element(e, lab), LabelContradictionError, txt)
        elif lab in used:
            p.add_label_to_element(e, lab)
            m.merge(e, min(used[lab]))
            c.hit('label-merges')
        elif m.rel.block(e) in m.canonical():
            p.add_label_to_element(e, lab)
            m.label[m.rel.block(e)] = lab
            c.hit('label-element')
        else:
            c.raises('unknown-refused', lambda: p.add_label_to_element(e, lab), (UnknownBlockError, UnknownElementError), txt)
        return txt
    if r < .38:                                   # label for a block
        e, lab = rng.choice(el), rng.choice(LABELS)
        b = m.rel.block(e)
        arg = rng.choice([list, tuple])(sorted(b))
        txt = f'label block {arg} {lab!r}'
        if b not in m.canonical():
            c.raises('unknown-refused', lambda: p.add_label_to_block(arg, lab), UnknownBlockError, txt)
        elif b in m.label and m.label[b] != lab:
            c.raises('contradiction-refused', lambda: p.add_label_to_block(arg, lab), LabelContradictionError, txt)
        elif lab in used and used[lab] != b:
            c.raises('contradiction-refused', lambda: p.add_label_to_block(arg, lab), Exception, txt)
        else:
            p.add_label_to_block(arg, lab)
            m.label[b] = lab
            c.hit('label-block')
        return txt
    if r < .43:                                   # not a block
        b = sorted(rng.sample(el, min(len(el), rng.randint(1, 3))))
        txt = f'label non-block {b}'
        if frozenset(b) not in m.canonical():
            c.raises('unknown-refused', lambda: p.add_label_to_block(b, 'wrong'), UnknownBlockError, txt)
        out = {'N': -1, 'Z': .5}.get(m.kind, 'zzz')
        c.raises('unknown-refused', lambda: p.add_label_to_element(out, 'wrong'), UnknownElementError, txt)
        return txt
    if r < .68:                                   # merge
        a, b = rng.choice(el), rng.choice(el)
        txt = f'merge {a} {b}'
        if m.clash(a, b):
            c.raises('merge-refused', lambda: p.merge_pair(a, b), LabelContradictionError, txt)
        else:
            if m.of(a) is not None or m.of(b) is not None:
                c.hit('merge-keeps-label')
            p.merge_pair(a, b)
            m.merge(a, b)
        return txt
    if r < .78:                                   # merge many
        many = [rng.choice(el) for _ in range(rng.randint(2, 4))]
        txt = f'merge many {many}'
        full = RefPart(m.rel.blocks())
        for e in many:
            full.merge(many[0], e)
        labs = {m.of(e) for e in many if m.of(e) is not None}
        if len(labs) > 1:
            old = m.rel.copy()
            c.raises('group-refused', lambda: p.merge_many(many), LabelContradictionError, txt)
            now = RefPart(p.blocks)
            c.true('group-refused', old.refines(now) and now.refines(full), txt)
            # merges before the contradiction may have happened: the labels must have moved with their blocks
            label = {}
            for b, lab in m.label.items():
                label[now.block(min(b))] = lab
            c.true('group-refused', len(label) == len(m.label), txt)
            m.rel, m.label = now, label
        else:
            p.merge_many(many)
            for e in many[1:]:
                m.merge(many[0], e)
        return txt
    blocks = m.rel.blocks()
    if not blocks:
        return 'nothing'
    b = list(rng.choice(blocks))
    rng.shuffle(b)
    parts, rest = [], list(b)
    while rest:
        k = rng.randint(1, len(rest))
        parts.append(rest[:k])
        rest = rest[k:]
    if r < .92:
        free = [lab for lab in LABELS if lab not in used or used[lab] == frozenset(b)]
        give = rng.random() < .7 and len(free) >= len(parts)
        labels = rng.sample(free, len(parts)) if give else None
        txt = f'refine {parts} {labels}'
        if give:
            p.refine_block(parts, labels) if rng.random() < .5 else p.refine_block(new_blocks=tuple(parts), new_labels=tuple(labels))
        else:
            p.refine_block(parts)
        m.label.pop(frozenset(b), None)
        m.rel.refine(parts)
        if give:
            for q, lab in zip(parts, labels):
                m.label[frozenset(q)] = lab
        c.hit('refine-relabels')
        return txt
    txt = f'bad refine {parts}'
    c.raises('refine-refused', lambda: p.refine_block(parts, ['x'] * (len(parts) + 1)), ArgValueError, txt)
    c.raises('refine-refused', lambda: p.refine_block(parts, {'x': 1}), ArgTypeError, txt)
    others = [lab for lab, q in used.items() if q != frozenset(b)]
    if others:
        free = [f'new {i}' for i in range(len(parts))]
        free[rng.randrange(len(free))] = rng.choice(others)
        c.raises('refine-refused', lambda: p.refine_block(parts, free), Exception, txt, free)
    if len(parts) > 1:
        c.raises('refine-refused', lambda: p.refine_block(parts, ['same'] * len(parts)), Exception, txt)
    return txt


@scenario(quick=14000, thorough=120000)
def histories(c):
    rng = c.rng
    kind, dom, el = domain_of(rng)
    el = el[:9]
    if kind not in 'NZ':
        dom = set(el)
    m = Model(kind, el)
    for _ in range(rng.choice([0, 2, 4])):
        m.rel.merge(rng.choice(el), rng.choice(el))
    p = SetPart(m.rel.blocks(), dom)
    log = []
    for _ in range(rng.randint(4, 30)):
        log.append(step(c, p, m))
        c.note(log[-1])
        watch(c, p, m, kind, log[-4:])
        c.state(tuple(sorted((str(sorted(b)), str(lab)) for b, lab in m.label.items())), trivial=not m.label)
    c.sample(f'{kind}: {"; ".join(log[:6])}')


@scenario(quick=5000, thorough=40000)
def built_with_labels(c):
    rng = c.rng
    kind, dom, el = domain_of(rng)
    el = el[:9]
    if kind not in 'NZ':
        dom = set(el)
    m = Model(kind, el)
    for _ in range(rng.choice([2, 4, 6])):
        m.rel.merge(rng.choice(el), rng.choice(el))
    blocks = m.rel.blocks()
    labs = rng.sample(LABELS, len(blocks))
    given = {tuple(b): lab for b, lab in zip(blocks, labs) if rng.random() < .7}
    m.label = {frozenset(b): lab for b, lab in given.items()}
    p = SetPart(blocks, dom, dict(given))
    q = SetPart(blocks, domain=dom, block_labels=given)
    c.hit('built-with-labels')
    watch(c, p, m, 'built')
    txt = step(c, p, m)
    watch(c, p, m, txt)
    m2 = Model(kind, el)
    m2.rel, m2.label = RefPart(blocks), {frozenset(b): lab for b, lab in zip(blocks, labs) if tuple(b) in given}
    watch(c, q, m2, 'other object with the same labels')
    c.eq('labels', given, {tuple(sorted(b)): lab for b, lab in m2.label.items()}, 'dictionary given')
    # meet and join: a label of the result, if there is one, belongs to one of its blocks; the operands keep theirs
    rel = RefPart()
    for _ in range(rng.choice([1, 2, 4])):
        rel.merge(rng.choice(el), rng.choice(el))
    o = SetPart(rel.blocks(), dom)
    for r in (q.join(o), q.meet(o), o.join(q), o.meet(q), q.join(p)):
        for e in el:
            lab = r.get_label_from_element(e)
            if lab is not None:
                c.eq('labels-combined', r.get_block_from_label(lab), sorted(r.element_to_block(e)), blocks, rel.blocks(), given)
        for lab in labs:
            b = r.get_block_from_label(lab)
            c.true('labels-combined', b is None or sorted(r.element_to_block(b[0])) == sorted(b), lab, b, r.blocks, blocks, rel.blocks(), given)
    watch(c, q, m2, 'after meet and join')
    watch(c, p, m, 'after meet and join')
    c.state('built', str(blocks), str(given), trivial=not given)
