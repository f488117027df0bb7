"""Class-wide hooks, attached at run time in the checking process.

Each hook observes every call of a public operation, also the calls that the library makes internally, and lets a
reference model judge the result.  Hooks read public attributes only and never call back while one is active.
"""
import functools

from lib import core

STORE = None
_busy = False
_installed = set()


def reset():
    global _busy
    _busy = False


def _judge(monitor, check):
    """runs `check`, which returns None (not applicable), '' (fine) or a message (violation)"""
    global _busy
    if _busy or core.CURRENT is None:
        return
    _busy = True
    try:
        msg = check()
    finally:
        _busy = False
    if msg is None:
        return
    core.CURRENT.store.hook_events[monitor] += 1
    if msg:
        raise core.Violation('hook:' + monitor, msg)


def after(cls, name, monitor, check):
    """after each call of cls.name: check(result, self, args, kwargs)"""
    key = (cls, name, monitor)
    if key in _installed:
        return
    _installed.add(key)
    orig = getattr(cls, name)

    @functools.wraps(orig)
    def wrapper(self, *args, **kwargs):
        result = orig(self, *args, **kwargs)
        if not _busy and core.CURRENT is not None:
            _judge(monitor, lambda: check(result, self, args, kwargs))
        return result

    setattr(cls, name, wrapper)


# ------------------------------------------------------------------ Binv

def install_binv():
    from discretehelpers.binv import Binv

    def invariant(_, self, args, kwargs):
        v = self.vector
        if not isinstance(v, list) or not all(type(e) is bool for e in v):
            return f'entries are not plain bools: {v!r}'
        need = max([i for i, b in enumerate(v) if b], default=-1) + 1
        if self.required_length != need:
            return f'required length {self.required_length} of {v}'
        return ''

    after(Binv, '__init__', 'binv-invariant', invariant)

    def bitwise(op):
        def check(result, self, args, kwargs):
            other = args[0]
            a, b = self.vector, getattr(other, 'vector', None)
            if b is None or len(a) != len(b):
                return None
            want = [op(x, y) for x, y in zip(a, b)]
            return '' if list(result.vector) == want else f'{self} {op.__name__} {other} gave {result}'
        return check

    import operator
    after(Binv, '__and__', 'binv-and', bitwise(operator.and_))
    after(Binv, '__or__', 'binv-or', bitwise(operator.or_))
    after(Binv, '__xor__', 'binv-xor', bitwise(operator.xor))


# ------------------------------------------------------------------ Perm

def _period(p):
    return None if p.perilen is None else int(p.perilen)


def install_perm():
    from discretehelpers.perm import Perm

    def invariant(_, self, args, kwargs):
        if type(self) is not Perm:
            return None
        m = {int(k): int(v) for k, v in self.mapping.items()}
        if sorted(m) != sorted(m.values()):
            return f'mapping is no permutation: {m}'
        if any(k == v for k, v in m.items()):
            return f'mapping contains fixed points: {m}'
        if bool(self.neutral) != (not m):
            return f'neutral is {self.neutral} for {m}'
        per = _period(self)
        if not m:
            return '' if per is None else f'neutral permutation with period {per}'
        if per is not None:
            if max(m) >= per:
                return f'moved points beyond the period {per}: {m}'
            for d in range(1, per):
                if per % d == 0 and all(m.get((k + d) % per, (k + d) % per) % d == m[k] % d
                                        and m.get(k % d, k % d) + (k - k % d) == m[k] for k in m) \
                        and all(m.get(k % d + j * d, k % d + j * d) == m.get(k % d, k % d) + j * d
                                for k in range(d) for j in range(per // d)):
                    return f'period {per} is not minimal ({d}): {m}'
        return ''

    after(Perm, '__init__', 'perm-invariant', invariant)

    def product(result, self, args, kwargs):
        other = args[0]
        if not isinstance(other, Perm) or type(self).__name__ == 'SigPerm' or type(other).__name__ == 'SigPerm':
            return None
        pa, pb = _period(self), _period(other)
        if pa is not None and pb is not None:
            import math
            n = min(2 * math.lcm(pa, pb), 4000)
        else:
            n = max(pa or self.length if pa is None else pa, pb or other.length if pb is None else pb) + 2
        for i in range(n):
            if result[i] != self[other[i]]:
                return f'({self}) * ({other}) maps {i} to {result[i]}, not {self[other[i]]}'
        return ''

    after(Perm, '__mul__', 'perm-product', product)


# ------------------------------------------------------------------ SetPart

def install_set_part():
    from discretehelpers.set_part import SetPart

    def invariant(_, self, args, kwargs):
        blocks = self.blocks
        if blocks != sorted(sorted(b) for b in blocks):
            return f'blocks are not in canonical order: {blocks}'
        if any(len(b) < 2 for b in blocks):
            return f'singleton among the blocks: {blocks}'
        el = [e for b in blocks for e in b]
        if len(set(el)) != len(el):
            return f'blocks overlap: {blocks}'
        if set(self.non_singletons) != set(el):
            return f'non-singletons {self.non_singletons} of {blocks}'
        return ''

    after(SetPart, '__init__', 'set-partition-invariant', invariant)


# ------------------------------------------------------------------ Boolf

def install_boolf():
    from discretehelpers.boolf import Boolf

    def invariant(_, self, args, kwargs):
        if kwargs.get('skip_deflation'):
            return None
        av = [int(a) for a in self.atomvals]
        bits = [bool(b) for b in self.root.vector]
        if av != sorted(set(av)) or any(a < 0 for a in av):
            return f'arguments are not ascending: {av}'
        if len(bits) != 2 ** len(av):
            return f'table of length {len(bits)} for arguments {av}'
        for k in range(len(av)):
            if all(bits[i] == bits[i ^ (1 << k)] for i in range(len(bits))):
                return f'redundant argument {av[k]} kept in {bits} over {av}'
        return ''

    after(Boolf, '__init__', 'boolf-canonical', invariant)

    def table(f):
        return [int(a) for a in f.atomvals], [bool(b) for b in f.root.vector]

    def value(t, ones):
        av, bits = t
        return bits[sum(1 << k for k, a in enumerate(av) if a in ones)]

    def bitwise(op):
        def check(result, self, args, kwargs):
            other = args[0]
            if not isinstance(other, Boolf):
                return None
            a, b, r = table(self), table(other), table(result)
            universe = sorted(set(a[0]) | set(b[0]) | set(r[0]))
            if len(universe) > 8:
                return None
            for n in range(2 ** len(universe)):
                ones = {u for k, u in enumerate(universe) if n >> k & 1}
                if value(r, ones) != op(value(a, ones), value(b, ones)):
                    return f'({self}) {op.__name__} ({other}) gave {result}'
            return ''
        return check

    import operator
    after(Boolf, '__and__', 'boolf-and', bitwise(operator.and_))
    after(Boolf, '__or__', 'boolf-or', bitwise(operator.or_))
    after(Boolf, '__xor__', 'boolf-xor', bitwise(operator.xor))

    def inverted(result, self, args, kwargs):
        (a, x), (b, y) = table(self), table(result)
        return '' if a == b and x == [not e for e in y] else f'~({self}) gave {result}'

    after(Boolf, '__invert__', 'boolf-not', inverted)
