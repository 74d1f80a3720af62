"""Elements and helpers for vector checks."""
import operator
import core
from core import fail, check, short

ELEMS = list(range(10000, 10000 + 70000))     # distinct int objects, compared by identity below


def content(size, pat, off):
    """The elements of a generated vector: pattern 0 distinct, 1 five values repeated, 2 palette."""
    pat %= 3
    if pat == 0:
        return ELEMS[off:off + size]
    if pat == 1:
        five = ELEMS[off:off + 5]
        return (five * (size // 5 + 1))[:size]
    return [core.val(i) for i in range(off, off + size)]


def elem(tok):
    if tok < 24:
        return ELEMS[tok]
    return core.val(tok - 24)


def same(a, b):
    return len(a) == len(b) and all(map(operator.is_, a, b))


def check_vec(v, m, what, deep=True):
    """v holds exactly the objects of the list m."""
    n = len(m)
    if len(v) != n:
        fail('%s: len is %s, expected %d', what, len(v), n)
    l = v.tolist()
    if type(l) is not list or not same(l, m):
        fail('%s: tolist differs: %s', what, diff(l, m))
    if not deep:
        return
    if n <= 3000 or True:
        l = list(v)
        if not same(l, m):
            fail('%s: iteration differs: %s', what, diff(l, m))
    if bool(v) != bool(m):
        fail('%s: truth value', what)
    if n <= 70:
        rng = range(n)
    else:
        t = ((n - 1) // 32) * 32
        rng = sorted({i for i in (0, 1, 31, 32, 33, n // 2, n // 3, t - 33, t - 32, t - 1, t, t + 1, n - 33, n - 32,
                                  n - 2, n - 1, 1023, 1024, 1055, 1056, 32767, 32768, 32799, 32800) if 0 <= i < n}
                     | set(range(n % 37, n, 37 if n < 3000 else 997 if n < 100000 else 19997)))
    for i in rng:
        if v[i] is not m[i]:
            fail('%s: [%d] is %s, expected %s', what, i, short(v[i]), short(m[i]))
        if v[i - n] is not m[i]:
            fail('%s: [%d] is %s, expected %s', what, i - n, short(v[i - n]), short(m[i]))


def diff(a, b):
    if len(a) != len(b):
        return 'length %d, expected %d' % (len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        if x is not y:
            return 'at %d: %s, expected %s' % (i, short(x), short(y))
    return 'no difference?'


def iterable_of(kind, items, pvector):
    """The same items as various kinds of iterables."""
    kind %= 10
    if kind == 0:
        return list(items)
    if kind == 1:
        return tuple(items)
    if kind == 2:
        return (x for x in items)
    if kind == 3:
        return iter(list(items))
    if kind == 4:
        return pvector(items)
    if kind == 5:
        return dict.fromkeys(range(len(items)), None) and _Seq(items) or []
    if kind == 6:
        return map(lambda x: x, items)
    if kind == 7:
        return typed(items)
    if kind == 8:
        from pyrsistent import plist
        return plist(items)
    from pyrsistent._pvector import python_pvector
    return python_pvector(items)


_typed = {}


def typed(items):
    """A checked vector that accepts only elements of the types of these."""
    from pyrsistent import CheckedPVector
    ts = tuple(sorted({type(x) for x in items}, key=lambda t: t.__name__)) or (dict,)
    if ts not in _typed:
        _typed[ts] = type(CheckedPVector)('Typed', (CheckedPVector,), {'__type__': ts})
    return _typed[ts](items)


class _Seq:
    """Old-style sequence: only __getitem__ and __len__."""

    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]
