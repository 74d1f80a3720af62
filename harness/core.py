"""Shared pieces of the harness: violations, statistics, element palettes."""
import json
import os
import sys


class Violation(Exception):
    """The code under test disagrees with the oracle."""


class HarnessError(BaseException):
    """Something is wrong with the harness or its environment, not with the code under test."""


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Stats:
    """Counts what the generated cases actually exercised."""

    def __init__(self):
        self.classes = {}
        self.nontrivial = False

    def hit(self, name, n=1):
        self.classes[name] = self.classes.get(name, 0) + n


def short(x, n=200):
    try:
        s = repr(x)
    except BaseException as e:  # a broken repr must not hide the violation
        s = '<repr failed: %s>' % type(e).__name__
    return s if len(s) <= n else s[:n] + '...(%d chars)' % len(s)


def same_items(a, b):
    """Two sequences hold the same objects (identity) in the same order."""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x is not y:
            return False
    return True


def attempt(fn, *args, **kw):
    """('ok', value) or ('exc', exception).  Only Exception subclasses: others escape."""
    try:
        return 'ok', fn(*args, **kw)
    except Violation:
        raise
    except Exception as e:
        return 'exc', e


def expect_exc(types, fn, *args, **kw):
    """fn must raise one of `types`; returns the exception."""
    kind, val = attempt(fn, *args, **kw)
    if kind == 'ok':
        fail('expected %s, got result %s', _names(types), short(val))
    if not isinstance(val, types):
        fail('expected %s, got %s', _names(types), short(val))
    return val


def _names(types):
    if isinstance(types, tuple):
        return '/'.join(t.__name__ for t in types)
    return types.__name__


# ---------------------------------------------------------------- elements

class Ident:
    """Compared and hashed by identity."""
    __slots__ = ('n', '__weakref__')

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'Ident(%d)' % self.n


class Coll:
    """Equal by number; the hash has few distinct values, so buckets collide."""
    __slots__ = ('n', 'h')

    def __init__(self, n, h=7):
        self.n = n
        self.h = h

    def __eq__(self, other):
        if isinstance(other, Coll):
            return self.n == other.n
        return NotImplemented

    def __hash__(self):
        return self.h

    def __repr__(self):
        return 'Coll(%d,%d)' % (self.n, self.h)

    def __reduce__(self):
        return Coll, (self.n, self.h)

    def __lt__(self, other):
        return self.n < other.n


class BadNe:
    """__eq__ is right, __ne__ always answers True (see issue #268 of the project)."""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        if isinstance(other, BadNe):
            return self.n == other.n
        return NotImplemented

    def __ne__(self, other):
        return True

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return 'BadNe(%d)' % self.n

    def __reduce__(self):
        return BadNe, (self.n,)


BIG = 2 ** 61 - 1          # hash(BIG) == 0
_KEYS = [
    0, 1, 2, -1, -2, 'a', 'b', '', None, True, False, 1.0, 0.0, 2.5,
    BIG, BIG + 1, 8, 16, 32, 64, 128, 256, 1024, 2048,
    (), (1, 2), (1, 'a'), ('a', ('b', None)), frozenset([1, 2]), frozenset(),
    b'x', 'abc', 'key', '_cached', 'x1',
    Coll(1), Coll(2), Coll(3), Coll(4), Coll(5), Coll(6, 15), Coll(7, 15), Coll(8, 7), Coll(9, 1031),
    Coll(1), Coll(2),       # equal to, but not the same objects as, the earlier ones
    BadNe(1), BadNe(2), BadNe(9), BadNe(1),
    Ident(1), Ident(2), Ident(3),
    int, len, 10 ** 30, -10 ** 30, 1 + 2j, 'a' * 40,
    1099511627776, 'set', 'update', 'size', 'items2', '_size2',
]
KEYS = list(_KEYS)
NKEYS = len(KEYS)


def key(n):
    """Map a number to a hashable element with reflexive ==.  0..NKEYS-1: the palette, above: ints/strings."""
    if n < NKEYS:
        return KEYS[n]
    n -= NKEYS
    r = n % 4
    if r == 0:
        return n // 4 + 100
    if r == 1:
        return 'k%d' % (n // 4)
    if r == 2:
        return Coll(100 + n // 4, (n // 4) % 3)
    return (n // 4) * 64


_VALS = [None, 0, 1, True, 1.0, 'v', '', (), (1,), -1, 2, 3, 'w', Ident(100), Ident(101), 2.5, False]


def val(n):
    """Any object, hashable, with reflexive ==."""
    if n < len(_VALS):
        return _VALS[n]
    return n


def config():
    return os.environ.get('VERIF_CONFIG', '?')


def dumps(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))
