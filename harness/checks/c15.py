"""C15: a checked collection never contains an element that breaks its declaration."""
import copy
import enum
import numbers
import pickle
import sys
import types
from hypothesis import strategies as st
import core
from core import fail, check, short, attempt, expect_exc
from gen import *
from pyrsistent import (pvector, pmap, pset, CheckedPVector, CheckedPSet, CheckedPMap, CheckedKeyTypeError, CheckedValueTypeError,
                        InvariantException, optional, ny, discard, PVector, PSet, PMap)


class Foo:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return '%s(%d)' % (type(self).__name__, self.n)

    def __eq__(self, other):
        return isinstance(other, Foo) and self.n == other.n

    def __hash__(self):
        return hash(self.n)

    def __reduce__(self):
        return type(self), (self.n,)


class SubFoo(Foo):
    pass


# another module with a class of the same name
other = types.ModuleType('checks.c15x')
sys.modules['checks.c15x'] = other
other.Foo = type('Foo', (), {'__module__': 'checks.c15x', '__slots__': ('n',), '__init__': lambda self, n: setattr(self, 'n', n),
                             '__reduce__': lambda self: (type(self), (self.n,)), '__len__': lambda self: self.n,
                             '__eq__': lambda self, o: type(o) is type(self) and o.n == self.n, '__hash__': lambda self: hash(self.n)})


class Color(enum.Enum):
    RED = 1
    BLUE = 2


class Inner(CheckedPVector):
    __type__ = int
    __invariant__ = lambda n: (n < 50, 'inner')


class SubInner(Inner):
    pass


class Plain(CheckedPVector):
    pass


class PlainSet(CheckedPSet):
    pass


class PlainMap(CheckedPMap):
    pass


ELEMS = [0, 1, 2, 3, -1, 7, 13, 40, True, 'a', 'bb', '', 'ccc', None, 1.5, 2.5, Foo(1), Foo(2), SubFoo(3), SubFoo(4), Color.RED,
         Color.BLUE, Inner([1, 2]), Inner([]), SubInner([3]), Plain([1]), (1, 2), (), frozenset([1]), 10 ** 20, -5, 100, 101, 102,
         1.0, 2.0, 0.0, 3.0, 7.0, other.Foo(1), other.Foo(2)]            # equal to, but not of the type of, earlier ones
# type declarations: (what is declared, test)
TYPES = [
    (None, lambda x: True),
    (int, lambda x: isinstance(x, int)),
    ((int, str), lambda x: isinstance(x, (int, str))),
    (optional(int), lambda x: x is None or isinstance(x, int)),
    ('checks.c15.Foo', lambda x: isinstance(x, Foo)),
    (Color, lambda x: isinstance(x, Color)),
    ([int, 'checks.c15.SubFoo', Color], lambda x: isinstance(x, (int, SubFoo, Color))),
    (Inner, lambda x: isinstance(x, Inner)),
    (numbers.Number, lambda x: isinstance(x, numbers.Number)),
    ((Inner, str), lambda x: isinstance(x, (Inner, str))),
    (str, lambda x: isinstance(x, str)),
    ('checks.c15x.Foo', lambda x: isinstance(x, other.Foo)),
    (['checks.c15.Foo', 'checks.c15x.Foo'], lambda x: isinstance(x, (Foo, other.Foo))),
    ((int, (str, (Foo,))), lambda x: isinstance(x, (int, str, Foo))),
    ((str, bytes, Color, 'checks.c15.Foo', int), lambda x: isinstance(x, (str, Color, Foo, int))),
    ((tuple, (frozenset, dict), numbers.Number, None.__class__, SubFoo), lambda x: isinstance(x, (tuple, frozenset, numbers.Number, SubFoo)) or x is None),
]


def score(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (int, float)):
        return int(x) % 97
    if isinstance(x, Foo):
        return x.n
    if isinstance(x, Color):
        return x.value
    if x is None:
        return 4
    return len(x)


def lazy(x):
    return lambda: ('lazy', score(x))


def several(*results):
    data = tuple(e for c, e in results if not c)
    return [data] if data else []


# element invariants: (function or None, errors it should report)
INVS = [
    (None, lambda x: []),
    (lambda x: (score(x) % 2 == 0, 'odd'), lambda x: ['odd'] if score(x) % 2 else []),
    (lambda x: ((score(x) > 0, 'nonpositive'), (2 - score(x) % 3, ('mod', 3)), (score(x) >= -1000, 'never'), (score(x) % 7 != 0, 'mod 7')),
     lambda x: several((score(x) > 0, 'nonpositive'), (score(x) % 3 != 2, ('mod', 3)), (score(x) % 7 != 0, 'mod 7'))),
    (lambda x: (score(x) != 1, lazy(x)), lambda x: [('lazy', score(x))] if score(x) == 1 else []),
    (lambda x: (score(x) != 7, 'seven'), lambda x: ['seven'] if score(x) == 7 else []),
]
MINVS = [
    (None, lambda k, v: []),
    (lambda k, v: (score(k) != score(v), 'same score'), lambda k, v: ['same score'] if score(k) == score(v) else []),
    (lambda k, v: [[score(k) < 90, 'key'], (score(v) > 0 or None, 'value'), (True, 'never'), (score(k) % 5 != 4, 'mod 5')],
     lambda k, v: several((score(k) < 90, 'key'), (score(v) > 0, 'value'), (score(k) % 5 != 4, 'mod 5'))),
    (lambda k, v: (score(k) != 1, lazy(k)), lambda k, v: [('lazy', 1)] if score(k) == 1 else []),
    (lambda k, v: (score(v) != 7, 'seven'), lambda k, v: ['seven'] if score(v) == 7 else []),
]


def has_inner(t):
    t = TYPES[t][0]
    return t is Inner or isinstance(t, (tuple, list)) and Inner in t


class Decl:
    """A declared class and the oracle for its declaration."""

    def __init__(self, kind, t1, t2, i1, i2, sub):
        self.kind = kind
        invs = INVS if kind != 'map' else MINVS
        base = {'vec': CheckedPVector, 'set': CheckedPSet, 'map': CheckedPMap}[kind]
        d = {}
        if kind == 'map':
            if TYPES[t1][0] is not None:
                d['__key_type__'] = TYPES[t1][0]
            if TYPES[t2][0] is not None:
                d['__value_type__'] = TYPES[t2][0]
        elif TYPES[t1][0] is not None:
            d['__type__'] = TYPES[t1][0]
        if invs[i1][0]:
            d['__invariant__'] = invs[i1][0]
        self.name = 'G_%s_%d_%d_%d_%d_%d' % (kind, t1, t2, i1, i2, sub)
        cls = type(base)('Same', (base,), dict(d, __module__=__name__, __qualname__=self.name + ('b' if sub else '')))
        self.parent = None
        if sub:
            self.parent = cls
            d2 = {'__module__': __name__, '__qualname__': self.name}
            if invs[i2][0]:
                d2['__invariant__'] = invs[i2][0]
            cls = type(base)('Same', (cls,), d2)
        self.cls = cls
        setattr(sys.modules[__name__], self.name, cls)       # picklable
        self.ok1, self.ok2 = TYPES[t1][1], TYPES[t2][1]
        self.errs = [invs[i1][1]] + ([invs[i2][1]] if sub else [])
        self.nested = TYPES[t1][0] is Inner
        self.converts = has_inner(t1) or kind == 'map' and has_inner(t2)
        # another class of the kind with no restrictions, and one with the same restrictions
        self.plain = {'vec': Plain, 'set': PlainSet, 'map': PlainMap}[kind]
        self.sibling = type(base)('Same', (base,), dict(d, __module__=__name__, __qualname__=self.name + 's'))

    def errors(self, *e):
        return [x for f in self.errs for x in f(*e)]

    def judge(self, elems):
        """None, ('type', classes) or ('inv', error data) for elements (or (key, value) pairs) to be added."""
        bad = set()
        for e in elems:
            if self.kind == 'map':
                k, v = e
                if not self.ok1(k):
                    bad.add(CheckedKeyTypeError)
                elif not self.ok2(v):
                    bad.add(CheckedValueTypeError)
            elif not self.ok1(e):
                bad.add(CheckedValueTypeError)
        if bad:
            return 'type', tuple(bad)
        data = [x for e in elems for x in (self.errors(*e) if self.kind == 'map' else self.errors(e))]
        if data:
            return 'inv', {repr(x) for x in data}
        return None

    def valid(self, x):
        return self.judge(list(x.items()) if self.kind == 'map' else list(x)) is None


_decls = {}


def decl(kind, t1, t2, i1, i2, sub):
    if kind != 'map':
        t2 = 0
    if not sub:
        i2 = 0
    k = (kind, t1, t2, i1, i2, sub)
    if k not in _decls:
        _decls[k] = Decl(*k)
    return _decls[k]


el = st.integers(0, len(ELEMS) - 1)
# elements picked among those the declaration allows ('ok'), or anything
some = st.lists(st.tuples(st.integers(0, 5), el), max_size=6)
one = st.tuples(st.integers(0, 5), el)
COMMON = {
    'new': (3, [some, st.integers(0, 7), pool_tok]),
    'create': (2, [some, st.integers(0, 6), pool_tok]),
    'pickle': (1, [pool_tok, st.integers(0, 3)]),
    'evolve': (5, [pool_tok, st.lists(st.tuples(st.integers(0, 9), one, one, idx_tok), min_size=1, max_size=6)]),
    'many': (1, [pool_tok, st.integers(0, 80)]),
    'long': (2, [pool_tok, st.one_of(st.integers(1, 90), st.integers(1, 90), st.sampled_from([150, 257, 400, 1030])), st.lists(st.tuples(st.one_of(st.integers(0, 95), st.sampled_from([100, 130, 200, 256])), one), max_size=2), st.integers(0, 7), st.booleans()]),
    'nested': (2, [st.lists(st.tuples(st.booleans(), st.lists(st.sampled_from([1, 2, 3, 50, 60, 'x']), max_size=3)), max_size=4)]),
}
VEC = dict(COMMON, **{
    'append': (3, [pool_tok, one]), 'extend': (3, [pool_tok, some, st.integers(0, 7)]), 'set': (3, [pool_tok, idx_tok, one]),
    'mset': (3, [pool_tok, st.lists(st.tuples(idx_tok, one), min_size=1, max_size=4)]),
    'add': (1, [pool_tok, some, st.integers(0, 7)]), 'transform': (2, [pool_tok, idx_tok, one, st.integers(0, 3)]),
    'slice': (1, [pool_tok, slice_tok]), 'delete': (1, [pool_tok, idx_tok]), 'mul': (1, [pool_tok, st.integers(0, 3)]),
    'remove': (1, [pool_tok, idx_tok]),
})
SET = dict(COMMON, **{
    'add': (4, [pool_tok, one]), 'update': (4, [pool_tok, some, st.integers(0, 7)]), 'remove': (2, [pool_tok, one, st.booleans()]),
    'discard': (1, [pool_tok, one]), 'algebra': (2, [pool_tok, some, st.integers(0, 4)]),
})
MAP = dict(COMMON, **{
    'set': (4, [pool_tok, one, one]), 'update': (3, [pool_tok, some, some, st.integers(0, 7)]),
    'update_with': (2, [pool_tok, some, st.integers(0, 3)]), 'or': (2, [pool_tok, some, st.booleans()]),
    'remove': (2, [pool_tok, one, st.booleans()]), 'discard': (1, [pool_tok, one]),
    'transform': (2, [pool_tok, one, one, st.integers(0, 3)]),
})


def strategies(spec):
    d = st.tuples(st.sampled_from(list(range(len(TYPES))) + [1, 1, 2, 2]), st.integers(0, len(TYPES) - 1), st.integers(0, 4),
                  st.integers(0, 4), st.booleans())
    return [('vec', case(1, 14, VEC, kind=st.just('vec'), decl=d), 1), ('set', case(1, 14, SET, kind=st.just('set'), decl=d), 1),
            ('map', case(1, 14, MAP, kind=st.just('map'), decl=d), 1)]


def run_case(case, stats):
    kind = case['kind']
    t1, t2, i1, i2, sub = case['decl']
    run_with(decl(kind, t1, t2, i1, i2, bool(sub)), case, stats)


def run_with(D, case, stats):
    kind = D.kind
    cls = D.cls
    good1 = [e for e in ELEMS if D.ok1(e) and (kind == 'map' or not D.errors(e))] or ELEMS
    good2 = [e for e in ELEMS if D.ok2(e)] or ELEMS
    right1 = [e for e in ELEMS if D.ok1(e)] or ELEMS
    counts = {'valid': 0, 'rejected': 0}

    def pick(tok, good=None):
        m, i = tok
        g = good1 if good is None else good
        if m == 0:
            return ELEMS[i]
        if m == 1:
            return right1[i % len(right1)] if good is None else good2[i % len(good2)]
        return g[i % len(g)]

    def pick_pair(t):
        return pick(t), pick((t[0] if t[0] != 0 or t[1] % 2 else 2, t[1] * 7 + 3 if t[0] else (t[1] * 5 + 1) % len(ELEMS)), good2)

    def elems_of(toks):
        if kind == 'map':
            ps = [pick_pair(t) for t in toks]
            return list({k: v for k, v in ps}.items())
        return [pick(t) for t in toks]

    def model(elems):
        return dict(elems) if kind == 'map' else list(elems) if kind == 'vec' else set(elems)

    def contents(x):
        return dict(x.items()) if kind == 'map' else list(x) if kind == 'vec' else set(x)

    def eq(a, b):
        """Equal contents; 1 and True are the same key, so types are compared for elements of vectors and values of maps only."""
        if a != b:
            return False
        if kind == 'set':
            return True
        return all(x is y or type(x) is type(y) for x, y in (zip(a, b) if kind == 'vec' else ((a[k], b[k]) for k in a)))

    pool = [(cls(), model([]))]

    def verify(x, m, what, declared=True):
        if declared:
            check(type(x) is cls, '%s: result is a %s', what, type(x).__name__)
        c = contents(x)
        check(eq(c, m) and len(x) == len(m), '%s: %s, expected %s', what, short(x), short(m))
        if isinstance(x, cls):
            check(D.valid(x), '%s: a %s holds %s', what, cls.__name__, short(x))

    def put(x, m, what):
        verify(x, m, what)
        if len(pool) < 8:
            pool.append((x, m))
        else:
            pool[len(m) % 7 + 1] = (x, m)

    def outcome(fn, added, m, what, declared=True):
        """fn adds `added`; m() is the contents expected if they are valid."""
        j = D.judge(added)
        if j is None:
            k, r = attempt(fn)
            if k == 'exc':
                fail('%s of valid data raises %s', what, short(r))
            counts['valid'] += 1
            if declared:
                put(r, m(), what)
            else:
                verify(r, m(), what, False)
            return r
        k, r = attempt(fn)
        if k == 'ok':
            fail('%s accepted %s, result %s (%s)', what, short(added), short(r), type(r).__name__)
        rejected(j, r, what)

    def rejected(j, e, what):
        counts['rejected'] += 1
        stats.hit('rejected: ' + j[0])
        if j[0] == 'type':
            check(type(e) in j[1], '%s: raises %s, expected %s', what, short(e), short(j[1]))
            check(e.source_class is cls, '%s: source_class %s', what, e.source_class)
            check(type(e.actual_value) is e.actual_type, '%s: actual_type', what)
        else:
            check(type(e) is InvariantException, '%s: raises %s, expected InvariantException', what, short(e))
            check({repr(x) for x in e.invariant_errors} == j[1], '%s: invariant_errors %s, expected %s', what, e.invariant_errors, j[1])

    def wrap(e, w, it=None):
        """The elements as some iterable or collection."""
        if kind == 'map':
            d = dict(e)
            w %= 4
            if w == 0:
                return d
            if w == 1:
                return pmap(d)
            if w == 2:
                return PlainMap(d)
            return D.sibling(d) if D.judge(e) is None and not D.parent else d
        if kind == 'set' and w >= 4:
            e[:] = list(dict.fromkeys(e))       # a set holds only one of 1 and 1.0
        if w == 0:
            return list(e)
        if w == 1:
            return (x for x in e)
        if w == 2:
            return pvector(e)
        if w == 3:
            return Plain(e)
        if w == 4:
            return D.sibling(e) if D.judge(e) is None else tuple(e)
        if w == 5:
            return PlainSet(e) if kind == 'set' else tuple(e)
        if w == 6:
            return pset(e) if kind == 'set' else pvector(e).evolver().persistent()
        if D.parent and all(D.ok1(x) and not D.errs[0](x) for x in e):
            return D.parent(e)          # valid for the parent class, perhaps not for this one
        return list(e)

    def fresh(i):
        """A valid element (or pair)."""
        if kind == 'map':
            return good1[i % len(good1)], good2[(i // len(good1)) % len(good2)]
        return good1[i % len(good1)]

    for op in case['ops']:
        name = op[0]
        stats.hit('%s %s' % (kind, name))
        if name == 'new' or name == 'create':
            e = elems_of(op[1])
            if name == 'create' and D.converts:
                continue        # create converts the elements: see 'nested'
            if op[2] == 6 and name == 'create':
                x, m = pool[op[3] % len(pool)]
                check(cls.create(x) is x, 'create of an instance gives another object')
                verify(cls(x), m, 'constructor on an instance')
                continue
            src = wrap(e, op[2])
            outcome(lambda: cls(src) if name == 'new' else cls.create(src), e, lambda: model(e), name)
            continue
        if name == 'nested':
            if not D.nested or kind == 'map':
                continue
            data = [Inner(n for n in ns if type(n) is int and n < 50) if inst else list(ns) for inst, ns in op[1]]
            if kind == 'set':
                data = [tuple(x) if type(x) is list else x for x in data]
            bad = [x for x in data if not isinstance(x, Inner) and any(type(n) is not int or n >= 50 for n in x)]
            if bad:
                k, r = attempt(cls.create, data)
                check(k == 'exc' and isinstance(r, (CheckedValueTypeError, InvariantException)), 'create of %s gives %s', short(data), short(r))
                counts['rejected'] += 1
            else:
                e = [x if isinstance(x, Inner) else Inner(x) for x in data]
                outcome(lambda: cls.create(data), e, lambda: model(e), 'nested create')
            continue
        x, m = pool[op[1] % len(pool)]
        n = len(m)
        what = '%s %s' % (kind, name)
        if name == 'long':
            e = [f for f in (fresh(i) for i in range(op[2])) if D.judge([f]) is None]
            for i, t in op[3]:
                e.insert(i, pick_pair(t) if kind == 'map' else pick(t))
            if kind == 'map':
                e = list(dict(e).items())
            src = wrap(e, op[4])
            if op[5] and not D.converts:
                outcome(lambda: cls(src) if op[1] % 2 else cls.create(src), e, lambda: model(e), what)
            elif kind == 'vec':
                outcome(lambda: x.extend(src), e, lambda: m + e, what)
            elif kind == 'set':
                outcome(lambda: x.update(src), e, lambda: m | set(e), what)
            else:
                outcome(lambda: x.update(src), e, lambda: {**m, **dict(e)}, what)
            continue
        if name == 'pickle':
            y = [lambda: copy.copy(x), lambda: copy.deepcopy(x), lambda: pickle.loads(pickle.dumps(x)), lambda: pickle.loads(pickle.dumps(x, 2))][op[2]]()
            verify(y, m, what)
        elif name == 'many':
            e = x.evolver()
            mm = copy.copy(m)
            ok = True
            for i in range(op[2]):
                f = fresh(i)
                if D.judge([f]) is not None:
                    continue
                if kind == 'vec':
                    e.append(f)
                    mm.append(f)
                elif kind == 'set':
                    e.add(f)
                    mm.add(f)
                else:
                    e.set(*f)
                    mm[f[0]] = f[1]
            put(e.persistent(), mm, what)
        elif name == 'evolve':
            evolve(x, m, op[2], what, D, pick, lambda t: pick(t, good2), put, rejected, counts, stats)
        elif kind == 'vec':
            if name == 'append':
                a = pick(op[2])
                outcome(lambda: x.append(a), [a], lambda: m + [a], what)
            elif name in ('extend', 'add'):
                e = elems_of(op[2])
                src = wrap(e, op[3])
                outcome(lambda: x.extend(src) if name == 'extend' else x + src, e, lambda: m + e, what, True)
            elif name == 'set':
                a = pick(op[3])
                i = idx(op[2], n)
                if -n <= i <= n:
                    outcome(lambda: x.set(i, a), [a], lambda: m + [a] if i == n else [a if j == i % n else y for j, y in enumerate(m)], what)
                elif D.judge([a]) is None:
                    expect_exc(IndexError, x.set, i, a)
            elif name == 'mset':
                if True:
                    ps = []
                    mm = list(m)
                    for t, a in op[2]:
                        i, a = idx(t, len(mm)), pick(a)
                        i = i % (len(mm) + 1) if i >= 0 else i % len(mm) if mm else 0
                        ps.append((i, a))
                        if i == len(mm):
                            mm.append(a)        # the position just after the end
                            stats.hit('mset that appends')
                        else:
                            mm[i] = a
                    outcome(lambda: x.mset(*[y for p in ps for y in p]), [a for _, a in ps], lambda: mm, what)
            elif name == 'transform':
                if n:
                    a = pick(op[3])
                    i = idx(op[2], n) % n
                    if op[4] == 0 and not callable(a):
                        outcome(lambda: x.transform([i], a), [a] if a is not m[i] else [], lambda: m[:i] + [a] + m[i + 1:], what)
                    elif op[4] == 1:
                        outcome(lambda: x.transform([ny], lambda q: a), [a], lambda: [a] * n, what)
                    elif op[4] == 2:
                        outcome(lambda: x.transform([lambda k: k == i], discard), [], lambda: m[:i] + m[i + 1:], what)
                    elif not callable(a):
                        outcome(lambda: x.transform([0], m[0], [n], a), [a], lambda: m + [a], what)
            elif name == 'slice':
                s = mkslice(op[2], n)
                verify(x[s], m[s], what, False)
            elif name == 'delete':
                if n:
                    i = idx(op[2], n) % n
                    verify(x.delete(i), m[:i] + m[i + 1:], what, False)
            elif name == 'remove':
                if n:
                    i = idx(op[2], n) % n
                    mm = list(m)
                    mm.remove(m[i])
                    verify(x.remove(m[i]), mm, what, False)
            elif name == 'mul':
                verify(x * op[2], m * op[2], what, False)
        elif kind == 'set':
            if name == 'add':
                a = pick(op[2])
                outcome(lambda: x.add(a), [a], lambda: m | {a}, what)
            elif name == 'update':
                e = elems_of(op[2])
                src = wrap(e, op[3])
                outcome(lambda: x.update(src), e, lambda: m | set(e), what)
            elif name == 'remove':
                a = pick(op[2])
                if op[3] and m:
                    a = sorted(m, key=repr)[op[2][1] % n]
                if a in m:
                    put(x.remove(a), m - {a}, what)
                else:
                    expect_exc(KeyError, x.remove, a)
            elif name == 'discard':
                a = pick(op[2])
                put(x.discard(a), m - {a}, what)
            elif name == 'algebra':
                e = set(elems_of(op[2]))
                r = [lambda: x | e, lambda: x & e, lambda: x - e, lambda: x ^ e, lambda: x.union(pset(e))][op[3]]()
                mm = [lambda: m | e, lambda: m & e, lambda: m - e, lambda: m ^ e, lambda: m | e][op[3]]()
                verify(r, mm, what, False)
        else:
            if name == 'set':
                k, v = pick(op[2]), pick(op[3], good2)
                outcome(lambda: x.set(k, v), [(k, v)], lambda: {**m, k: v}, what)
            elif name == 'update':
                e1, e2 = elems_of(op[2]), elems_of(op[3])
                s1, s2 = wrap(e1, op[4]), wrap(e2, op[4] + 1)
                outcome(lambda: x.update(s1, s2), e1 + e2, lambda: {**m, **dict(e1), **dict(e2)}, what)
            elif name == 'update_with':
                e = elems_of(op[2])
                f = [lambda a, b: a, lambda a, b: b, lambda a, b: (a, b), lambda a, b: 7][op[3]]
                mm = dict(m)
                added = []
                for k, v in e:
                    v = f(mm[k], v) if k in mm else v
                    mm[k] = v
                    added.append((k, v))
                outcome(lambda: x.update_with(f, dict(e)), added, lambda: mm, what)
            elif name == 'or':
                e = elems_of(op[2])
                outcome(lambda: x | pmap(e) if op[3] else x + dict(e), e, lambda: {**m, **dict(e)}, what)
            elif name == 'remove':
                a = pick(op[2])
                if op[3] and m:
                    a = sorted(m, key=repr)[op[2][1] % n]
                if a in m:
                    put(x.remove(a), {k: v for k, v in m.items() if k != a}, what)
                else:
                    expect_exc(KeyError, x.remove, a)
            elif name == 'discard':
                a = pick(op[2])
                put(x.discard(a), {k: v for k, v in m.items() if k != a}, what)
            elif name == 'transform':
                k, v = pick(op[2]), pick(op[3], good2)
                if callable(k) or callable(v):
                    continue
                if op[4] == 0:
                    added = [(k, v)] if k not in m or m[k] is not v else []
                    outcome(lambda: x.transform([k], v), added, lambda: {**m, k: v}, what)
                elif op[4] == 1:
                    outcome(lambda: x.transform([ny], lambda q: v), [(q, v) for q in m if m[q] is not v], lambda: {q: v for q in m}, what)
                elif op[4] == 2:
                    outcome(lambda: x.transform([lambda q: q == k], discard), [], lambda: {q: y for q, y in m.items() if q != k}, what)
                else:
                    outcome(lambda: x.transform([k], lambda q: v), [(k, v)] if k not in m or m[k] is not v else [], lambda: {**m, k: v}, what)
        verify(x, m, 'original after ' + what)
    for x, m in pool:
        verify(x, m, 'at the end')
    stats.nontrivial = counts['valid'] >= 1 and counts['rejected'] >= 1 and any(len(m) for _, m in pool)


def same_contents(y, m):
    return (list(y) if isinstance(m, list) else dict(y.items()) if isinstance(m, dict) else set(y)) == m


def evolve(x, m, steps, what, D, pick, pick2, put, rejected, counts, stats):
    """A program on one evolver; after an invariant failure it can no longer persist."""
    kind = D.kind
    e = x.evolver()
    mm = copy.copy(m)
    errors = []
    persisted = 0
    failed = []

    def still_valid():
        k, r = attempt(e.persistent)
        if k == 'ok':
            check(D.valid(r), '%s: persistent after a failure gives %s', what, short(r))
        else:
            check(type(r) is InvariantException, '%s: persistent after a failure raises %s', what, short(r))

    others = []
    for code, a, b, t in steps:
        n = len(mm)
        va, vb = pick(a), pick2(b)
        if (code + n) % 3 == 0:
            others.append(x.evolver())      # does not change what becomes of the first
            if code % 2:
                check(same_contents(others[-1].persistent(), m), '%s: another evolver gives %s', what, short(others[-1].persistent()))
        if code >= 8:
            if failed:
                still_valid()
                continue
            if errors:
                err = expect_exc(InvariantException, e.persistent)
                rejected(('inv', set(errors)), err, what + ' persistent')
                failed.append(1)
                continue
            put(e.persistent(), copy.copy(mm), what + ' persistent')
            persisted += 1
            continue
        if kind == 'vec':
            if code in (0, 1, 2):
                i = idx(t, n)
                if not -n <= i <= n:
                    continue
                added = [va]
                f = (lambda: e.__setitem__(i, va)) if code == 0 else (lambda: e.set(i, va))

                def g():
                    if i == n:
                        mm.append(va)
                    else:
                        mm[i] = va
            elif code in (3, 4):
                added = [va]
                f, g = (lambda: e.append(va)), (lambda: mm.append(va))
            elif code in (5, 6):
                added = [va, pick(b)]
                f, g = (lambda: e.extend(iter(added))), (lambda: mm.extend(added))
            else:
                if not n:
                    continue
                i = idx(t, n) % n
                added = []
                f, g = (lambda: e.__delitem__(i)), (lambda: mm.__delitem__(i))
        elif kind == 'set':
            if code <= 5:
                added = [va]
                f, g = (lambda: e.add(va)), (lambda: mm.add(va))
            else:
                added = []
                if va not in mm:
                    expect_exc(KeyError, e.remove, va)
                    continue
                f, g = (lambda: e.remove(va)), (lambda: mm.remove(va))
        else:
            if code <= 5:
                added = [(va, vb)]
                f = (lambda: e.set(va, vb)) if code % 2 else (lambda: e.__setitem__(va, vb))
                g = lambda: mm.__setitem__(va, vb)
            else:
                added = []
                if va not in mm:
                    expect_exc(KeyError, e.remove, va)
                    continue
                f, g = (lambda: e.remove(va)), (lambda: mm.__delitem__(va))
        j = D.judge(added)
        if j is not None and j[0] == 'type':
            rejected(j, expect_exc(TypeError, f), what)
            if kind == 'vec' or len(added) == 1:
                check(len(e) == len(mm), '%s: length %d after a rejected element, expected %d', what, len(e), len(mm))
            continue
        if j is not None:
            errors.extend(j[1])
            f()
            g()
            stats.hit('evolver with an invariant failure')
            continue
        f()
        g()
        check(len(e) == len(mm), '%s: length %d, expected %d', what, len(e), len(mm))
    for o in others:
        check(same_contents(o.persistent(), m), '%s: another evolver gives %s', what, short(o.persistent()))
    if errors:
        if not failed:
            rejected(('inv', set(errors)), expect_exc(InvariantException, e.persistent), what + ' persistent')
        # asking again must not give an invalid collection either
        for _ in range(2):
            still_valid()
        return
    counts['valid'] += 1
    put(e.persistent(), copy.copy(mm), what + ' at its end')
    put(e.persistent(), copy.copy(mm), what + ' again')
