"""Generated field declarations for records and persistent classes, with an independent oracle (C16, C17, C24)."""
import copy
import enum
import numbers
import pickle
import sys
from hypothesis import strategies as st
import core
from core import fail, check, short, attempt, expect_exc
from pyrsistent import (PRecord, PClass, field, CheckedPVector, InvariantException, PTypeError, optional, pmap, pvector, discard, CheckedValueTypeError)


class Foo:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return '%s(%d)' % (type(self).__name__, self.n)

    def __eq__(self, other):
        return type(other) is type(self) and self.n == other.n

    def __hash__(self):
        return hash(self.n)

    def __reduce__(self):
        return type(self), (self.n,)


class SubFoo(Foo):
    pass


class Color(enum.Enum):
    RED = 1
    BLUE = 2


class Inner(CheckedPVector):
    __type__ = int
    __invariant__ = lambda n: (n < 50, 'inner')


class SubInner(Inner):
    pass


class Leaf(PRecord):
    q = field(type=int, mandatory=True, invariant=lambda n: (n < 50, 'leaf'))


class Fresh:
    """What a callable initial value makes: equal to all others, but an object of its own."""

    def __eq__(self, other):
        return type(other) is Fresh

    def __hash__(self):
        return 5

    def __len__(self):
        return 4

    def __repr__(self):
        return 'Fresh()'


VALUES = [0, 1, 2, 3, -1, 7, 13, 40, True, 'a', 'bb', '', '12', None, 1.5, 2.5, Foo(1), Foo(2), SubFoo(3), Color.RED, Color.BLUE,
          Inner([1, 2]), Inner([]), SubInner([3]), Leaf(q=1), Leaf(q=4), (1, 2), (), (7, 60), ('x',), frozenset([1]), 10 ** 20, 100,
          pmap({'q': 3}), pmap({'q': 70}), pmap()]

TYPES = [
    ((), None),
    (int, lambda x: isinstance(x, int)),
    ((int, str), lambda x: isinstance(x, (int, str))),
    (optional(int), lambda x: x is None or isinstance(x, int)),
    ('fieldlib.Foo', lambda x: isinstance(x, Foo)),
    (Color, lambda x: isinstance(x, Color)),
    (Inner, lambda x: isinstance(x, Inner)),
    ([Inner, str], lambda x: isinstance(x, (Inner, str))),
    (numbers.Number, lambda x: isinstance(x, numbers.Number)),
    (Leaf, lambda x: isinstance(x, Leaf)),
    (str, lambda x: isinstance(x, str)),
    ({int, (str, (SubFoo,))} if False else (int, (str, 'fieldlib.SubFoo')), lambda x: isinstance(x, (int, str, SubFoo))),
    ((bytes, str, Color, 'fieldlib.Foo', int), lambda x: isinstance(x, (str, Color, Foo, int))),
]


def score(x):
    if isinstance(x, complex):
        x = int(x.real)
    if isinstance(x, (bool, int, float)):
        return int(x) % 97
    if isinstance(x, Foo):
        return x.n
    if isinstance(x, Color):
        return x.value
    if x is None:
        return 4
    return len(x)


def lazy(x):
    return lambda: ('lazy', score(x))


def _multi(x):
    return ((score(x) > 0, 'nonpositive'), (score(x) % 3 != 2, ('mod', 3)), (True, 'never'), (score(x) % 7 != 0, 'mod 7'))


INVS = [
    (None, lambda x: []),
    (lambda x: (score(x) % 2 == 0, 'odd'), lambda x: ['odd'] if score(x) % 2 else []),
    (_multi, lambda x: [tuple(e for c, e in _multi(x) if not c)] if not all(c for c, e in _multi(x)) else []),
    (lambda x: (score(x) != 1, lazy(x)), lambda x: [('lazy', score(x))] if score(x) == 1 else []),
    (lambda x: (score(x) != 7, 'seven'), lambda x: ['seven'] if score(x) == 7 else []),
]


def _f13(x):
    if type(x) is int and x == 13:
        raise InvariantException(('f13',), ('Some.f',), 'from the factory')
    return x


FACTORIES = [
    None,
    None,
    int,
    str,
    lambda x: x + 1 if type(x) is int else x,
    lambda x: x,
    lambda x: list(x) if isinstance(x, tuple) else x,
    _f13,
]
IDEMPOTENT = {0, 1, 2, 3, 5, 7, 6}
NAMES = ['f%d' % i for i in range(30)]
ABSENT = object()
CALLS = {}
IGNORING = []        # non-empty while the oracle computes what create(..., ignore_extra=True) does

# type, invariant, initial (0 none, 1 constant, 2 callable), initial value, mandatory, factory
field_tok = st.tuples(st.sampled_from(list(range(len(TYPES))) + [0, 1, 1, 2]), st.sampled_from([0, 0, 0, 1, 2, 3, 4]),
                      st.sampled_from([0, 0, 0, 1, 2]), st.integers(0, len(VALUES) - 1), st.sampled_from([False, False, True]), st.integers(0, 7))
# global invariants: kind, field, field
global_tok = st.tuples(st.integers(0, 3), st.integers(0, 5), st.integers(0, 5))


class Exc(Exception):
    """Oracle: these exception classes are right."""


class F:
    """A field declaration and its meaning."""

    def __init__(self, name, tok, kind):
        t, i, ini, iv, self.mandatory, fac = tok
        self.name = name
        self.kind = kind
        self.types, self.ok = TYPES[t]
        self.inv, self.errs = INVS[i]
        self.fac = FACTORIES[fac]
        self.auto = None
        if self.fac is None and self.types in (Inner, Leaf):
            self.auto = self.types
        self.has_initial = False
        if self.fac and not any(self.supply(x)[0] == 'ok' for x in VALUES):
            fac, self.fac = 0, None         # nothing could ever be assigned
            if self.types in (Inner, Leaf):
                self.auto = self.types
        self.idempotent = fac in IDEMPOTENT
        if ini and fac != 4:
            v = VALUES[iv]
            if callable(v):
                v = 1
            if iv % 4:
                g = [x for x in VALUES if not callable(x) and self.supply(x)[0] == 'ok']
                v = g[iv % len(g)] if g else v
            if ini == 1:
                # a constant initial value must have the declared type; declarations by name are not accepted there
                if isinstance(self.types, str) or self.ok and not self.ok(v) or 'fieldlib' in str(self.types) and type(self.types) is tuple:
                    ini = 0
            self.fresh = ini == 2 and self.types == () and iv % 2 == 0
            if self.fresh:
                v = Fresh()
            if ini and self.fixed_point(v):
                self.has_initial = True
                self.initial = v
                self.callable_initial = ini == 2

    def fixed_point(self, v):
        """Records apply the factory to the initial value, classes do not: only values for which it makes no difference."""
        r = self.factory(v)
        return r[0] == 'ok' and (r[1] is v or type(r[1]) is type(v) and r[1] == v)

    def declare(self):
        kw = {}
        if self.types != ():
            kw['type'] = self.types
        if self.inv:
            kw['invariant'] = self.inv
        if self.has_initial:
            v = self.initial
            kw['initial'] = Fresh if self.fresh else (lambda: v) if self.callable_initial else v
        if self.mandatory:
            kw['mandatory'] = True
        if self.fac:
            name, f = self.name, self.fac

            def counting(x):
                CALLS[name] = CALLS.get(name, 0) + 1
                return f(x)
            kw['factory'] = counting
        return field(**kw)

    def factory(self, v):
        """('ok', value), ('exc', classes) or ('inv', codes, missing)."""
        if self.auto:
            # checked types have checks of their own (C15)
            k, r = attempt(self.auto.create, v, ignore_extra=True) if IGNORING else attempt(self.auto.create, v)
        elif self.fac:
            k, r = attempt(self.fac, v)
        else:
            return 'ok', v
        if k == 'ok':
            return 'ok', r
        if isinstance(r, InvariantException):
            return 'inv', list(r.invariant_errors), list(r.missing_fields)
        return 'exc', type(r)

    def supply(self, v):
        """What becomes of a supplied value: ('ok', value), ('exc', class), ('inv', codes, missing)."""
        r = self.factory(v)
        if r[0] != 'ok':
            return r
        return self.validate(r[1])

    def validate(self, v):
        if self.ok and not self.ok(v):
            return 'exc', PTypeError
        e = self.errs(v)
        if e:
            return 'inv', e, []
        return 'ok', v


def make_global(tok, names):
    """(invariant, oracle: dict -> error codes)."""
    k, a, b = tok
    fa, fb = names[a % len(names)], names[b % len(names)]

    def get(s, f):
        return getattr(s, f, ABSENT)

    def sc(x):
        return 0 if x is ABSENT else score(x)
    if k == 0:
        return ((lambda s: (sc(get(s, fa)) + sc(get(s, fb)) < 9, 'sum')),
                lambda m: ['sum'] if sc(m.get(fa, ABSENT)) + sc(m.get(fb, ABSENT)) >= 9 else [])
    if k == 1:
        return ((lambda s: (sc(get(s, fa)) != 3, lambda: 'lazy3')), lambda m: ['lazy3'] if sc(m.get(fa, ABSENT)) == 3 else [])
    if k == 2:
        def inv(s):
            return ((sc(get(s, fa)) != 2, 'A'), (sc(get(s, fb)) != 1, 'B'))

        def orc(m):
            bad = tuple(e for c, e in ((sc(m.get(fa, ABSENT)) != 2, 'A'), (sc(m.get(fb, ABSENT)) != 1, 'B')) if not c)
            return [bad] if bad else []
        return inv, orc
    return ((lambda s: (sc(get(s, fa)) != 40, ('forty', fa))), lambda m: [('forty', fa)] if sc(m.get(fa, ABSENT)) == 40 else [])


def publish(cls):
    setattr(sys.modules[__name__], cls.__qualname__, cls)
    cls.__module__ = __name__
    return cls


class Oracle:
    """All declarations that bind one class."""

    def __init__(self, kind, cls, fields, globals_):
        self.kind = kind
        self.cls = cls
        self.fields = fields            # name -> F
        self.globals = globals_         # oracles

    def global_errors(self, m):
        return [e for g in self.globals for e in g(m)]

    def finish(self, m):
        """None or (codes, missing) for complete contents m."""
        missing = ['%s.%s' % (self.cls.__name__, n) for n, f in self.fields.items() if f.mandatory and n not in m]
        if missing:
            return [], missing
        return None

    def construct(self, kw):
        """Expected outcome of the constructor: ('ok', contents) or ('exc', accepted)."""
        m = {}
        bad = Bad(self)
        for k in kw:
            if k not in self.fields:
                bad.now(AttributeError)
        for n, f in self.fields.items():
            if n in kw:
                bad.take(f.supply(kw[n]), n, m)
            elif f.has_initial:
                bad.take(f.validate(f.initial), n, m, unchanged=True)
        return bad.result(m)

    def change(self, m, sets, removes=(), resets=()):
        """Expected outcome of setting the given (name, value) pairs on contents m."""
        m = dict(m)
        bad = Bad(self)
        for n, v in sets:
            if n not in self.fields:
                bad.now(AttributeError)
                continue
            bad.take(self.fields[n].supply(v), n, m)
        for n in removes:
            m.pop(n, None)
        for n in resets:
            bad.take(self.fields[n].validate(self.fields[n].initial), n, m)
        return bad.result(m)


class Bad:
    def __init__(self, o):
        self.o = o
        self.immediate = set()
        self.codes = []
        self.missing = []
        self.from_factory = False

    def now(self, cls):
        self.immediate.add(cls)

    def take(self, r, n, m, unchanged=False):
        if r[0] == 'ok':
            m[n] = r[1]
        elif r[0] == 'exc':
            self.immediate.add(r[1])
        else:
            self.codes += r[1]
            self.missing += r[2]
            m.setdefault(n, None)       # supplied, so not missing
            if r[2] or self.o.fields[n].auto:
                self.from_factory = True

    def result(self, m):
        fin = self.o.finish(m)
        if fin:
            self.missing = self.missing + fin[1]
        if self.codes or self.missing or self.immediate:
            return 'exc', self
        g = self.o.global_errors(m)
        if g:
            self.codes = g
            return 'exc', self
        return 'ok', m

    def judge(self, e, what):
        """e is a right way to refuse."""
        if not isinstance(e, InvariantException):
            check(type(e) in self.immediate, '%s: raises %s, expected %s', what, short(e), self.describe())
            return
        check(bool(self.codes or self.missing), '%s: raises %s, expected %s', what, short(e), self.describe())
        if self.from_factory or self.immediate and self.o.kind == 'cls':
            return          # which of several failures is reported is not specified
        if self.immediate:
            return
        check({repr(c) for c in e.invariant_errors} == {repr(c) for c in self.codes} and set(e.missing_fields) == set(self.missing),
              '%s: reports %s, missing %s; expected %s', what, e.invariant_errors, e.missing_fields, self.describe())

    def describe(self):
        return 'one of %s, errors %s, missing %s' % (sorted(c.__name__ for c in self.immediate), self.codes, self.missing)


def same(a, b):
    return a is b or type(a) is type(b) and a == b


def contents(o, x):
    if o.kind == 'rec':
        return dict(x.items())
    return {n: getattr(x, n) for n in o.fields if hasattr(x, n)}


def verify(o, x, m, what):
    """x is an instance with exactly the contents m, and satisfies every declaration."""
    check(type(x) is o.cls, '%s: result is a %s', what, type(x).__name__)
    c = contents(o, x)
    check(set(c) == set(m) and all(same(c[n], m[n]) for n in c), '%s: %s, expected %s', what, short(x), short(m))
    for n in c:
        check(n in o.fields, '%s: undeclared field %s', what, n)
        check(o.fields[n].validate(c[n])[0] == 'ok', '%s: field %s holds %s', what, n, short(c[n]))
        check(getattr(x, n) is c[n], '%s: attribute %s', what, n)
    check(o.finish(c) is None, '%s: mandatory field missing in %s', what, short(x))
    check(not o.global_errors(c), '%s: %s breaks a global invariant', what, short(x))
    if o.kind == 'cls':
        for n in o.fields:
            if n not in c:
                check(not hasattr(x, n), '%s: %s is there', what, n)
    else:
        check(len(x) == len(m), '%s: length', what)


# ------------------------------------------------------------------------------------------ histories

one = st.tuples(st.integers(0, 6), st.integers(0, len(VALUES) - 1))         # field, how to choose the value
val_choice = st.tuples(st.sampled_from([0, 1, 2, 3, 4, 5, 6] + [1, 2, 3, 4, 5] * 2), st.integers(0, len(VALUES) - 1))
fname = st.one_of(st.integers(0, 13), st.integers(0, 13), st.integers(14, 47))
kw_tok = st.lists(st.tuples(fname, val_choice), max_size=5)
pool = st.integers(0, 11)           # 8 and above: the latest
TABLE = {
    'new': (3, [kw_tok, st.integers(0, 15)]),
    'create': (2, [kw_tok, st.integers(0, 15), st.integers(0, 3)]),
    'create_same': (1, [pool]),
    'set_kw': (4, [pool, kw_tok]),
    'set_pos': (3, [pool, fname, val_choice]),
    'evolve': (5, [pool, st.lists(st.tuples(st.integers(0, 9), fname, val_choice), min_size=1, max_size=5)]),
    'transform': (3, [pool, fname, val_choice, st.integers(0, 3)]),
    'remove': (3, [pool, fname]),
    'pickle': (1, [pool, st.integers(0, 3)]),
}
REC = dict(TABLE, **{
    'update': (3, [pool, kw_tok, kw_tok, st.integers(0, 2)]),
    'update_with': (2, [pool, kw_tok, st.integers(0, 2)]),
    'or': (2, [pool, kw_tok, st.integers(0, 2)]),
    'discard': (1, [pool, fname]),
})
CLS = dict(TABLE, **{
    'set_mixed': (2, [pool, fname, val_choice, kw_tok]),
    'assign': (2, [pool, fname, val_choice, st.integers(0, 4)]),
})


def lookalike(v, i):
    """A value that is equal to v but has another type or identity, if there is one."""
    if type(v) is int and v in (0, 1):
        return [float(v), bool(v), complex(v)][i % 3]
    if type(v) is bool:
        return [int(v), float(v)][i % 2]
    if type(v) is int and abs(v) < 2 ** 50:
        return float(v)
    if isinstance(v, Inner):
        return [pvector(v), SubInner(v), Inner(v), Free(v)][i % 4]
    if isinstance(v, Leaf):
        return [pmap(v), dict(v), Leaf(**v)][i % 3]
    if type(v) in (Foo, SubFoo):
        return type(v)(v.n)
    if type(v) is str:
        return Str(v)
    if type(v) is tuple:
        return Tup(v)
    return v


class Free(CheckedPVector):
    pass


class Str(str):
    pass


class Tup(tuple):
    pass


class Run:
    def __init__(self, o, stats):
        self.o = o
        self.stats = stats
        self.pool = []
        self.valid = self.rejected = 0
        self.fresh = []
        self.names = list(o.fields)
        self.good = {n: [v for v in VALUES if f.supply(v)[0] == 'ok'] or VALUES for n, f in o.fields.items()}

    def name(self, t):
        """A declared field mostly; 12 and 13 are not declared."""
        if t in (12, 13):
            return ['nofield', 'zz'][t - 12]
        return self.names[t % len(self.names)]

    def value(self, n, tok, cur=None):
        m, i = tok
        if m == 6 and cur is not None and n in cur:
            return lookalike(cur[n], i)
        g = VALUES if m == 0 or n not in self.good else self.good[n]
        return g[i % len(g)]

    def kw(self, toks, full=None, cur=None):
        d = {}
        if full is not None:
            # the mandatory fields, most of the time
            for i, (n, f) in enumerate(self.o.fields.items()):
                if f.mandatory and not f.has_initial and full != 15:
                    d[n] = self.good[n][full % len(self.good[n])]
        for t, v in toks:
            n = self.name(t)
            if n not in self.o.fields and v[0] > 1:
                continue
            d[n] = self.value(n, v, cur)
        return d

    def put(self, x, m, what):
        verify(self.o, x, m, what)
        self.latest = x, m
        if len(self.pool) < 8:
            self.pool.append((x, m))
        else:
            self.pool[self.valid % 8] = (x, m)

    def outcome(self, fn, exp, what):
        CALLS.clear()
        k, r = attempt(fn)
        if exp[0] == 'ok':
            if k == 'exc':
                fail('%s of valid data raises %s', what, short(r))
            self.valid += 1
            self.put(r, exp[1], what)
            return r
        if k == 'ok':
            fail('%s gives %s, expected %s', what, short(r), exp[1].describe())
        exp[1].judge(r, what)
        self.rejected += 1
        self.stats.hit('rejected with ' + type(r).__name__)

    def calls(self, names, what):
        """Every factory of the names has been called exactly once, the others not at all."""
        for n, f in self.o.fields.items():
            if f.fac:
                want = 1 if n in names else 0
                check(CALLS.get(n, 0) == want, '%s: factory of %s called %d times, expected %d', what, n, CALLS.get(n, 0), want)

    def step(self, op):
        o = self.o
        name = op[0]
        cls = o.cls
        self.stats.hit(name)
        if name in ('new', 'create') or not self.pool:
            kw = self.kw(op[1], op[2]) if name in ('new', 'create') else self.kw([], 0)
            exp = o.construct(kw)
            if name == 'create' and op[3] == 3:
                IGNORING.append(1)
                try:
                    exp = o.construct({k: v for k, v in kw.items() if k in o.fields})
                finally:
                    IGNORING.clear()
                r = self.outcome(lambda: cls.create(dict(kw, zzz=1), ignore_extra=True), exp, 'create with ignore_extra')
            elif name == 'create':
                r = self.outcome(lambda: cls.create(pmap(kw) if op[3] == 1 else kw), exp, 'create')
            else:
                r = self.outcome(lambda: cls(**kw), exp, 'constructor')
            if r is not None and o.kind == 'cls':
                self.calls([n for n in kw if n in o.fields], name)
            if r is not None:
                for n, f in o.fields.items():
                    if f.has_initial and n not in kw:
                        v = getattr(r, n)
                        if f.fresh:
                            check(not any(v is q for q in self.fresh), '%s: the callable initial value of %s was not called', name, n)
                            self.fresh.append(v)
                        elif not f.fac:
                            check(v is f.initial, '%s: the initial value of %s is %s', name, n, short(v))
            return
        x, m = self.latest if op[1] > 7 else self.pool[op[1] % len(self.pool)]
        what = '%s on %s' % (name, short(x, 100))
        if name == 'create_same':
            CALLS.clear()
            check(cls.create(x) is x and not CALLS, 'create of an instance')
        elif name == 'set_kw':
            kw = self.kw(op[2], cur=m)
            if len(kw) > 1 and any(f.has_initial and n not in m and n not in kw for n, f in o.fields.items()):
                self.stats.hit('several fields set after a field with an initial value was removed')
            r = self.outcome(lambda: x.set(**kw), o.change(m, kw.items()), what)
            if r is not None and o.kind == 'cls':
                self.calls(list(kw), what)
        elif name == 'set_pos':
            n = self.name(op[2])
            v = self.value(n, op[3], m)
            r = self.outcome(lambda: x.set(n, v), o.change(m, [(n, v)]), what)
            if r is not None and o.kind == 'cls':
                self.calls([n], what)
        elif name == 'set_mixed':
            n = self.name(op[2])
            v = self.value(n, op[3], m)
            kw = self.kw(op[4], cur=m)
            kw.pop(n, None)
            r = self.outcome(lambda: x.set(n, v, **kw), o.change(m, [(n, v)] + list(kw.items())), what)
            if r is not None:
                self.calls([n] + list(kw), what)
        elif name == 'update':
            a, b = self.kw(op[2], cur=m), self.kw(op[3], cur=m)
            b = {k: v for k, v in b.items() if k not in a}
            f = [lambda: x.update(a, b), lambda: x.update(pmap(a), b), lambda: x.update({**a, **b})][op[4]]
            self.outcome(f, o.change(m, list(a.items()) + list(b.items())), what)
        elif name == 'update_with':
            a = self.kw(op[2], cur=m)
            f = [lambda p, q: p, lambda p, q: q, lambda p, q: 3][op[3]]
            sets = [(k, f(m[k], v) if k in m else v) for k, v in a.items()]
            self.outcome(lambda: x.update_with(f, a), o.change(m, sets), what)
        elif name == 'or':
            a = self.kw(op[2], cur=m)
            f = [lambda: x | pmap(a), lambda: x + a, lambda: x + pmap(a)][op[3]]
            self.outcome(f, o.change(m, list(a.items())), what)
        elif name in ('remove', 'discard'):
            n = self.name(op[2])
            if name == 'discard' and n not in m:
                check(x.discard(n) is x, '%s: discard of a missing key gives another object', what)
            elif n not in m:
                expect_exc((KeyError, AttributeError), x.remove, n)
            else:
                f = (lambda: x.remove(n)) if name == 'remove' else (lambda: x.discard(n))
                exp = o.change(m, [], [n])
                if o.kind == 'cls' and o.fields[n].has_initial:
                    exp = o.change(m, [], [], [n])     # back to the initial value
                self.outcome(f, exp, what)
        elif name == 'transform':
            n = self.name(op[2])
            v = self.value(n, op[3], m)
            if callable(v):
                v = 1
            if o.kind == 'cls' and (n not in m):
                return
            exp = ('ok', m) if contents(o, x).get(n, ABSENT) is v else o.change(m, [(n, v)])       # the very object: no change
            if op[4] == 0:
                self.outcome(lambda: x.transform([n], v), exp, what)
            elif op[4] == 1:
                self.outcome(lambda: x.transform([n], lambda q: v), exp, what)
            elif op[4] == 2 and n in m and not (o.kind == 'cls' and o.fields[n].has_initial):
                self.outcome(lambda: x.transform([n], discard), o.change(m, [], [n]), what)
            elif op[4] == 3 and n in m:
                r = self.outcome(lambda: x.transform([n], lambda q: q), ('ok', m), what)
                check(r is x, '%s: transform that changes nothing gives another object', what)
        elif name == 'pickle':
            if o.kind == 'rec' and any(f.has_initial and n not in m for n, f in o.fields.items()):
                self.stats.hit('copied without a field that has an initial value')
            CALLS.clear()
            y = [lambda: copy.copy(x), lambda: copy.deepcopy(x), lambda: pickle.loads(pickle.dumps(x)),
                 lambda: pickle.loads(pickle.dumps(x, 2))][op[2]]()
            if any(isinstance(v, list) for v in m.values()):
                check(y == x, '%s: %s', what, short(y))
            else:
                verify(o, y, m, what)
            check(not CALLS, '%s: factories called again', what)
        elif name == 'assign':
            n = self.name(op[2])
            v = self.value(n, op[3])
            if op[4] == 0:
                expect_exc(AttributeError, delattr, x, n)
            elif op[4] == 1:
                expect_exc(AttributeError, setattr, x, '_pclass_frozen', False)
            elif op[4] == 4:
                # the class is an attribute as well
                twin = type(cls)('Twin', (PClass,), {f: field() for f in o.fields})
                expect_exc((AttributeError, TypeError), setattr, x, '__class__', twin)
                expect_exc((AttributeError, TypeError), setattr, x, '__class__', type(cls)('Sub', (cls,), {}))
            else:
                expect_exc(AttributeError, setattr, x, n, v)
            self.stats.hit('assignment refused')
        elif name == 'evolve':
            self.evolve(x, m, op[2], what)
        verify(o, x, m, 'original after ' + what)

    def evolve(self, x, m, steps, what):
        o = self.o
        e = x.evolver()
        cur = contents(o, x)        # the very objects, since setting a field to the object it holds is no change
        pending = []                # classes only check when made persistent
        failed = False
        CALLS.clear()
        touched = set()
        for code, t, vt in steps:
            n = self.name(t)
            v = self.value(n, vt, cur)
            if code <= 6:
                if o.kind == 'rec':
                    r = o.fields[n].supply(v) if n in o.fields else ('exc', AttributeError)
                    f = (lambda: e.set(n, v)) if code % 2 else (lambda: e.__setitem__(n, v))
                    if r[0] == 'exc':
                        expect_exc(r[1], f)
                        continue
                    f()
                    if r[0] == 'inv':
                        failed = True
                        break
                    cur[n] = r[1]
                    check(same(e[n], r[1]), '%s: evolver[%s] is %s, expected %s', what, n, short(e[n]), short(r[1]))
                else:
                    if cur.get(n, ABSENT) is v:
                        e.set(n, v)
                        continue
                    [lambda: e.set(n, v), lambda: e.__setitem__(n, v), lambda: setattr(e, n, v)][code % 3]()
                    cur[n] = v
                    touched.add(n)
                    check(e[n] is v and getattr(e, n) is v, '%s: evolver[%s] is %s, expected %s', what, n, short(e[n]), short(v))
            elif code <= 8:
                if n not in cur:
                    expect_exc((KeyError, AttributeError), e.remove, n)
                elif o.kind == 'cls' and n in o.fields and o.fields[n].has_initial:
                    continue
                else:
                    e.remove(n)
                    del cur[n]
                    touched.discard(n)
        if failed:
            ex = expect_exc(InvariantException, e.persistent)
            self.rejected += 1
            # trying again must not give an invalid record either
            k, r = attempt(e.persistent)
            if k == 'ok':
                verify(o, r, contents(o, r), what + ' persistent after a failure')
            return
        if o.kind == 'cls':
            sets = [(n, cur[n]) for n in cur if n in touched]
            exp = o.change({n: v for n, v in cur.items() if n not in touched}, sets)
            CALLS.clear()
            r = self.outcome(e.persistent, exp, what)
            if r is not None:
                self.calls(touched, what)
        else:
            exp = o.change(cur, [])
            r = self.outcome(e.persistent, exp, what)
            if r is not None:
                self.put(e.persistent(), cur, what + ' again')


def run_history(o, case, stats):
    r = Run(o, stats)
    for op in case['ops']:
        r.step(op)
    for x, m in r.pool:
        verify(o, x, m, 'at the end')
    return r
