"""C18: serialize and create are inverse through nested checked types."""
from hypothesis import strategies as st
import core
from core import fail, check, short, expect_exc, attempt
from gen import *
from pyrsistent import (freeze, PRecord, PClass, field, CheckedPVector, CheckedPSet, CheckedPMap, CheckedType, InvariantException, pvector_field, pset_field,
                        pmap_field, optional)

plain = st.sampled_from(['int', 'str', 'any', 'own'])
hashed = st.sampled_from(['int', 'str', 'own'])
# how a collection serializes: 0 default, 1 custom, 2 custom, declared on the base class; depth of the class below its declaration;
# whether the items may also be None (1) or something of another type (2)
how = st.tuples(st.sampled_from([0, 0, 0, 0, 0, 1, 2]), st.integers(0, 2), st.sampled_from([0, 0, 1, 2]))


def _ext(t):
    coll = st.one_of(st.tuples(st.just('vec'), t, how), st.tuples(st.just('map'), st.one_of(hashed, st.just('any')), t, how), st.tuples(st.just('set'), hashed, how))
    f = st.tuples(t, st.integers(0, 11))
    rec = st.tuples(st.sampled_from(['rec', 'cls']), st.lists(f, min_size=1, max_size=4), st.integers(0, 2))
    return st.one_of(rec, coll, rec)


typ = st.recursive(plain.map(lambda x: (x,)), _ext, max_leaves=7)
top = st.one_of(_ext(typ), _ext(_ext(typ)))


def strategies(spec):
    return [('graphs', st.fixed_dictionaries({'t': top, 'inv': st.booleans(), 'v': st.lists(st.integers(0, 30), min_size=4, max_size=30), 'fmt': st.integers(0, 7),
                                              'extra': st.lists(st.sampled_from([True, True, False]), min_size=1, max_size=8)}), 9),
            ('mixed', st.fixed_dictionaries({'mixed': st.lists(st.tuples(st.integers(0, 5), st.integers(0, 20)), max_size=6), 'first': st.integers(0, 4),
                                             'second': st.integers(0, 4), 'where': st.integers(0, 7), 'none': st.integers(0, 2), 'ignore': st.booleans()}), 1)]


LOG = []
INVERTIBLE = [False]        # only serializers that have an inverse


def enc(v):
    return 'E%r' % (v,)


def dec(s):
    return int(s[1:]) if type(s) is str and s[:1] == 'E' else s


class Odd:
    """A type that is not serialized."""

    def __init__(self, n):
        self.n = n


class Own(CheckedType):
    """A checked type of the user's own: hashable, serialized to a string that tells the format."""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    @classmethod
    def create(cls, source_data, _factory_fields=None, ignore_extra=False):
        if isinstance(source_data, cls):
            return source_data
        if type(source_data) is not str or source_data[:2] != 'O:':
            raise ValueError(source_data)
        return cls(int(source_data.split(':')[1]))

    def serialize(self, format=None):
        LOG.append(('own', format, id(self)))
        return 'O:%d:%r' % (self.n, format)

    def __eq__(self, other):
        return type(other) is Own and other.n == self.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return 'Own(%d)' % self.n


class Node:
    """A type of the graph: the class it stands for and how its values are built and serialized."""
    lossy = False

    def __init__(self, spec):
        self.k = spec[0]
        self.cls = {'int': int, 'str': str, 'any': object, 'own': Own}.get(self.k)
        k = self.k
        if k in ('vec', 'map', 'set'):
            if k == 'vec':
                self.item = Node(spec[1])
                d = {'__type__': self.item.cls}
                base = CheckedPVector
            elif k == 'set':
                self.item = Node((spec[1],))
                d = {'__type__': self.item.cls}
                base = CheckedPSet
            else:
                self.key, self.item = Node((spec[1],)), Node(spec[2])
                d = {'__key_type__': self.key.cls, '__value_type__': self.item.cls}
                base = CheckedPMap
            if self.item.cls is object:
                d.pop('__type__', None)
                d.pop('__value_type__', None)
            if k == 'map' and self.key.cls is object:
                d.pop('__key_type__')
            mode, depth, other = spec[-1]
            self.other = other if self.item.cls is not object else 0
            if self.other:
                t = '__value_type__' if k == 'map' else '__type__'
                d[t] = optional(d[t]) if other == 1 else (d[t], Odd)
                if k == 'map' and depth == 1 and self.key.cls is not object:
                    d['__key_type__'] = [Odd, d['__key_type__']]
            if INVERTIBLE[0]:
                mode = 0
            self.custom = bool(mode)
            self.lossy = self.item.lossy or self.custom
            name = 'Coll' + k
            if mode:
                if k == 'map':
                    def ser(self, format, key, value):
                        LOG.append(('map', format, id(key), id(value)))
                        return ('k', id(key)), ('c', id(value))
                else:
                    def ser(self, format, value):
                        LOG.append(('item', format, id(value)))
                        return ('c', id(value))
                if mode == 1 and depth:
                    cls = make(base, name + '0', d)
                    cls = make(cls, name + '1', {'__serializer__': ser})
                else:
                    cls = make(base, name + '0', dict(d, __serializer__=ser))
            else:
                cls = make(base, name, d)
            for i in range(depth):
                cls = make(cls, '%s_%d' % (name, i), {})
            self.cls = cls
        elif k in ('rec', 'cls'):
            base = PRecord if k == 'rec' else PClass
            self.fields = {}
            levels = [{}, {}, {}]
            for i, (t, mode) in enumerate(spec[1]):
                n = Fld(t, mode)
                self.fields['f%d' % i] = n
                levels[i % (spec[2] + 1)]['f%d' % i] = n.declaration
                self.lossy = self.lossy or n.lossy
            cls = base
            for i in range(spec[2] + 1):
                cls = make(cls, 'C%s%d' % (k, i), levels[i])
            self.cls = cls

    def build_item(self, toks):
        if self.other and toks() % 3 == 0:
            return None if self.other == 1 else Odd(toks())
        return self.item.build(toks)

    def ser_item(self, e, fmt, ctx):
        return e if e is None or type(e) is Odd else self.item.ser(e, fmt, ctx)

    def same_item(self, a, b, what):
        if a is None or type(a) is Odd:
            check(a is b, '%s: %s, expected %s', what, short(b), short(a))
        else:
            self.item.same(a, b, what)

    def build(self, toks):
        """A value and nothing else."""
        k = self.k
        if k == 'own':
            return Own(toks())
        if k == 'int':
            return toks() * 1000
        if k == 'str':
            return 's%d' % toks()
        if k == 'any':
            t = toks()
            return [None, 'x', t, 1.5, (1, t), True][t % 6]
        if k == 'vec':
            return self.cls([self.build_item(toks) for _ in range(size(toks))])
        if k == 'set':
            return self.cls([self.build_item(toks) for _ in range(size(toks))])
        if k == 'map':
            return self.cls({self.key.build(toks): self.build_item(toks) for _ in range(size(toks))})
        kw = {}
        for n, f in self.fields.items():
            v = f.build(toks)
            if v is not ABSENT:
                kw[n] = v
        return self.cls(**kw)

    def ser(self, x, fmt, ctx, custom=False):
        """The plain data serialize(fmt) has to give; ctx collects serializer calls and injects extra keys."""
        k = self.k
        if k in ('int', 'str', 'any'):
            return x
        if k == 'own':
            ctx.calls.append(('own', fmt, id(x)))
            return 'O:%d:%r' % (x.n, fmt)
        if k in ('vec', 'set'):
            if self.custom:
                for e in x:
                    ctx.calls.append(('item', fmt, id(e)))
                c = [('c', id(e)) for e in x]
            else:
                c = [self.ser_item(e, fmt, ctx) for e in x]
            return c if k == 'vec' else set(c)
        if k == 'map':
            if self.custom:
                for a, e in x.items():
                    ctx.calls.append(('map', fmt, id(a), id(e)))
                return {('k', id(a)): ('c', id(e)) for a, e in x.items()}
            return {self.key.ser(a, fmt, ctx): self.ser_item(e, fmt, ctx) for a, e in x.items()}
        d = {}
        for n, f in self.fields.items():
            v = getattr(x, n, ABSENT)
            if v is not ABSENT:
                d[n] = f.ser(v, fmt, ctx)
        ctx.record(d)
        return d

    def same(self, x, y, what):
        k = self.k
        check(type(x) is type(y), '%s: %s instead of %s', what, type(y).__name__, type(x).__name__)
        if k in ('vec',):
            check(len(x) == len(y), '%s: length', what)
            for i, (a, b) in enumerate(zip(x, y)):
                self.same_item(a, b, '%s[%d]' % (what, i))
        elif k == 'map':
            check(set(x) == set(y), '%s: keys', what)
            for a in x:
                self.same_item(x[a], y[a], '%s[%s]' % (what, a))
        elif k in ('rec', 'cls'):
            for n, f in self.fields.items():
                a, b = getattr(x, n, ABSENT), getattr(y, n, ABSENT)
                check((a is ABSENT) == (b is ABSENT), '%s.%s: present', what, n)
                if a is not ABSENT:
                    f.same(a, b, '%s.%s' % (what, n))
        else:
            check(x == y, '%s: %s, expected %s', what, short(y), short(x))


WIDE = [False]


def size(toks):
    r = toks()
    if r == 30 and not WIDE[0]:
        WIDE[0] = True          # one long collection in a case
        return 40
    t = r % 16
    return t % 4 if t < 14 else 5 if t == 14 else 9


class Fld:
    lossy = False

    def __init__(self, t, mode):
        n = self.node = Node(t)
        T = () if n.cls is object else n.cls
        self.mode = mode
        self.kind = 'one'
        self.ser_kind = None
        if mode in (0, 1, 2, 11):
            self.declaration = field(type=T, mandatory=mode == 1)
        elif mode in (3, 4) and not (INVERTIBLE[0] and n.k != 'int'):
            self.ser_kind = 'custom'
            if n.k == 'int':
                self.declaration = field(type=T, serializer=self.serializer, factory=dec)
            else:
                self.lossy = True
                self.declaration = field(type=T, serializer=self.serializer)
        elif mode in (5, 6) and n.k != 'any':
            self.kind = 'vec'
            self.declaration = pvector_field(T, optional=mode == 6)
        elif mode in (7, 8) and n.k != 'any':
            self.kind = 'map'
            self.declaration = pmap_field(str, T, optional=mode == 8)
        elif mode in (9, 10) and n.k in ('int', 'str', 'own'):
            self.kind = 'set'
            self.declaration = pset_field(T, optional=mode == 10)
        else:
            self.declaration = field(type=T)
        self.lossy = self.lossy or n.lossy
        self.optional = mode in (6, 8, 10) and self.kind != 'one'

    def serializer(self, fmt, value):
        LOG.append(('field', fmt, id(value)))
        return self.encode(value)

    def encode(self, value):
        if self.node.k == 'int':
            return enc(value)
        return ('S', id(value))

    def build(self, toks):
        b = self.node.build
        if self.mode == 2 and toks() % 3 == 0:
            return ABSENT
        if self.optional and toks() % 3 == 0:
            return None
        if self.kind == 'one':
            return b(toks)
        n = size(toks)
        if self.kind == 'vec':
            return [b(toks) for _ in range(n)]
        if self.kind == 'set':
            return {b(toks) for _ in range(n)}
        return {'k%d' % i: b(toks) for i in range(n)}

    def ser(self, v, fmt, ctx):
        if self.ser_kind:
            ctx.calls.append(('field', fmt, id(v)))
            return self.encode(v)
        if v is None and self.optional:
            return None
        s = self.node.ser
        if self.kind == 'one':
            return s(v, fmt, ctx)
        if self.kind == 'vec':
            return [s(e, fmt, ctx) for e in v]
        if self.kind == 'set':
            return {s(e, fmt, ctx) for e in v}
        return {k: s(e, fmt, ctx) for k, e in v.items()}

    def same(self, a, b, what):
        if self.kind == 'one':
            return self.node.same(a, b, what)
        check(type(a) is type(b), '%s: %s instead of %s', what, type(b).__name__, type(a).__name__)
        if a is None:
            return
        if self.kind == 'vec':
            check(len(a) == len(b), '%s: length', what)
            for i, (p, q) in enumerate(zip(a, b)):
                self.node.same(p, q, '%s[%d]' % (what, i))
        elif self.kind == 'set':
            check(set(a) == set(b), what)
        else:
            check(set(a) == set(b), '%s: keys', what)
            for k in a:
                self.node.same(a[k], b[k], '%s[%s]' % (what, k))


ABSENT = object()


def make(base, name, d):
    return type(base)(name, (base,), dict(d))


class Ctx:
    def __init__(self, extra=None):
        self.calls = []
        self.extra = extra
        self.n = self.injected = self.records = 0

    def record(self, d):
        self.records += 1
        if self.extra:
            self.n += 1
            if self.extra[self.n % len(self.extra)]:
                d['unknown%d' % self.n] = ['extra', {'a': 1}]
                self.injected += 1


def plain_only(x, what):
    check(not isinstance(x, CheckedType), '%s: a %s is left in the serialized data', what, type(x).__name__)
    if isinstance(x, dict):
        for k, v in x.items():
            plain_only(k, what)
            plain_only(v, what)
    elif isinstance(x, (list, set, tuple)):
        for v in x:
            plain_only(v, what)


def scribble(d):
    """Modify serialized data everywhere."""
    if type(d) is dict:
        for v in d.values():
            scribble(v)
        d['scribble'] = 1
    elif type(d) is list:
        for v in d:
            scribble(v)
        d.append('scribble')
    elif type(d) is set:
        d.add('scribble')


def exact(a, b):
    if type(a) is not type(b):
        return False
    if type(a) is list or type(a) is tuple:
        return len(a) == len(b) and all(exact(x, y) for x, y in zip(a, b))
    if type(a) is dict:
        return set(a) == set(b) and all(exact(a[k], b[k]) for k in a)
    return a == b


def subclass(node, x):
    """An instance of the class is no instance of its subclass: create converts it and applies what the subclass adds."""
    plain = make(node.cls, 'Sub', {})
    if node.k != 'cls':         # a class instance is no mapping to create another one from
        y = plain.create(x)
        check(type(y) is plain, 'create of a subclass from an instance of its parent gives a %s', type(y).__name__)
        items = lambda z: dict(z.items()) if node.k in ('map', 'rec') else list(z) if node.k == 'vec' else set(z)
        check(items(y) == items(x), 'create of a subclass: %s, expected %s', short(y), short(x))
        strict = make(node.cls, 'Strict', {'__invariant__': lambda *a: (False, 'no')})
        if node.k == 'rec' or len(x):
            expect_exc(InvariantException, strict.create, x)
            expect_exc(InvariantException, strict.create, x, ignore_extra=True)
        else:
            check(type(strict.create(x)) is strict, 'create of an empty subclass')
    else:
        k, y = attempt(plain.create, x)
        check(k == 'exc' or type(y) is plain, 'create of a subclass from an instance of its parent gives a %s', type(y).__name__)
    if type(y) is plain:
        check(node.cls.create(y) is y, 'create of an instance of a subclass gives another object')


FORMATS = [None, 'yyyy', ('a', 1), 17, 0, '', False, ()]


class A(PRecord):
    x = field()
    y = field(type=(int, str))


class B(PClass):
    x = field()
    y = field()


class C(PRecord):
    z = field()


class D(PClass):
    z = field()
    x = field(initial=3)


class V(CheckedPVector):
    __type__ = int


def mixed(case, stats):
    """Source data in which some of the items are created already, of any of the declared types or of subclasses of them."""
    types = [A, B, C, D, V]
    first = types[case['first']]
    second = types[case['second']]
    if second is first:
        second = types[(case['second'] + 1) % 5]
    declared = [(first, second), (first, second, type(None)), (type(None), first, int, second)][case['none']]
    ignore = case['ignore']
    data, want = [], []

    def one(cls, n):
        return cls([n, n + 1]) if issubclass(cls, V) else cls(**{['x', 'x', 'z', 'z'][types.index(cls.__mro__[1] if cls not in types else cls)]: n})
    for what, n in case['mixed']:
        if what == 0:
            e = one(first, n)
            d = e.serialize()
            if ignore and first is not V:
                d['unknown'] = n
            data.append(d)
            want.append((False, e))
        elif what == 5:
            if case['none']:
                data.append(None)
                want.append((True, None))
        else:
            cls = [first, first, second, second][what - 1]
            e = one(cls if what in (1, 3) else make(cls, 'Sub', {}), n)
            data.append(e)
            want.append((True, e))
    where = case['where']
    stats.hit('mixed into %d' % where)
    keys = ['k%d' % i for i in range(len(data))]
    if where == 0:
        got = list(make(CheckedPVector, 'MV', {'__type__': declared}).create(data, ignore_extra=ignore))
    elif where == 1:
        got = make(CheckedPMap, 'MM', {'__key_type__': str, '__value_type__': declared}).create(dict(zip(keys, data)), ignore_extra=ignore)
        got = [got[k] for k in keys]
    elif where in (2, 3):
        got = make([PRecord, PClass][where - 2], 'MF', {'v': pvector_field(declared)}).create({'v': data}, ignore_extra=ignore)
        got = list(got.v)
    elif where in (4, 5):
        got = make([PRecord, PClass][where - 4], 'MG', {'v': pmap_field(str, declared, optional=True)}).create({'v': dict(zip(keys, data))}, ignore_extra=ignore)
        got = [got.v[k] for k in keys]
    elif where == 7:
        # records as keys, given as frozen plain data with or without unknown names
        R = make(PRecord, 'MK', {'x': field(type=int), 'y': field()})
        cls = make(CheckedPMap, 'MR', {'__key_type__': R, '__value_type__': declared})
        more = {'unknown': 1} if ignore else {}
        ks = [R(x=i, y='y') for i in range(len(data))]
        got = cls.create({k if i % 3 == 1 else freeze(dict(x=i, y='y', **more)): e for i, (k, e) in enumerate(zip(ks, data))}, ignore_extra=ignore)
        check(len(got) == len(ks) and all(type(k) is R for k in got), 'create: the keys are %s', short(list(got)))
        if more and data:
            expect_exc(AttributeError, cls.create, {freeze(dict(x=1, **more)): data[-1]})
        got = [got[k] for k in ks]
    else:
        got = list(make(CheckedPVector, 'MV', {'__type__': make(CheckedPVector, 'MI', {'__type__': declared})}).create([data, []], ignore_extra=ignore)[0])
    check(len(got) == len(want), 'create: %s, expected %s', short(got), short(want))
    for i, (g, (same, w)) in enumerate(zip(got, want)):
        check(g is w if same else type(g) is type(w) and g == w, 'create: item %d is %s, expected %s', i, short(g), short(w))
    stats.nontrivial = len(data) > 1


def run_case(case, stats):
    if 'mixed' in case:
        mixed(case, stats)
        return
    INVERTIBLE[0] = case['inv']
    node = Node(case['t'])
    toks = case['v']
    pos = [0]

    def tok():
        pos[0] += 1
        return toks[pos[0] % len(toks)] + pos[0] // len(toks)
    WIDE[0] = False
    x = node.build(tok)
    if WIDE[0]:
        stats.hit('a long collection')
    fmt = FORMATS[case['fmt']]
    ctx = Ctx()
    want = node.ser(x, fmt, ctx)
    del LOG[:]
    got = x.serialize() if fmt is None else x.serialize(fmt) if case['fmt'] % 2 else x.serialize(format=fmt)
    calls = list(LOG)
    check(exact(got, want), 'serialize gives %s, expected %s', short(got, 300), short(want, 300))
    plain_only(got, 'serialize')
    check(sorted(map(repr, calls)) == sorted(map(repr, ctx.calls)), 'serializer calls %s, expected %s', short(calls), short(ctx.calls))
    if calls:
        stats.hit('custom serializers')
    check(node.cls.create(x) is x, 'create of an instance gives another object')
    check(node.cls.create(x, ignore_extra=True) is x, 'create of an instance with ignore_extra gives another object')
    subclass(node, x)
    if not node.lossy:
        y = node.cls.create(got)
        check(x == y and y == x, 'create(serialize(x)) is %s, expected %s', short(y, 300), short(x, 300))
        node.same(x, y, 'create')
        check(exact(y.serialize(fmt), want), 'serialize after create differs')
        y = node.cls.create(got, ignore_extra=True)
        node.same(x, y, 'create with ignore_extra')
        c2 = Ctx(case['extra'])
        more = node.ser(x, fmt, c2)
        if c2.injected:
            stats.hit('extra keys')
            y = node.cls.create(more, ignore_extra=True)
            node.same(x, y, 'create with extra keys')
            check(x == y, 'create with extra keys: %s', short(y))
            expect_exc(AttributeError, node.cls.create, more)
        check(exact(got, want), 'create changed its input')
    else:
        stats.hit('serialization cannot be inverted')
    last = x.serialize(fmt)
    check(exact(last, want), 'second serialize differs')
    scribble(last)
    check(exact(x.serialize(fmt), want), 'serialize after the data it gave before was modified differs')
    stats.nontrivial = ctx.records >= 1 and len(core.dumps(case['t'])) > 40
