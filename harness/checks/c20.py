"""C20: a failing callback leaves every existing value intact (a failure is injected at every call of user code)."""
import copy
import pickle
import collections.abc
from hypothesis import strategies as st
import core
from core import fail, check, short
from gen import *
from pyrsistent import (pvector, pmap, pset, pbag, plist, pdeque, freeze, thaw, PRecord, PClass, field, CheckedPVector, CheckedPSet,
                        CheckedPMap, InvariantException, pvector_field, pset_field, pmap_field, immutable, discard, ny, get_in,
                        mutant, inc)


class Boom(Exception):
    pass


class BoomBase(BaseException):
    pass


class BoomKey(KeyError):
    pass


class BoomIndex(IndexError):
    pass


class BoomAttr(AttributeError):
    pass


class BoomType(TypeError):
    pass


class BoomValue(ValueError):
    pass


class BoomRuntime(RuntimeError):
    pass


EXCS = [Boom, BoomBase, BoomKey, BoomIndex, BoomAttr, BoomType, BoomValue, BoomRuntime]
BOOMS = tuple(EXCS)
SPECIAL = (BoomKey, BoomIndex, BoomAttr, BoomType)


class Fuse:
    count = 0
    at = 0             # fail at this call, 0: never
    exc = Boom
    thrown = None
    on = False


def tick(function=False):
    """A call of user code.  A KeyError or the like out of the comparison or hash of a key may be taken for a missing key, as in
    other mappings; out of a function or iterator that the user supplied it may not.  A ValueError out of a comparison (what an
    array raises when it is taken for a truth value) never may."""
    if not Fuse.on or Fuse.exc in SPECIAL and not function:
        return
    Fuse.count += 1
    if Fuse.count == Fuse.at:
        Fuse.thrown = Fuse.exc('call %d' % Fuse.at)
        raise Fuse.thrown


class K:
    """An element every method of which may fail."""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __eq__(self, other):
        tick()
        return isinstance(other, K) and self.s == other.s

    def __ne__(self, other):
        tick()
        return not (isinstance(other, K) and self.s == other.s)

    def __lt__(self, other):
        tick()
        return self.s < other.s

    def __le__(self, other):
        tick()
        return self.s <= other.s

    def __hash__(self):
        tick()
        return self.s % 3

    def __repr__(self):
        tick()
        return 'K%d' % self.s

    def __add__(self, n):
        tick()
        return K(self.s + n)

    def __reduce__(self):
        tick()
        return restore, (self.s,)


def restore(s):
    tick()
    return K(s)


def call(fn):
    """fn with a possible failure before it."""
    def g(*args, **kw):
        tick(True)
        return fn(*args, **kw)
    return g


def late(fn):
    """fn with a possible failure after it."""
    def g(*args, **kw):
        r = fn(*args, **kw)
        tick(True)
        return r
    return g


def call1(fn):
    def g(k):
        tick(True)
        return fn(k)
    return g


def call2(fn):
    def g(k, v):
        tick(True)
        return fn(k, v)
    return g


class Map(collections.abc.Mapping):
    """A mapping that may fail in every method."""

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        tick()
        for kk, v in self.d:
            if kk is k:
                return v
        raise KeyError(k)

    def __iter__(self):
        for k, _ in self.d:
            tick()
            yield k

    def __len__(self):          # only asked for as a hint, which may fail
        return len(self.d)


def it(items):
    """An iterator that may fail before every element and at the end."""
    for x in items:
        tick(True)
        yield x
    tick(True)


class TVec(CheckedPVector):
    __type__ = K
    __invariant__ = call(lambda n: (n.s != 1313, call(lambda: 'thirteen')))
    __serializer__ = staticmethod(call(lambda fmt, x: x.s))


class TSet(CheckedPSet):
    __type__ = K
    __invariant__ = call(lambda n: (n.s != 1313, 'thirteen'))


class TMap(CheckedPMap):
    __key_type__ = K
    __value_type__ = (K, int)
    __invariant__ = call(lambda k, v: (k.s != 1313, 'thirteen'))
    __serializer__ = staticmethod(call(lambda fmt, k, v: (k.s, v)))


class TRec(PRecord):
    a = field(type=int, mandatory=True, factory=call(int), invariant=call(lambda x: (x != 13, call(lambda: 'thirteen'))))
    b = field(serializer=call(lambda fmt, x: [x]), invariant=late(lambda x: (True, '')))
    c = field(initial=call(lambda: 7))
    xs = pvector_field(K, item_invariant=call(lambda x: (True, '')))
    mp = pmap_field(K, int)
    sub = field(type=(TVec, type(None)), initial=None)
    __invariant__ = call(lambda r: (r.a != 12, call(lambda: 'twelve')))


class TCls(PClass):
    a = field(type=int, mandatory=True, factory=call(int), invariant=call(lambda x: (x != 13, call(lambda: 'thirteen'))))
    b = field(serializer=call(lambda fmt, x: [x]), factory=late(lambda x: x))
    c = field(initial=call(lambda: 7))
    xs = pset_field(K)
    mp = pmap_field(K, int)
    __invariant__ = call(lambda r: (r.a != 12, call(lambda: 'twelve')))


class TImm(immutable('x, y', name='TImmBase')):
    def __new__(cls, x, y):
        tick()
        return super(TImm, cls).__new__(cls, x, y)


# ------------------------------------------------------------------ canonical forms

def canon(x):
    t = type(x)
    if t is K:
        return ('K', x.s)
    if t in (int, str, bool, float, type(None), bytes):
        return (t.__name__, x)
    if isinstance(x, TImm):
        return ('imm', canon(x.x), canon(x.y))
    if t in (list, tuple):
        return (t.__name__, [canon(e) for e in x])
    if t is type(pvector()) or t is TVec or t.__name__ in ('PVector', 'PythonPVector'):
        return ('vec', t.__name__, [canon(e) for e in x])
    if isinstance(x, CheckedPVector):
        return ('cvec', t.__name__, [canon(e) for e in x])
    if isinstance(x, TRec):
        return ('rec', sorted((repr(k), repr(canon(v))) for k, v in x.items()))
    if isinstance(x, TCls):
        return ('cls', sorted((f, repr(canon(getattr(x, f)))) for f in ('a', 'b', 'c', 'xs', 'mp') if hasattr(x, f)))
    if isinstance(x, collections.abc.Mapping) or t is dict:
        return (t.__name__, len(x), sorted((repr(canon(k)), repr(canon(v))) for k, v in x.items()))
    if isinstance(x, (set, frozenset)) or isinstance(x, collections.abc.Set):
        return (t.__name__, len(x), sorted(repr(canon(e)) for e in x))
    if t is type(pbag([])):
        return ('bag', len(x), sorted(repr(canon(e)) for e in x))
    if t is type(pdeque()):
        return ('deque', x.maxlen, len(x), [canon(e) for e in x])
    if t in (type(plist()), type(plist([1]))):
        return ('list', len(x), [canon(e) for e in x])
    return ('other', t.__name__)


BUILD = {
    'vec': lambda w: pvector(w.base),
    'vec2': lambda w: w.vec.append(w.new),
    'twin': lambda w: pvector([K(s) for s in range(w.n)]),
    'map': lambda w: pmap({k: k.s for k in w.base}, [0, 0, 1, 64][w.j % 4]),
    'map2': lambda w: w.map.set(w.new, 1),
    'mtwin': lambda w: pmap({K(s): s for s in reversed(range(w.n))}),
    'set': lambda w: pset(w.base),
    'set2': lambda w: w.set.add(w.new).discard(w.old),
    'stwin': lambda w: pset([K(s) for s in reversed(range(w.n))]),
    'bag': lambda w: pbag(w.base + w.base[:3]),
    'bag2': lambda w: pbag([K(s) for s in range(0, w.n + 3, 2)] + w.base[:1]),
    'list': lambda w: plist(w.base),
    'ltwin': lambda w: plist([K(s) for s in range(w.n)]),
    'deque': lambda w: pdeque(w.base, [None, w.n, w.n + 2][w.j % 3]),
    'dtwin': lambda w: pdeque([K(s) for s in range(w.n)]),
    'cvec': lambda w: TVec(w.base),
    'cset': lambda w: TSet(w.base),
    'cmap': lambda w: TMap({k: 1 for k in w.base}),
    'rec': lambda w: TRec(a=1, b=w.new, xs=w.base[:5], mp={k: 1 for k in w.base[:4]}, sub=TVec(w.base[:3])),
    'cls': lambda w: TCls(a=1, b=w.new, xs=w.base[:5], mp={k: 1 for k in w.base[:4]}),
    'imm': lambda w: TImm(w.new, 2),
    'nest': lambda w: freeze({'a': [{'k': k, 'l': [k, 1]} for k in w.base[:6]], 'm': {k: {'v': 1} for k in w.base[:6]}}),
    'plain': lambda w: {'a': list(w.base[:6]), 's': set(w.base[:6]), 'd': {k: [k] for k in w.base[:6]}, 't': (1, [2])},
}
ALSO = {'vec': ['vec2', 'twin'], 'map': ['map2'], 'set': ['set2'], 'list': ['ltwin'], 'nest': ['plain']}


class W:
    """A fresh world; two worlds of one case are equal."""

    def __init__(self, case, names=()):
        n, i, j, m = case['n'], case['i'], case['j'], case['m']
        self.n, self.j = n, j
        base = [K(s) for s in range(n)]
        self.base = base
        self.i = i % n if n else 0
        self.old = K(self.i)                    # equal to, but not the same object as, an element
        self.new = K(500 + j)
        self.more = [K((300 + k * 2) if k % 3 else k) for k in range(m)]       # some new, some equal to present ones
        self.fresh = [K(600 + k) for k in range(m)]
        for name in names:
            getattr(self, name)

    def __getattr__(self, name):
        """Values are built when they are first used, without failures."""
        on, Fuse.on = Fuse.on, False
        try:
            x = BUILD[name](self)
        finally:
            Fuse.on = on
        self.__dict__[name] = x
        return x

    def snap(self):
        return [(k, canon(v)) for k, v in sorted(self.__dict__.items())]


def pick(xs, i):
    return xs[i % len(xs)] if len(xs) else None


OPS = {
    # construction
    'pvector': lambda w: pvector(it(w.more)),
    'pset': lambda w: pset(it(w.more)),
    'pmap': lambda w: pmap(Map([(k, 1) for k in w.more])),
    'pmap_dict': lambda w: pmap({k: 1 for k in w.more}),
    'pbag': lambda w: pbag(it(w.more)),
    'plist': lambda w: plist(it(w.more)),
    'plist_rev': lambda w: plist(w.vec, reverse=True),
    'pdeque': lambda w: pdeque(it(w.more), 3),
    'tvec': lambda w: TVec(it(w.more)),
    'tset': lambda w: TSet(it(w.more)),
    'tmap': lambda w: TMap({k: 1 for k in w.more}),
    'tvec_create': lambda w: TVec.create(w.more),
    'tset_create': lambda w: TSet.create(w.more),
    'tmap_create': lambda w: TMap.create({k: 1 for k in w.more}),
    'tvec_bad': lambda w: TVec(w.more + [K(1313)]),
    'trec': lambda w: TRec(a=3, b=w.new, xs=w.more, mp={k: 2 for k in w.more}),
    'trec_bad': lambda w: TRec(a=13, b=w.new, xs=w.more),
    'trec_bad2': lambda w: TRec(a=12, b=w.new, xs=w.more),
    'trec_create': lambda w: TRec.create({'a': 4, 'xs': w.more, 'sub': None}),
    'tcls': lambda w: TCls(a=3, b=w.new, xs=w.more, mp={k: 2 for k in w.more}),
    'tcls_bad': lambda w: TCls(a=13, b=w.new, xs=w.more),
    'tcls_bad2': lambda w: TCls(a=12, b=w.new),
    'tcls_create': lambda w: TCls.create({'a': 4, 'xs': w.more}),
    'freeze': lambda w: freeze(w.plain),
    'freeze_lax': lambda w: freeze(w.plain, False),
    'thaw': lambda w: thaw(w.nest),
    'mutant': lambda w: mutant(call(lambda p, q=None: {'r': [p, q]}))(w.plain, q=[1]),
    # vectors
    'v.extend': lambda w: w.vec.extend(it(w.more)),
    'v+': lambda w: w.vec + w.more,
    'v.set': lambda w: w.vec.set(w.i, w.new),
    'v.remove': lambda w: w.vec.remove(w.old),
    'v.remove_missing': lambda w: w.vec.remove(w.new),
    'v.index': lambda w: w.vec.index(w.old),
    'v.index_missing': lambda w: w.vec.index(w.new),
    'v.index_from': lambda w: w.vec.index(w.old, 0, w.n),
    'v >=': lambda w: [w.vec >= w.twin, w.vec > w.twin, w.vec < w.twin],
    'v sorted': lambda w: sorted([w.vec, w.twin, w.vec2, pvector([w.new])]),
    'v.mset': lambda w: w.vec.mset(0, w.new, w.i, w.old),
    'v.count': lambda w: w.vec.count(w.old),
    'v in': lambda w: w.old in w.vec,
    'v ==': lambda w: [w.vec == w.twin, w.vec != w.twin, w.vec == list(w.twin)],
    'v <': lambda w: [w.vec < w.vec2, w.vec2 <= w.twin],
    'v hash': lambda w: hash(w.vec),
    'v repr': lambda w: repr(w.vec),
    'v.transform': lambda w: w.vec.transform([w.i], call(lambda e: e + 1)),
    'v.transform_ny': lambda w: w.vec.transform([ny], late(lambda e: e + 100)),
    'v.transform_pred': lambda w: w.vec.transform([call1(lambda i: i % 2 == 0)], call(lambda e: 5)),
    'v.transform_pred2': lambda w: w.vec.transform([call2(lambda i, e: i % 2 == 0)], discard),
    # maps
    'm.set': lambda w: w.map.set(w.new, 1),
    'm.set_old': lambda w: w.map.set(w.old, 1),
    'm.remove': lambda w: w.map.remove(w.old),
    'm.remove_missing': lambda w: w.map.remove(w.new),
    'm.discard': lambda w: w.map.discard(w.old),
    'm.update': lambda w: w.map.update({k: 5 for k in w.more}),
    'm.update_map': lambda w: w.map.update(Map([(k, 5) for k in w.more]), pmap({k: 6 for k in w.fresh})),
    'm.update_with': lambda w: w.map.update_with(call(lambda p, q: (p, q)), {k: 5 for k in w.more}, Map([(k, 7) for k in w.more])),
    'm |': lambda w: w.map | pmap({k: 5 for k in w.more}),
    'm +': lambda w: w.map + {k: 5 for k in w.more},
    'm[]': lambda w: w.map[w.old],
    'm get': lambda w: [w.map.get(w.old), w.map.get(w.new, 3)],
    'm in': lambda w: [w.old in w.map, w.new in w.map],
    'm ==': lambda w: [w.map == w.mtwin, w.map != w.map2, w.map == dict(w.mtwin)],
    'm hash': lambda w: [hash(w.map) == hash(w.mtwin)],
    'm repr': lambda w: len(repr(w.map)),
    'm keys': lambda w: [w.map.keys(), w.map.keys() | w.set2],
    'm.transform': lambda w: w.map.transform([w.old], call(lambda v: v + 1), [w.new, 'x'], 5),
    'm.transform_ny': lambda w: w.map.transform([ny], call(lambda v: v + 1)),
    'm.transform_pred': lambda w: w.map.transform([call1(lambda k: k.s % 2 == 0)], discard),
    'm items in': lambda w: [(w.old, w.i) in w.map.items(), (w.new, 1) in w.map.items(), (w.old, w.new) in w.map.items()],
    'm values in': lambda w: [w.old in pmap({1: w.new, 2: w.old}).values(), w.new in w.map.values()],
    'm items ==': lambda w: [w.map.items() == w.mtwin.items(), w.map.items() == w.map2.items()],
    'm items repr': lambda w: [len(repr(w.map.items())), len(repr(w.map.values()))],
    'm values ==': lambda w: [pmap({1: w.new}) == pmap({1: K(w.new.s)}), pmap({1: w.new}) == {1: w.old}],
    'm.get dict': lambda w: {K(s): 1 for s in range(5)} == w.map,
    'm ror': lambda w: [w.map.update(w.mtwin), w.mtwin.update(w.map2, w.map)],
    'm attribute': lambda w: [pmap({w.old: 1, w.new: 2, 'word': 3}, pre_size=1).word, hasattr(pmap({w.old: 1, w.new: 2}, pre_size=1), 'word')],
    'm copy': lambda w: [w.map.copy(), copy.copy(w.map)],
    'm dict': lambda w: dict(w.map),
    # sets
    's.add': lambda w: w.set.add(w.new),
    's.add_old': lambda w: w.set.add(w.old),
    's.update': lambda w: w.set.update(it(w.more)),
    's.remove': lambda w: w.set.remove(w.old),
    's.remove_missing': lambda w: w.set.remove(w.new),
    's.discard': lambda w: w.set.discard(w.old),
    's |': lambda w: w.set | w.set2,
    's &': lambda w: w.set & w.stwin,
    's -': lambda w: w.set - w.set2,
    's ^': lambda w: w.set ^ w.set2,
    's | set': lambda w: w.set | set(w.more),
    's <': lambda w: [w.set < w.set2, w.set <= w.stwin, w.set >= w.stwin, w.set.isdisjoint(w.set2)],
    's ==': lambda w: [w.set == w.stwin, w.set != w.set2],
    's hash': lambda w: hash(w.set) == hash(w.stwin),
    's.union': lambda w: w.set.union(it(w.more)),
    's.intersection': lambda w: w.set.intersection(it(w.more)),
    's.difference': lambda w: w.set.difference(it(w.more)),
    's.symmetric_difference': lambda w: w.set.symmetric_difference(it(w.more)),
    's.isdisjoint': lambda w: w.set.isdisjoint(it(w.fresh)),
    's.issubset': lambda w: [w.set.issubset(w.set2), w.set.issuperset(w.set2)],
    's reflected': lambda w: [set(w.more) | w.set, set(w.more) & w.set, set(w.more) - w.set, set(w.more) ^ w.set],
    's == set': lambda w: [w.set == set(w.base), set(w.more) == w.set, w.set < set(w.base)],
    's in': lambda w: w.old in w.set,
    's repr': lambda w: len(repr(w.set)),
    # bags
    'b.add': lambda w: w.bag.add(w.old),
    'b.update': lambda w: w.bag.update(it(w.more)),
    'b.remove': lambda w: w.bag.remove(w.old),
    'b.count': lambda w: w.bag.count(w.old),
    'b +': lambda w: w.bag + w.bag2,
    'b -': lambda w: w.bag - w.bag2,
    'b |': lambda w: w.bag | w.bag2,
    'b &': lambda w: w.bag & w.bag2,
    'b ==': lambda w: w.bag == pbag(list(w.bag)),
    'b remove missing': lambda w: w.bag.remove(w.new),
    'b in': lambda w: [w.old in w.bag, w.new in w.bag],
    'b repr': lambda w: len(repr(w.bag)),
    'b hash': lambda w: hash(w.bag) == hash(pbag(list(w.bag)[::-1])),
    # lists
    'l.mcons': lambda w: w.list.mcons(it(w.more)),
    'l.remove': lambda w: w.list.remove(w.old),
    'l.remove_missing': lambda w: w.list.remove(w.new),
    'l ==list': lambda w: [w.list == w.list.cons(w.new).rest, w.list != w.ltwin],
    'l in': lambda w: [w.old in w.list, w.new in w.list],
    'l.index_missing': lambda w: w.list.index(w.new),
    'l.index': lambda w: w.list.index(w.old),
    'l.count': lambda w: w.list.count(w.old),
    'l ==': lambda w: w.list == w.ltwin,
    'l <': lambda w: w.list < w.ltwin,
    'l hash': lambda w: hash(w.list),
    'l repr': lambda w: repr(w.list),
    # deques
    'd.extend': lambda w: w.deque.extend(it(w.more)),
    'd.extendleft': lambda w: w.deque.extendleft(it(w.more)),
    'd.remove': lambda w: w.deque.remove(w.old),
    'd.remove_missing': lambda w: w.deque.remove(w.new),
    'd in': lambda w: [w.old in w.deque, w.new in w.deque],
    'd !=': lambda w: [w.deque != w.dtwin, w.deque > w.dtwin],
    'd.index_missing': lambda w: w.deque.index(w.new),
    'd.index': lambda w: w.deque.index(w.old),
    'd.count': lambda w: w.deque.count(w.old),
    'd ==': lambda w: w.deque == w.dtwin,
    'd <': lambda w: w.deque < w.dtwin,
    'd hash': lambda w: hash(w.deque),
    'd repr': lambda w: repr(w.deque),
    # checked collections
    'cv.append': lambda w: w.cvec.append(w.new),
    'cv.append_bad': lambda w: w.cvec.append(K(1313)),
    'cv.extend': lambda w: w.cvec.extend(it(w.more)),
    'cv.set': lambda w: w.cvec.set(w.i, w.new),
    'cv.mset': lambda w: w.cvec.mset(w.i, w.new, 0, w.old),
    'cv.transform': lambda w: w.cvec.transform([ny], call(lambda e: e + 50)),
    'cv.serialize': lambda w: w.cvec.serialize(),
    'cv.create': lambda w: TVec.create(w.vec),
    'cv repr': lambda w: repr(w.cvec),
    'cv ==': lambda w: [w.cvec == w.twin, w.cvec == TVec(w.twin)],
    'cs.add': lambda w: w.cset.add(w.new),
    'cs.add_bad': lambda w: w.cset.add(K(1313)),
    'cs.update': lambda w: w.cset.update(it(w.more)),
    'cs.remove': lambda w: w.cset.remove(w.old),
    'cs.discard': lambda w: w.cset.discard(w.old),
    'cs |': lambda w: [w.cset | w.set2, w.cset & w.set2, w.cset - w.set2],
    'cs ==': lambda w: [w.cset == w.stwin, hash(w.cset) == hash(w.stwin)],
    'cs repr': lambda w: len(repr(w.cset)),
    'cs.serialize': lambda w: len(w.cset.serialize()),
    'cs.create': lambda w: TSet.create(w.set),
    'cm.set': lambda w: w.cmap.set(w.new, 4),
    'cm.set_bad': lambda w: w.cmap.set(K(1313), 4),
    'cm.update': lambda w: w.cmap.update({k: 9 for k in w.more}),
    'cm.transform': lambda w: w.cmap.transform([ny], call(lambda v: v + 1)),
    'cm.remove': lambda w: w.cmap.remove(w.old),
    'cm.discard': lambda w: w.cmap.discard(w.old),
    'cm.update_with': lambda w: w.cmap.update_with(call(lambda p, q: p + q), {k: 5 for k in w.more}),
    'cm |': lambda w: w.cmap | pmap({k: 5 for k in w.more}),
    'cm ==': lambda w: [w.cmap == {k: 1 for k in w.base}, w.cmap == w.map],
    'cm repr': lambda w: len(repr(w.cmap)),
    'cm.serialize': lambda w: w.cmap.serialize(),
    'cm.create': lambda w: TMap.create(w.cmap),
    # records and classes
    'r.set': lambda w: w.rec.set(a=9, b=w.new, xs=w.more),
    'r.set_bad': lambda w: w.rec.set(a=13),
    'r.set_bad2': lambda w: w.rec.set('a', 12),
    'r.update': lambda w: w.rec.update({'a': 5, 'b': 6}),
    'r.remove': lambda w: w.rec.remove('b'),
    'r.transform': lambda w: w.rec.transform(['xs', ny], call(lambda e: e + 50), ['a'], call(lambda x: x + 1)),
    'r.set_mp': lambda w: w.rec.set(mp={k: 3 for k in w.more}),
    'r.update_with': lambda w: w.rec.update_with(call(lambda p, q: q), {'a': 8, 'b': w.old}),
    'r.discard': lambda w: w.rec.discard('b'),
    'r.serialize': lambda w: w.rec.serialize(),
    'r ==': lambda w: w.rec == w.rec.set(b=K(w.new.s)),
    'r hash': lambda w: hash(w.rec) == hash(w.rec.set(b=K(w.new.s))),
    'r repr': lambda w: len(repr(w.rec)),
    'c.set': lambda w: w.cls.set(a=9, b=w.new, xs=w.more),
    'c.set_bad': lambda w: w.cls.set(a=13),
    'c.set_bad2': lambda w: w.cls.set('a', 12),
    'c.remove': lambda w: w.cls.remove('b'),
    'c.transform': lambda w: w.cls.transform(['mp', ny], call(lambda e: e + 50), ['a'], call(lambda x: x + 1)),
    'c.serialize': lambda w: w.cls.serialize(),
    'c ==': lambda w: w.cls == w.cls.set(b=K(w.new.s)),
    'c hash': lambda w: hash(w.cls) == hash(w.cls.set(b=K(w.new.s))),
    'c repr': lambda w: len(repr(w.cls)),
    'c.set_mp': lambda w: w.cls.set(mp={k: 3 for k in w.more}),
    'i ==': lambda w: [w.imm == TImm(K(w.new.s), 2), w.imm < TImm(w.old, 3), hash(w.imm) == hash((w.new, 2))],
    'i repr': lambda w: len(repr(w.imm)),
    'i.set': lambda w: w.imm.set(x=5),
    # nested
    'n.transform': lambda w: w.nest.transform(['a', ny, 'l', 0], call(lambda e: e + 1)),
    'n.transform2': lambda w: w.nest.transform(['m', call1(lambda k: k.s % 2 == 0), 'v'], call(lambda e: e + 1), ['a', call1(lambda i: i < 3)], discard),
    'n.transform_new': lambda w: w.nest.transform(['m', w.new, 'q', 'z'], call(lambda e: 3)),
    'n get_in': lambda w: get_in(['m', w.old, 'v'], w.nest),
    'm get_in': lambda w: [get_in([w.old], w.map, 3), get_in([w.new], w.map, 3), get_in([w.new, 'x'], w.map)],
    'n hash': lambda w: hash(w.nest) is not None,
    'n refreeze': lambda w: freeze(thaw(w.nest)),
}
for _name in ('vec', 'map', 'set', 'bag', 'list', 'deque', 'cvec', 'cset', 'cmap', 'rec', 'cls', 'nest'):
    OPS['pickle ' + _name] = lambda w, _name=_name: pickle.loads(pickle.dumps(getattr(w, _name), 2))
    OPS['deepcopy ' + _name] = lambda w, _name=_name: copy.deepcopy(getattr(w, _name))
NAMES = sorted(OPS)


# evolver operations: kind, fn(w, e), elements added by a bulk operation (or None)
def _pairs(xs):
    return {k: 9 for k in xs}


EVOPS = {
    'v set': ('vec', lambda w, e: e.set(w.i, w.new), None),
    'v extend': ('vec', lambda w, e: e.extend(it(w.fresh)), 'fresh'),
    'v del': ('vec', lambda w, e: e.__delitem__(w.i), None),
    'v persistent': ('vec', lambda w, e: canon(e.persistent()), None),
    'm set': ('map', lambda w, e: e.set(w.new, 3), None),
    'm set_old': ('map', lambda w, e: e.set(w.old, 3), None),
    'm remove': ('map', lambda w, e: e.remove(w.old), None),
    'm get': ('map', lambda w, e: e[w.old], None),
    'm in': ('map', lambda w, e: w.new in e, None),
    's add': ('set', lambda w, e: e.add(w.new), None),
    's add_old': ('set', lambda w, e: e.add(w.old), None),
    's remove': ('set', lambda w, e: e.remove(w.old), None),
    'cv append': ('cvec', lambda w, e: e.append(w.new), None),
    'cv extend': ('cvec', lambda w, e: e.extend(it(w.fresh)), 'fresh'),
    'cv set': ('cvec', lambda w, e: e.set(w.i, w.new), None),
    'cv persistent': ('cvec', lambda w, e: canon(e.persistent()), None),
    'cs add': ('cset', lambda w, e: e.add(w.new), None),
    'cs add_old': ('cset', lambda w, e: e.add(w.old), None),
    'cs remove': ('cset', lambda w, e: e.remove(w.old), None),
    'cm set': ('cmap', lambda w, e: e.set(w.new, 3), None),
    'cm set_old': ('cmap', lambda w, e: e.set(w.old, 3), None),
    'cm remove': ('cmap', lambda w, e: e.remove(w.old), None),
    'r set': ('rec', lambda w, e: e.set('a', 4), None),
    'r set_xs': ('rec', lambda w, e: e.set('xs', w.more), None),
    'r persistent': ('rec', lambda w, e: canon(e.persistent()), None),
    'c set': ('cls', lambda w, e: e.set('a', 4), None),
    'c persistent': ('cls', lambda w, e: canon(e.persistent()), None),
}
EVNAMES = sorted(EVOPS)


def read_ev(kind, w, e):
    """Contents of an evolver by reading, without persisting it."""
    if kind in ('vec', 'cvec'):
        return [canon(e[i]) for i in range(len(e))]
    if kind in ('map', 'cmap'):
        keys = w.base + [w.new] + w.more + w.fresh
        return [len(e), [(k.s, canon(e[k])) for k in keys if k in e]]
    if kind in ('set', 'cset'):
        return len(e)           # the rest is seen when it is persisted
    if kind == 'rec':
        return [(f, canon(e[f])) for f in ('a', 'b', 'c', 'xs', 'mp') if f in e]
    return [(f, canon(e[f])) for f in ('a', 'b', 'c', 'xs', 'mp')]


def prepare(kind, w, pre):
    """An evolver of the kind with some changes already made."""
    e = getattr(w, kind).evolver()
    if pre == 0:
        return e
    x = K(900)
    if kind in ('vec', 'cvec'):
        e.append(x)
        if w.n and pre > 1:
            e[0] = K(901)
    elif kind in ('map', 'cmap'):
        e.set(x, 8)
        if pre > 1:
            for k in range(pre * 4):
                e.set(K(910 + k), k)
    elif kind in ('set', 'cset'):
        e.add(x)
        if pre > 1:
            for k in range(pre * 4):
                e.add(K(910 + k))
    else:
        e.set('b', x)
    return e


def run_fused(fn, at, exc):
    """(outcome, calls of user code)"""
    Fuse.count, Fuse.at, Fuse.exc, Fuse.thrown, Fuse.on = 0, at, exc, None, True
    try:
        r = fn()
        Fuse.on = False
        return ('ok', canon(r)), Fuse.count
    except BOOMS as e:
        Fuse.on = False
        if e is Fuse.thrown:
            return ('boom',), Fuse.count
        return ('other boom', repr(e)), Fuse.count
    except Exception as e:
        Fuse.on = False
        return ('exc', type(e).__name__), Fuse.count
    finally:
        Fuse.on = False


fields = dict(n=st.sampled_from([0, 1, 2, 3, 4, 5, 6, 8, 9, 16, 17, 31, 32, 33, 34, 65]), i=st.integers(0, 40), j=st.integers(0, 6),
              m=st.sampled_from([0, 1, 2, 3, 5, 9, 17, 33, 40]), base=st.sampled_from([0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7]), part=st.integers(0, 6))


def strategies(spec):
    return [('op', st.fixed_dictionaries(dict(fields, op=st.sampled_from(NAMES))), 5),
            ('evolver', st.fixed_dictionaries(dict(fields, ev=st.sampled_from(EVNAMES), pre=st.integers(0, 3))), 2)]


def enumerated(spec):
    names = [('op', o) for o in NAMES] + [('ev', o) for o in EVNAMES]
    for q, (f, o) in enumerate(names):
        if q % 4 == spec['shard'] // 2:
            for n, m, base in ((4, 3, 0), (9, 5, 1), (40, 37, 0)) + tuple((5, 3, b) for b in range(2, len(EXCS))):
                c = {'n': n, 'i': 1, 'j': 1, 'm': m, 'base': base, 'part': 0, f: o}
                if f == 'ev':
                    c['pre'] = 1
                yield c


LIMIT = 45


def points(total, part):
    """Every failure point up to LIMIT, otherwise the ends and a systematic part of the middle."""
    if total <= LIMIT:
        return range(1, total + 1)
    step = max(1, (total - 20) // (LIMIT - 20))
    return sorted(set(range(1, 11)) | set(range(total - 9, total + 1)) | set(range(11 + part % step, total - 9, step)))


def run_case(case, stats):
    exc = EXCS[int(case['base'])]
    Fuse.on = False
    if 'op' in case:
        name = case['op']
        fn = OPS[name]
        w = W(case)
        normal, total = run_fused(lambda: fn(w), 0, exc)
        names = [n for n in w.__dict__ if n in BUILD]
        names += [n2 for n in names for n2 in ALSO.get(n, [])]
        w = W(case, names)
        before = w.snap()
        again, total2 = run_fused(lambda: fn(w), 0, exc)
        compare(before, w.snap(), name)
        check(again == normal and total == total2, '%s gives %s and %s for equal arguments', name, short(normal), short(again))
        stats.hit(name)
        stats.hit('failure points', total)
        for at in points(total, case['part']):
            w = W(case, names)
            out, _ = run_fused(lambda: fn(w), at, exc)
            stats.hit('failures injected')
            check(out == ('boom',), '%s: the exception raised by call %d of user code does not reach the caller: %s', name, at, out[:2])
            compare(before, w.snap(), '%s, failing at call %d' % (name, at))
            again, _ = run_fused(lambda: fn(w), 0, exc)
            check(again == normal, '%s repeated after a failure at call %d gives %s instead of %s', name, at, short(again), short(normal))
            compare(before, w.snap(), '%s, repeated after failing at call %d' % (name, at))
        stats.nontrivial = total > 0
        return
    name = case['ev']
    kind, fn, bulk = EVOPS[name]
    pre = case['pre']
    names = [kind] + ALSO.get(kind, [])
    w = W(case, names)
    e = prepare(kind, w, pre)
    start = read_ev(kind, w, e)
    before = w.snap()
    normal, total = run_fused(lambda: fn(w, e) and None, 0, exc)
    after = read_ev(kind, w, e)
    persisted = canon(e.persistent())
    w0 = W(case, names)
    e0 = prepare(kind, w0, pre)
    plain = canon(e0.persistent())
    stats.hit('evolver ' + name)
    stats.hit('failure points', total)
    for at in points(total, case['part']):
        w = W(case, names)
        e = prepare(kind, w, pre)
        out, _ = run_fused(lambda: fn(w, e) and None, at, exc)
        stats.hit('failures injected')
        what = 'evolver %s, failing at call %d' % (name, at)
        check(out == ('boom',), '%s: the exception does not reach the caller: %s', what, out[:2])
        compare(before, w.snap(), what)
        got = read_ev(kind, w, e)
        if bulk is None:
            check(got == start, '%s: the evolver reads %s instead of its previous contents %s', what, short(got), short(start))
            if at % 2:
                check(canon(e.persistent()) == plain, '%s: the evolver persists as something else than its previous contents', what)
            again, _ = run_fused(lambda: fn(w, e) and None, 0, exc)
            check(again == normal, '%s: repeated it gives %s instead of %s', what, short(again), short(normal))
            check(read_ev(kind, w, e) == after, '%s: repeated the evolver has other contents', what)
            check(canon(e.persistent()) == persisted, '%s: repeated the evolver persists as something else', what)
        else:
            extra = [canon(x) for x in getattr(w, bulk)]
            check(any(got == start + extra[:q] for q in range(len(extra) + 1)), '%s: the evolver reads %s', what, short(got))
            p = canon(e.persistent())
            check(p[2] == got, '%s: the evolver persists as something else than it reads', what)
        compare(before, w.snap(), what + ', afterwards')
    stats.nontrivial = total > 0


def compare(a, b, what):
    if a != b:
        for (k, x), (_, y) in zip(a, b):
            if x != y:
                fail('%s: the existing %s changed from %s to %s', what, k, short(x), short(y))
        fail('%s: values changed', what)
