"""Values of every kind and a table of operations on them, used by C01, C20 and C23.

An operation is a function (x, a, b, other) -> result; `a` and `b` are small integers, `other(kind)` gives another value.
Operations may raise any ordinary exception: the checks that use this table only compare what happens.
"""
import copy
import pickle
import core
from core import key, val, Coll, KEYS, NKEYS
from pyrsistent import (pvector, pmap, pset, pbag, plist, pdeque, v, m, s, b, l, dq, freeze, thaw, PRecord, PClass, field,
                        CheckedPVector, CheckedPSet, CheckedPMap, InvariantException, pvector_field, pset_field,
                        pmap_field, immutable, inc, discard, ny, rex, get_in, optional, mutant)


class IntVec(CheckedPVector):
    __type__ = int
    __invariant__ = lambda n: (n != 13, 'thirteen')


class IntSet(CheckedPSet):
    __type__ = int
    __invariant__ = lambda n: (n != 13, 'thirteen')


class IntMap(CheckedPMap):
    __key_type__ = int
    __value_type__ = (int, str)
    __invariant__ = lambda k, val: (k != 13, 'thirteen')


class Rec(PRecord):
    a = field(type=int, mandatory=True, invariant=lambda x: (x != 13, 'thirteen'))
    b = field()
    c = field(initial=0)
    xs = pvector_field(int)
    __invariant__ = lambda r: (r.a != 12, 'twelve')


class Cls(PClass):
    a = field(type=int, mandatory=True, invariant=lambda x: (x != 13, 'thirteen'))
    b = field()
    c = field(initial=0)
    xs = pset_field(int)
    mp = pmap_field(int, int)
    __invariant__ = lambda r: (r.a != 12, 'twelve')


class Imm(immutable('x, y, z_', name='ImmBase')):
    def __new__(cls, x, y, z_):
        if x == 13:
            raise ValueError('thirteen')
        return super(Imm, cls).__new__(cls, x, y, z_)


KINDS = ['vec', 'map', 'set', 'bag', 'list', 'deque', 'cvec', 'cset', 'cmap', 'rec', 'cls', 'imm', 'nest']


def kind_of(x):
    t = type(x)
    for cls, k in ((IntVec, 'cvec'), (IntSet, 'cset'), (IntMap, 'cmap'), (Rec, 'rec'), (Cls, 'cls'), (Imm, 'imm')):
        if t is cls:
            return k
    return _TYPES.get(t)


_TYPES = {type(pvector()): 'vec', type(pmap()): 'map', type(pset()): 'set', type(pbag([])): 'bag', type(plist([1])): 'list',
          type(plist()): 'list', type(pdeque()): 'deque'}


def E(a):
    """A hashable element."""
    return key(a) if a % 4 else key(a % 40)


def F(a):
    """An element whose != is consistent with == (a class instance compares its fields with !=)."""
    e = E(a)
    return e if not isinstance(e, core.BadNe) else a


def ints(a, n):
    return [(a * 7 + i * 3) % 90 + 14 for i in range(n)]


def make(kind, a, n):
    """A value of the kind with about n elements, and the Python container it was made from (or None)."""
    if kind == 'vec':
        src = [E(a + i) for i in range(n)]
        return pvector(src), src
    if kind == 'map':
        src = {E(a + i): val((a + i) % 40) for i in range(n)}
        return pmap(src), src
    if kind == 'set':
        src = {E(a + i) for i in range(n)}
        return pset(src), src
    if kind == 'bag':
        src = [E(a + i % 5) for i in range(n)]
        return pbag(src), src
    if kind == 'list':
        src = [E(a + i) for i in range(min(n, 60))]
        return plist(src), src
    if kind == 'deque':
        src = [E(a + i) for i in range(min(n, 60))]
        return pdeque(src, maxlen=[None, None, 5, n + 3][a % 4]), src
    if kind == 'cvec':
        src = ints(a, n)
        return IntVec(src), src
    if kind == 'cset':
        src = set(ints(a, min(n, 80)))
        return IntSet(src), src
    if kind == 'cmap':
        src = {i: i + 1 for i in ints(a, min(n, 80))}
        return IntMap(src), src
    if kind == 'rec':
        src = {'a': a + 20, 'b': E(a), 'xs': ints(a, min(n, 40))}
        return Rec.create(src), src
    if kind == 'cls':
        src = {'a': a + 20, 'b': F(a), 'xs': set(ints(a, min(n, 10))), 'mp': {1: a}}
        return Cls.create(src), src
    if kind == 'imm':
        return Imm(a + 20, E(a), n), None
    # nest
    src = {'k%d' % i: [{'v': j, 'w': [1, 2, {'z': i}]} for j in range(min(n, 40) % 7)] for i in range(a % 4 + 1)}
    src['t'] = (1, [a])
    src['s'] = {1, a}
    return freeze(src), src


HOWS = 5


def build(kind, a, n, how):
    """A value like that of make, by another construction history: 0 constructor, 1 element by element, 2 in one go onto
    an empty one, 3 through an evolver, 4 too much and back again.  Kinds without such a history are constructed."""
    x, src = make(kind, a, n)
    if how == 0 or kind not in ('vec', 'map', 'set', 'bag', 'list', 'deque', 'cvec', 'cset', 'cmap'):
        return x, src
    empty = {'vec': pvector, 'map': pmap, 'set': pset, 'bag': pbag, 'list': plist, 'deque': pdeque, 'cvec': IntVec,
             'cset': IntSet, 'cmap': IntMap}[kind]
    k = kind[-3:] if kind[0] == 'c' else kind
    y = empty() if kind != 'bag' else pbag([])
    if k == 'deque':
        y = pdeque((), maxlen=x.maxlen)
    items = list(src.items()) if k == 'map' else list(src)
    one = {'vec': lambda q, e: q.append(e), 'map': lambda q, e: q.set(*e), 'set': lambda q, e: q.add(e),
           'bag': lambda q, e: q.add(e), 'list': lambda q, e: q.cons(e), 'deque': lambda q, e: q.append(e)}[k]
    if how == 2 and k in ('vec', 'deque'):
        return y.extend(src), src
    if how == 2 and k in ('map', 'set', 'bag'):
        return y.update(src), src
    if how == 2 and k == 'list':
        return y.mcons(src), src
    if how == 3 and k in ('vec', 'map', 'set'):
        e = y.evolver()
        for it in items:
            if k == 'vec':
                e.append(it)
            elif k == 'map':
                e.set(*it)
            else:
                e.add(it)
        return e.persistent(), None
    if how == 3 and k == 'deque':
        for it in items:
            y = y.appendleft(it)
        return y, None
    for it in items:
        y = one(y, it)
    if how == 4:
        extra = 500 + a
        if k == 'vec':
            y = y.append(extra).append(extra).set(-1, extra)
            y = y.delete(len(y) - 1).delete(len(y) - 2) if kind == 'vec' else y
        elif k == 'map':
            y = y.set(extra, 1).remove(extra)
        elif k in ('set', 'bag'):
            y = y.add(extra).remove(extra)
        elif k == 'list':
            y = y.cons(extra).rest
        elif k == 'deque':
            y = y.append(extra).appendleft(extra).pop().popleft()
    return y, None


# ------------------------------------------------------------------------------ snapshots

def _id(x, deep):
    k = kind_of(x)
    if k is not None and deep > 0:
        return (id(x), snap(x, deep - 1))
    return id(x)


def snap(x, deep=2):
    """What can be observed of x, by identity of its elements (which the caller keeps alive through x)."""
    k = kind_of(x)
    if k in ('vec', 'cvec'):
        c = [_id(e, deep) for e in x]
        extra = (len(x), x[0] is x[-len(x)] if len(x) else None, [id(e) for e in x.tolist()] if hasattr(x, 'tolist') else None)
    elif k in ('map', 'cmap', 'rec'):
        c = {id(kk): _id(vv, deep) for kk, vv in x.items()}
        extra = (len(x), len(c))
    elif k in ('set', 'cset'):
        c = {id(e) for e in x}
        extra = (len(x), len(c))
    elif k == 'bag':
        c = {}
        for e in x:
            c[id(e)] = c.get(id(e), 0) + 1
        extra = (len(x),)
    elif k == 'list':
        c = [_id(e, deep) for e in x]
        extra = (len(x),)
    elif k == 'deque':
        c = [_id(e, deep) for e in x]
        extra = (len(x), x.maxlen)
    elif k == 'cls':
        c = {f: _id(getattr(x, f), deep) for f in ('a', 'b', 'c', 'xs', 'mp') if hasattr(x, f)}
        extra = ()
    elif k == 'imm':
        c = [_id(e, deep) for e in x]
        extra = (x.x is x[0], x.y is x[1], x.z_ is x[2])
    else:
        return id(x)
    return (k, c, extra, type(x).__name__)


def hash_of(x):
    try:
        return hash(x)
    except TypeError:
        return None


def twin(x):
    """A value built afresh from the contents of x."""
    k = kind_of(x)
    if k == 'vec':
        return pvector(list(x))
    if k == 'map':
        return pmap(dict(x.items()))
    if k == 'set':
        return pset(list(x))
    if k == 'bag':
        return pbag(list(x))
    if k == 'list':
        return plist(list(x))
    if k == 'deque':
        return pdeque(list(x))
    if k == 'cvec':
        return IntVec(list(x))
    if k == 'cset':
        return IntSet(list(x))
    if k == 'cmap':
        return IntMap(dict(x.items()))
    if k == 'imm':
        return Imm(*x)
    if k == 'cls':
        return Cls(**{f: getattr(x, f) for f in ('a', 'b', 'c', 'xs', 'mp') if hasattr(x, f)})
    return None


# ------------------------------------------------------------------------------ operations

def _evolve(*steps):
    def f(x, a, b, o):
        e = x.evolver()
        for st in steps:
            st(e, a, b)
        r = e.persistent()
        for st in steps:
            st(e, a + 1, b + 1)
        return [r, e.persistent()]
    return f


def _setitem(e, a, b):
    e[a % max(len(e), 1)] = E(b)


def _n(x):
    return max(len(x), 1)


VEC = {
    'append': lambda x, a, b, o: x.append(E(a)),
    'extend': lambda x, a, b, o: x.extend([E(a + i) for i in range(b % 40)]),
    'extend_vec': lambda x, a, b, o: x.extend(o('vec')),
    'add': lambda x, a, b, o: x + [E(a), E(b)],
    'radd_vec': lambda x, a, b, o: o('vec') + x,
    'mul': lambda x, a, b, o: x * (a % 3),
    'set': lambda x, a, b, o: x.set(a % _n(x), E(b)),
    'set_last': lambda x, a, b, o: x.set(-1, E(b)),
    'set_end': lambda x, a, b, o: x.set(len(x), E(b)),
    'set_bad': lambda x, a, b, o: x.set(len(x) + 1 + a, E(b)),
    'mset': lambda x, a, b, o: x.mset(a % _n(x), E(b), b % _n(x), E(a), -1, E(a + b)),
    'delete': lambda x, a, b, o: x.delete(a % _n(x)),
    'delete_range': lambda x, a, b, o: x.delete(a % _n(x), b % _n(x)),
    'remove': lambda x, a, b, o: x.remove(x[a % _n(x)]),
    'remove_missing': lambda x, a, b, o: x.remove(E(a)),
    'slice': lambda x, a, b, o: x[a % _n(x):b % _n(x)],
    'slice_step': lambda x, a, b, o: x[::(a % 4) + 1],
    'tail': lambda x, a, b, o: x[a % _n(x):],
    'get': lambda x, a, b, o: x[a % (2 * _n(x)) - _n(x)],
    'index': lambda x, a, b, o: x.index(E(a)),
    'count': lambda x, a, b, o: x.count(E(a)),
    'in': lambda x, a, b, o: E(a) in x,
    'tolist': lambda x, a, b, o: x.tolist(),
    'iter': lambda x, a, b, o: [e for e in x][:1],
    'reversed': lambda x, a, b, o: list(reversed(x))[:1],
    'eq': lambda x, a, b, o: x == o('vec'),
    'lt': lambda x, a, b, o: x < o('vec'),
    'hash': lambda x, a, b, o: hash(x),
    'repr': lambda x, a, b, o: len(repr(x)),
    'evolve_set': _evolve(_setitem),
    'evolve_many': _evolve(_setitem, lambda e, a, b: e.append(E(a)), _setitem, lambda e, a, b: e.extend([1, 2, E(b)])),
    'evolve_del': _evolve(lambda e, a, b: e.__delitem__(a % _n(e)), _setitem),
    'evolve_growset': _evolve(lambda e, a, b: [e.set(i, E(a)) for i in range(min(len(e), 70))]),
    'transform': lambda x, a, b, o: x.transform([a % _n(x)], E(b)),
    'transform_ny': lambda x, a, b, o: x.transform([ny], lambda e: (e, a)),
    'transform_discard': lambda x, a, b, o: x.transform([lambda i: i % 3 == a % 3], discard),
    'as_set': lambda x, a, b, o: None if 'pbag(' in repr(x) else pset(x),
    'as_list': lambda x, a, b, o: plist(x),
    'thaw': lambda x, a, b, o: thaw(x),
    'nest': lambda x, a, b, o: x.append(o('map')),
}
MAP = {
    'set': lambda x, a, b, o: x.set(E(a), val(b % 60)),
    'set_many': lambda x, a, b, o: _repeat(x, lambda y, i: y.set(key(NKEYS + a + i), i), b % 40),
    'reset': lambda x, a, b, o: x.set(_kth(x, a), val(b % 60)),
    'remove': lambda x, a, b, o: x.remove(_kth(x, a)),
    'remove_missing': lambda x, a, b, o: x.remove(('no', a)),
    'remove_many': lambda x, a, b, o: _repeat(x, lambda y, i: y.remove(_kth(y, a + i)), b % 20),
    'discard': lambda x, a, b, o: x.discard(E(a)),
    'update': lambda x, a, b, o: x.update({E(a): 1, E(b): 2}),
    'update_map': lambda x, a, b, o: x.update(o('map'), o('map')),
    'update_with': lambda x, a, b, o: x.update_with(lambda p, q: (p, q), o('map'), {E(a): 5}),
    'or': lambda x, a, b, o: x | o('map'),
    'add': lambda x, a, b, o: x + {E(a): 1},
    'get': lambda x, a, b, o: x[E(a)],
    'getd': lambda x, a, b, o: x.get(E(a), 3),
    'in': lambda x, a, b, o: E(a) in x,
    'keys': lambda x, a, b, o: x.keys(),
    'values': lambda x, a, b, o: len(list(x.values())),
    'items': lambda x, a, b, o: len(list(x.items())),
    'dict': lambda x, a, b, o: dict(x),
    'eq': lambda x, a, b, o: x == o('map'),
    'eq_dict': lambda x, a, b, o: x == dict(x),
    'hash': lambda x, a, b, o: hash(x),
    'repr': lambda x, a, b, o: len(repr(x)),
    'evolve': _evolve(lambda e, a, b: e.set(E(a), val(b % 60)), lambda e, a, b: e.set(E(b), 7)),
    'evolve_grow': _evolve(lambda e, a, b: [e.set(key(NKEYS + a * 3 + i), i) for i in range(b % 50)]),
    'evolve_remove': _evolve(lambda e, a, b: e.set('q', 1), lambda e, a, b: e.remove('q')),
    'transform': lambda x, a, b, o: x.transform([E(a)], val(b % 60)),
    'transform_ny': lambda x, a, b, o: x.transform([ny], lambda e: (e, a)),
    'transform_discard': lambda x, a, b, o: x.transform([lambda k: hash(k) % 3 == a % 3], discard),
    'thaw': lambda x, a, b, o: thaw(x),
    'nest': lambda x, a, b, o: x.set(E(a), o('vec')),
}
SET = {
    'add': lambda x, a, b, o: x.add(E(a)),
    'update': lambda x, a, b, o: x.update([E(a + i) for i in range(b % 40)]),
    'remove': lambda x, a, b, o: x.remove(_kth(x, a)),
    'remove_missing': lambda x, a, b, o: x.remove(('no', a)),
    'discard': lambda x, a, b, o: x.discard(E(a)),
    'or': lambda x, a, b, o: x | o('set'),
    'and': lambda x, a, b, o: x & o('set'),
    'sub': lambda x, a, b, o: x - o('set'),
    'xor': lambda x, a, b, o: x ^ o('set'),
    'rsub': lambda x, a, b, o: {E(a), E(b)} - x,
    'le': lambda x, a, b, o: x <= o('set'),
    'gt': lambda x, a, b, o: x > o('set'),
    'eq': lambda x, a, b, o: x == o('set'),
    'disjoint': lambda x, a, b, o: x.isdisjoint(o('set')),
    'in': lambda x, a, b, o: E(a) in x,
    'hash': lambda x, a, b, o: hash(x),
    'repr': lambda x, a, b, o: len(repr(x)),
    'set': lambda x, a, b, o: set(x),
    'evolve': _evolve(lambda e, a, b: e.add(E(a)), lambda e, a, b: e.add(E(b))),
    'evolve_remove': _evolve(lambda e, a, b: e.add(('t', a)), lambda e, a, b: e.remove(('t', a))),
    'thaw': lambda x, a, b, o: thaw(x),
}
BAG = {
    'add': lambda x, a, b, o: x.add(E(a)),
    'add_old': lambda x, a, b, o: x.add(_kth(x, a)),
    'update': lambda x, a, b, o: x.update([E(a), E(b), E(a)]),
    'remove': lambda x, a, b, o: x.remove(_kth(x, a)),
    'remove_missing': lambda x, a, b, o: x.remove(('no', a)),
    'plus': lambda x, a, b, o: x + o('bag'),
    'minus': lambda x, a, b, o: x - o('bag'),
    'or': lambda x, a, b, o: x | o('bag'),
    'and': lambda x, a, b, o: x & o('bag'),
    'count': lambda x, a, b, o: x.count(E(a)),
    'in': lambda x, a, b, o: E(a) in x,
    'eq': lambda x, a, b, o: x == o('bag'),
    'hash': lambda x, a, b, o: hash(x),
    'repr': lambda x, a, b, o: len(repr(x)),
}
LIST = {
    'cons': lambda x, a, b, o: x.cons(E(a)),
    'mcons': lambda x, a, b, o: x.mcons([E(a), E(b), E(a + b)]),
    'mcons_list': lambda x, a, b, o: x.mcons(o('list')),
    'rest': lambda x, a, b, o: x.rest,
    'reverse': lambda x, a, b, o: x.reverse(),
    'split': lambda x, a, b, o: list(x.split(a % (_n(x) + 1))),
    'remove': lambda x, a, b, o: x.remove(x[a % _n(x)]),
    'remove_missing': lambda x, a, b, o: x.remove(('no', a)),
    'tail': lambda x, a, b, o: x[a % _n(x):],
    'slice': lambda x, a, b, o: x[a % _n(x):b % _n(x)],
    'slice_neg': lambda x, a, b, o: x[-(a % _n(x)):],
    'get': lambda x, a, b, o: x[a % 50],
    'index': lambda x, a, b, o: x.index(E(a)),
    'count': lambda x, a, b, o: x.count(E(a)),
    'eq': lambda x, a, b, o: x == o('list'),
    'hash': lambda x, a, b, o: hash(x),
    'repr': lambda x, a, b, o: len(repr(x)),
}
DEQUE = {
    'append': lambda x, a, b, o: x.append(E(a)),
    'appendleft': lambda x, a, b, o: x.appendleft(E(a)),
    'extend': lambda x, a, b, o: x.extend([E(a), E(b), E(a + b)]),
    'extendleft': lambda x, a, b, o: x.extendleft([E(a), E(b), E(a + b)]),
    'extend_dq': lambda x, a, b, o: x.extend(o('deque')),
    'pop': lambda x, a, b, o: x.pop(),
    'popn': lambda x, a, b, o: x.pop(a % 7 - 3),
    'popleft': lambda x, a, b, o: x.popleft(),
    'popleftn': lambda x, a, b, o: x.popleft(a % 7 - 3),
    'remove': lambda x, a, b, o: x.remove(x[a % _n(x)]),
    'remove_missing': lambda x, a, b, o: x.remove(('no', a)),
    'reverse': lambda x, a, b, o: x.reverse(),
    'rotate': lambda x, a, b, o: x.rotate(a % 9 - 4),
    'slice': lambda x, a, b, o: x[a % _n(x):b % _n(x)],
    'slice_step': lambda x, a, b, o: x[::2],
    'get': lambda x, a, b, o: x[a % 50 - 20],
    'ends': lambda x, a, b, o: (x.left, x.right) and None,
    'index': lambda x, a, b, o: x.index(E(a)),
    'count': lambda x, a, b, o: x.count(E(a)),
    'eq': lambda x, a, b, o: x == o('deque'),
    'hash': lambda x, a, b, o: hash(x),
    'repr': lambda x, a, b, o: len(repr(x)),
}
CVEC = dict(VEC)
CVEC.update({
    'append': lambda x, a, b, o: x.append(a + 14),
    'append_13': lambda x, a, b, o: x.append(13),
    'append_str': lambda x, a, b, o: x.append('s'),
    'extend': lambda x, a, b, o: x.extend(range(14, 14 + b % 40)),
    'extend_bad': lambda x, a, b, o: x.extend([20, 21, 13, 22]),
    'set': lambda x, a, b, o: x.set(a % _n(x), b + 14),
    'set_13': lambda x, a, b, o: x.set(a % _n(x), 13),
    'mset': lambda x, a, b, o: x.mset(a % _n(x), b + 14, b % _n(x), a + 14),
    'evolve_set': _evolve(lambda e, a, b: e.__setitem__(a % _n(e), b + 14)),
    'evolve_many': _evolve(lambda e, a, b: e.append(a + 14), lambda e, a, b: e.set(a % _n(e), b + 20)),
    'evolve_bad': _evolve(lambda e, a, b: e.set(a % _n(e), 13)),
    'serialize': lambda x, a, b, o: x.serialize(),
    'transform_ny': lambda x, a, b, o: x.transform([ny], lambda e: e + a),
    'index': lambda x, a, b, o: x.index(x[a % _n(x)]),
    'extend_own': lambda x, a, b, o: x.extend(o('cvec')),
    'create': lambda x, a, b, o: [IntVec.create(x), IntVec(x), IntVec.create(list(x))],
})
CSET = dict(SET)
CSET.update({
    'add': lambda x, a, b, o: x.add(a + 14),
    'add_13': lambda x, a, b, o: x.add(13),
    'add_str': lambda x, a, b, o: x.add('s'),
    'update': lambda x, a, b, o: x.update(range(14, 14 + b % 40)),
    'evolve': _evolve(lambda e, a, b: e.add(a + 14), lambda e, a, b: e.add(b + 14)),
    'evolve_remove': _evolve(lambda e, a, b: e.add(1000 + a), lambda e, a, b: e.remove(1000 + a)),
    'evolve_bad': _evolve(lambda e, a, b: e.add(a + 14), lambda e, a, b: e.add(13)),
    'serialize': lambda x, a, b, o: x.serialize(),
    'create': lambda x, a, b, o: [IntSet.create(x), IntSet(x), IntSet.create(list(x))],
})
CMAP = dict(MAP)
CMAP.update({
    'set': lambda x, a, b, o: x.set(a + 14, b),
    'set_13': lambda x, a, b, o: x.set(13, b),
    'set_bad': lambda x, a, b, o: x.set(a + 14, 1.5),
    'update': lambda x, a, b, o: x.update({a + 14: 1, b + 14: 'x'}),
    'set_many': lambda x, a, b, o: _repeat(x, lambda y, i: y.set(a + 14 + i, i), b % 40),
    'reset': lambda x, a, b, o: x.set(_kth(x, a), b),
    'evolve': _evolve(lambda e, a, b: e.set(a + 14, b), lambda e, a, b: e.set(b + 14, 7)),
    'evolve_bad': _evolve(lambda e, a, b: e.set(a + 14, b), lambda e, a, b: e.set(13, 7)),
    'evolve_remove': _evolve(lambda e, a, b: e.set(777, 1), lambda e, a, b: e.remove(777)),
    'serialize': lambda x, a, b, o: x.serialize(),
    'create': lambda x, a, b, o: [IntMap.create(x), IntMap(x), IntMap.create(dict(x))],
    'transform': lambda x, a, b, o: x.transform([a + 14], b),
    'update_own': lambda x, a, b, o: x.update(o('cmap')),
    'or': lambda x, a, b, o: x | o('cmap'),
    'update_with': lambda x, a, b, o: x.update_with(lambda p, q: p, o('cmap')),
    'transform_ny': lambda x, a, b, o: x.transform([ny], lambda e: a),
})
REC = {
    'set': lambda x, a, b, o: x.set(a=a + 14),
    'set_pos': lambda x, a, b, o: x.set('b', E(b)),
    'set_two': lambda x, a, b, o: x.set(a=a + 14, b=E(b)),
    'set_13': lambda x, a, b, o: x.set(a=13),
    'set_12': lambda x, a, b, o: x.set(a=12),
    'set_type': lambda x, a, b, o: x.set(a='x'),
    'set_unknown': lambda x, a, b, o: x.set(q=1),
    'set_xs': lambda x, a, b, o: x.set(xs=ints(a, b % 12)),
    'update': lambda x, a, b, o: x.update({'a': a + 14, 'c': b}),
    'remove': lambda x, a, b, o: x.remove('b'),
    'remove_mandatory': lambda x, a, b, o: x.remove('a'),
    'discard': lambda x, a, b, o: x.discard(['b', 'c', 'zz'][a % 3]),
    'evolve': _evolve(lambda e, a, b: e.set('a', a + 14), lambda e, a, b: e.set('c', b)),
    'evolve_bad': _evolve(lambda e, a, b: e.set('a', a + 14), lambda e, a, b: e.set('a', 13)),
    'transform': lambda x, a, b, o: x.transform(['a'], lambda q: q + 20, ['xs', ny], lambda q: q + 1),
    'get': lambda x, a, b, o: (x.a, x['a']) and None,
    'eq': lambda x, a, b, o: x == o('rec'),
    'hash': lambda x, a, b, o: hash(x),
    'repr': lambda x, a, b, o: len(repr(x)),
    'keys': lambda x, a, b, o: x.keys(),
    'serialize': lambda x, a, b, o: x.serialize(),
    'create': lambda x, a, b, o: [Rec.create(x), Rec.create(dict(x))],
}
CLS = {
    'set': lambda x, a, b, o: x.set(a=a + 14),
    'set_pos': lambda x, a, b, o: x.set('b', F(b)),
    'set_13': lambda x, a, b, o: x.set(a=13),
    'set_12': lambda x, a, b, o: x.set(a=12),
    'set_type': lambda x, a, b, o: x.set(a='x'),
    'set_unknown': lambda x, a, b, o: x.set(q=1),
    'set_xs': lambda x, a, b, o: x.set(xs=ints(a, b % 12)),
    'set_mp': lambda x, a, b, o: x.set(mp={a: b}),
    'assign': lambda x, a, b, o: setattr(x, ['a', 'b', 'q'][a % 3], b),
    'del': lambda x, a, b, o: delattr(x, ['a', 'b', 'q'][a % 3]),
    'remove': lambda x, a, b, o: x.remove('b'),
    'remove_mandatory': lambda x, a, b, o: x.remove('a'),
    'evolve': _evolve(lambda e, a, b: e.set('a', a + 14), lambda e, a, b: e.set('c', b), lambda e, a, b: setattr(e, 'b', a)),
    'evolve_bad': _evolve(lambda e, a, b: e.set('a', 13)),
    'transform': lambda x, a, b, o: x.transform(['a'], lambda q: q + 20, ['mp', 1], a),
    'eq': lambda x, a, b, o: x == o('cls'),
    'hash': lambda x, a, b, o: hash(x),
    'repr': lambda x, a, b, o: len(repr(x)),
    'serialize': lambda x, a, b, o: x.serialize(),
    'create': lambda x, a, b, o: [Cls.create(x), Cls.create(x.serialize())],
}
IMM = {
    'set': lambda x, a, b, o: x.set(x=a + 14),
    'set_two': lambda x, a, b, o: x.set(x=a + 14, y=E(b)),
    'set_frozen': lambda x, a, b, o: x.set(z_=1),
    'set_mixed': lambda x, a, b, o: x.set(x=1, z_=1),
    'set_unknown': lambda x, a, b, o: x.set(q=1),
    'set_none': lambda x, a, b, o: x.set(),
    'set_13': lambda x, a, b, o: x.set(x=13),
    'assign': lambda x, a, b, o: setattr(x, 'x', 1),
    'eq': lambda x, a, b, o: x == o('imm'),
    'hash': lambda x, a, b, o: hash(x),
    'repr': lambda x, a, b, o: len(repr(x)),
}
NEST = {
    'transform': lambda x, a, b, o: x.transform(['k0', ny, 'v'], lambda q: q + a),
    'transform_new': lambda x, a, b, o: x.transform(['k0', a % 3, 'w', 0], b, ['new', 'deep'], o('vec')),
    'transform_discard': lambda x, a, b, o: x.transform(['k%d' % (a % 3), lambda i: i % 2 == b % 2], discard),
    'transform_rex': lambda x, a, b, o: x.transform([rex('k.*'), ny, 'w', 2], lambda q: q.set('y', a)),
    'transform_raise': lambda x, a, b, o: x.transform(['k0', ny, 'v'], lambda q: 1 // (q - 1)),
    'thaw': lambda x, a, b, o: thaw(x),
    'freeze': lambda x, a, b, o: freeze(x),
    'refreeze': lambda x, a, b, o: freeze(thaw(x)),
    'get_in': lambda x, a, b, o: get_in(['k0', a % 3, 'w', 2, 'z'], x),
}
ANY = {
    'pickle': lambda x, a, b, o: pickle.loads(pickle.dumps(x, 2 + a % 4)),
    'copy': lambda x, a, b, o: copy.copy(x),
    'deepcopy': lambda x, a, b, o: copy.deepcopy(x),
    'freeze': lambda x, a, b, o: freeze([x, {'a': x}]),
    'thaw': lambda x, a, b, o: thaw(x),
    'mutant': lambda x, a, b, o: mutant(lambda q: [q, {1: q}])(x),
    # a bag refuses to be compared with anything else, so it is no element for a set with other elements
    'in_set': lambda x, a, b, o: None if 'pbag(' in repr(x) else pset([x]),
    'in_map': lambda x, a, b, o: pmap({1: x}),
    'in_vec': lambda x, a, b, o: pvector([x, x]),
    'eq_other': lambda x, a, b, o: x == object(),
    'bool': lambda x, a, b, o: bool(x),
}


def _kth(x, a):
    return list(x)[a % _n(x)]


def _repeat(x, f, n):
    for i in range(n):
        x = f(x, i)
    return x


_BASE = {'vec': VEC, 'map': MAP, 'set': SET, 'bag': BAG, 'list': LIST, 'deque': DEQUE, 'cvec': CVEC, 'cset': CSET,
         'cmap': CMAP, 'rec': REC, 'cls': CLS, 'imm': IMM}
OPS = {}
for _k, _t in _BASE.items():
    _names = dict(_t)
    for _n2, _f in ANY.items():
        _names.setdefault(_n2, _f)
    OPS[_k] = sorted(_names.items())
NESTOPS = sorted({**ANY, **MAP, **NEST}.items())


def op_for(x, tok):
    k = kind_of(x)
    if k == 'map' and 'k0' in x and tok % 2:
        table = sorted(NEST.items())
        tok //= 2
    else:
        table = OPS[k]
    return table[tok % len(table)]
