"""C12: pickling and copying reproduce an equal value of the same type."""
import base64
import copy
import os
import pickle
from hypothesis import strategies as st
import core
from core import fail, check, short, key, NKEYS, KEYS, Ident, HarnessError, Violation
from gen import *
from pyrsistent import (pvector, pmap, pset, pbag, plist, pdeque, PRecord, PClass, field, CheckedPVector, CheckedPSet,
                        CheckedPMap, pvector_field, pset_field, pmap_field, optional, immutable)

CALLS = [0]


def bump(x):
    CALLS[0] += 1
    return x + 1


class Ints(CheckedPVector):
    __type__ = int
    __invariant__ = lambda n: (n >= 0, 'negative')


class SubInts(Ints):
    pass


class Strs(CheckedPSet):
    __type__ = str


class StrInts(CheckedPMap):
    __key_type__ = str
    __value_type__ = Ints


class Rec(PRecord):
    a = field(type=int, mandatory=True, factory=bump)
    b = field()
    c = field(initial=7)
    e = field(initial=lambda: 8)
    vec = pvector_field(int)
    st = pset_field(str, optional=True)
    mp = pmap_field(str, int)
    mp2 = pmap_field((str, int), optional(int, str), optional=True)
    vec2 = pvector_field(optional(int, str), initial=[1, 'a'])
    st2 = pset_field((int, str))
    __invariant__ = lambda r: (r.a > -1000, 'too small')


class SubRec(Rec):
    d = field(type=(int, str, type(None)), factory=lambda x: [x] if False else x)


class Cls(PClass):
    a = field(type=int, mandatory=True, factory=bump)
    b = field()
    c = field(initial=7)
    vec = pvector_field(str)
    st = pset_field(int)
    mp = pmap_field(int, str, optional=True)
    mp2 = pmap_field((int, str), (str, type(None)))
    rec = field(type=(Rec, type(None)), initial=None)


class SubCls(Cls):
    d = field()


class Anys(CheckedPMap):
    pass


class AnyVec(CheckedPVector):
    __type__ = (int, float, str, tuple, type(None))


class RecList(CheckedPVector):
    __type__ = (Rec, Cls)


class RecMap(CheckedPMap):
    __key_type__ = (str, Ints)
    __value_type__ = optional(Rec, Cls)


class Point(immutable('x, y, id_', name='PointBase')):
    pass


LOOKALIKES = [0, 0.0, False, 1, 1.0, True, 2, 2.0, (1, 0), (1.0, False), (True, 0.0), None, '', 'a', (), 3]      # equal, of different types


def E(t):
    k = key(t)
    return ('id', k.n) if isinstance(k, (Ident, core.BadNe)) else k


leaf = st.one_of(st.tuples(st.just('e'), key_tok), st.tuples(st.just('like'), st.integers(0, 15)))


def _ext(ch):
    some = st.lists(ch, max_size=4)
    return st.one_of(
        st.tuples(st.just('vec'), some, st.integers(0, 3)),
        st.tuples(st.just('map'), st.lists(st.tuples(key_tok, ch), max_size=4), st.integers(0, 3)),
        st.tuples(st.just('set'), some, st.integers(0, 2)),
        st.tuples(st.just('bag'), some),
        st.tuples(st.just('list'), some),
        st.tuples(st.just('deque'), some, st.sampled_from([None, 0, 1, 2, 3, 10])),
        st.tuples(st.just('tuple'), some),
        st.tuples(st.just('rec'), st.integers(0, 50), ch, st.integers(0, 7)),
        st.tuples(st.just('cls'), st.integers(0, 50), ch, st.integers(0, 7)),
        st.tuples(st.just('imm'), ch, ch),
        st.tuples(st.just('keys'), st.lists(st.tuples(key_tok, ch), max_size=4)),
    )


flat = st.one_of(
    st.tuples(st.just('ints'), st.lists(st.integers(0, 9), max_size=5), st.booleans()),
    st.tuples(st.just('strs'), st.lists(st.integers(0, 9), max_size=5)),
    st.tuples(st.just('strints'), st.lists(st.tuples(st.integers(0, 9), st.lists(st.integers(0, 9), max_size=3)), max_size=4)),
    st.tuples(st.just('anys'), st.lists(st.tuples(st.integers(0, 20), st.integers(0, 15)), max_size=8)),
    st.tuples(st.just('anyvec'), st.lists(st.integers(0, 15), max_size=8)),
    st.tuples(st.just('reclist'), st.lists(st.tuples(st.booleans(), st.integers(0, 50)), max_size=4)),
    st.tuples(st.just('recmap'), st.lists(st.tuples(st.integers(0, 9), st.integers(0, 2), st.integers(0, 50)), max_size=4)),
    st.tuples(st.just('big'), st.sampled_from(['vec', 'map', 'set', 'list', 'deque']), st.sampled_from([31, 32, 33, 40, 64, 65, 70, 1057]),
              st.integers(0, 5)),
)
value = st.recursive(st.one_of(leaf, leaf, flat), _ext, max_leaves=10)
top = st.one_of(_ext(value), flat, _ext(_ext(value)))


def strategies(spec):
    return [('values', st.fixed_dictionaries({'v': top, 'proto': st.integers(2, pickle.HIGHEST_PROTOCOL), 'op': byte,
                                              'how': st.integers(0, 3)}), 1)]


def rec_of(t, b, bits):
    kw = {'a': t, 'b': b}
    if bits & 1:
        kw['vec'] = [t, t + 1]
        kw['st'] = None
    if bits & 2:
        kw['mp'] = {'x': t}
        kw['st'] = ['p', 'q']
    if t % 7 > 3:
        kw['mp2'] = {'x': None, t: 'x', 'y': t}
        kw['vec2'] = [None, t, 'x']
        kw['st2'] = ['x', t]
    r = (SubRec if bits & 4 else Rec)(**kw)
    if bits & 4:
        r = r.set('d', [None, 3, 'd'][t % 3])
    if bits == 3:
        r = r.remove('b')
    if t % 4 == 1:
        r = r.remove('c')
    elif t % 4 == 2:
        r = r.set('c', None)
    if t % 5 == 1:
        r = r.discard('e')
    return r


def cls_of(t, b, bits):
    kw = {'a': t, 'b': b}
    if bits & 1:
        kw['vec'] = [str(t), 'z']
        kw['mp'] = None
    if bits & 2:
        kw['mp'] = {t: 'x'}
        kw['st'] = [1, t]
        kw['rec'] = rec_of(t, 1, t % 4)
    if t % 7 > 3:
        kw['mp2'] = {'x': None, t: 'x'}
    r = (SubCls if bits & 4 else Cls)(**kw)
    if bits == 3:
        r = r.remove('b')
    return r


def build(s):
    k = s[0]
    if k == 'e':
        return E(s[1])
    if k == 'like':
        return LOOKALIKES[s[1]]
    if k in ('vec', 'set', 'bag', 'list', 'deque', 'tuple'):
        if k in ('set', 'bag'):         # bags refuse to be compared with other types
            c = [build(x) for x in s[1] if '"bag"' not in core.dumps(x)]
        else:
            c = [build(x) for x in s[1]]
        if k == 'vec':
            if s[2] == 1:
                return pvector(c + [0]).delete(len(c))
            if s[2] == 2:
                x = pvector()
                for e in c:
                    x = x.append(e)
                return x
            return pvector(c)
        if k == 'set':
            x = pset(c, pre_size=8 if s[2] == 0 else 3)
            if s[2] == 2:
                x = x.add(('j',)).remove(('j',))
            hash(x)
            return x
        if k == 'bag':
            return pbag(c + c[:1])
        if k == 'list':
            return plist(c)
        if k == 'deque':
            return pdeque(c, maxlen=s[2])
        return tuple(c)
    if k == 'map' or k == 'keys':
        d = {E(a): build(b) for a, b in s[1]}
        if k == 'keys':
            return pmap(d).keys()
        m = pmap(d, pre_size=s[2] * 5)
        if s[2] == 1:
            hash(m)
        return m
    if k == 'rec':
        return rec_of(s[1], build(s[2]), s[3])
    if k == 'cls':
        return cls_of(s[1], build(s[2]), s[3])
    if k == 'imm':
        return Point(build(s[1]), build(s[2]), 1)
    if k == 'ints':
        return (SubInts if s[2] else Ints)(s[1])
    if k == 'strs':
        return Strs('s%d' % i for i in s[1])
    if k == 'strints':
        return StrInts({'k%d' % a: Ints(b) for a, b in s[1]})
    if k == 'anys':
        return Anys({E(a): LOOKALIKES[b] for a, b in s[1]})
    if k == 'anyvec':
        return AnyVec(LOOKALIKES[b] for b in s[1])
    if k == 'reclist':
        return RecList([rec_of(t, t, t % 8) if r else cls_of(t, t, t % 8) for r, t in s[1]])
    if k == 'recmap':
        return RecMap({('k%d' % a if a % 3 else Ints([a])): [None, rec_of(t, 1, t % 8), cls_of(t, 1, t % 8)][w]
                       for a, w, t in s[1]})
    n, o = s[2], s[3]
    if s[1] == 'vec':
        v = pvector(range(o, n + o))
        return v.set(n // 2, 'x') if o % 2 else v
    if s[1] == 'map':
        return pmap({'k%d' % i: i for i in range(n + o)}).remove('k%d' % (n // 2))
    if s[1] == 'set':
        return pset('k%d' % i for i in range(n + o))
    n = min(n, 60)
    if s[1] == 'list':
        return plist(range(n))
    return pdeque(range(n), maxlen=n + o).rotate(o)


def walk(x, y, what):
    """The same types all the way down."""
    check(type(x) is type(y), '%s: type %s became %s', what, type(x).__name__, type(y).__name__)
    t = type(x)
    if t.__module__ == 'builtins':
        if t is tuple:
            for a, b in zip(x, y):
                walk(a, b, what)
        return
    if isinstance(x, PClass):
        for f in ('a', 'b', 'c', 'd', 'vec', 'st', 'mp', 'rec', 'mp2', 'vec2', 'st2'):
            check(hasattr(x, f) == hasattr(y, f), '%s: field %s', what, f)
            if hasattr(x, f):
                walk(getattr(x, f), getattr(y, f), what)
    elif hasattr(x, 'items'):
        check(len(x) == len(y), '%s: %d keys became %d', what, len(x), len(y))
        for k in x:
            check(k in y, '%s: key %s lost', what, short(k))
            walk(x[k], y[k], what)
    elif t in (type(pset()), type(pbag([])), Strs) or isinstance(x, CheckedPSet):
        check(sorted(type(e).__name__ for e in x) == sorted(type(e).__name__ for e in y), '%s: element types', what)
        check(len(x) == len(y), '%s: length', what)
    elif hasattr(x, '__len__'):
        check(len(x) == len(y), '%s: length %d became %d', what, len(x), len(y))
        for a, b in zip(x, y):
            walk(a, b, what)
        if hasattr(x, 'maxlen'):
            check(x.maxlen == y.maxlen, '%s: maxlen %s became %s', what, x.maxlen, y.maxlen)


def further(x, t):
    """One more operation on the value."""
    if isinstance(x, PClass):
        return [lambda: x.set(a=t), lambda: x.set(b=t), lambda: x.remove('a'), lambda: x.set(vec=['n']), lambda: x.serialize(),
                lambda: x.set(zz=1), lambda: x.set(st=['bad'])][t % 7]
    if isinstance(x, PRecord):
        return [lambda: x.set(a=t), lambda: x.set('b', t), lambda: x.remove('a'), lambda: x.set(vec=[t]), lambda: x.serialize(),
                lambda: x.set(zz=1), lambda: x.set(st=[1])][t % 7]
    if hasattr(x, 'maxlen'):
        return [lambda: x.append(t), lambda: x.appendleft(t), lambda: x.pop(), lambda: x.extend([1, 2, 3]), lambda: x.rotate(1)][t % 5]
    if hasattr(x, 'items'):
        return [lambda: x.set('k1', t), lambda: x.remove('k0'), lambda: x.update({'k3': Ints([1])}), lambda: x.discard('k2'),
                lambda: x.set('n%d' % t, None), lambda: x.keys()][t % 6]
    if hasattr(x, 'cons'):
        return [lambda: x.cons(t), lambda: x.reverse(), lambda: x.rest][t % 3]
    if hasattr(x, 'union'):
        return [lambda: x.add('s%d' % t), lambda: x | pset([t]), lambda: x.discard('s1'), lambda: x.add(t)][t % 4]
    if hasattr(x, 'mset'):
        return [lambda: x.append(t), lambda: x.set(0, t), lambda: x.extend([1, 2]), lambda: x.append(-1), lambda: x.delete(0),
                lambda: x.append('s')][t % 6]
    if isinstance(x, Point):
        return [lambda: x.set(x=t), lambda: x.set(id_=t)][t % 2]
    if isinstance(x, tuple):
        return lambda: x
    return [lambda: x.add(t), lambda: x.remove(t), lambda: x + pbag([t])][t % 3]


def outcome(f):
    try:
        return 'ok', f()
    except Exception as e:
        return 'exc', type(e).__name__


def judge(x, y, t, what):
    walk(x, y, what)
    check(x == y and y == x and not (x != y), '%s: not equal: %s became %s', what, short(x), short(y))
    check(hash(x) == hash(y), '%s: hash differs', what)
    ka, ra = outcome(further(x, t))
    kb, rb = outcome(further(y, t))
    check(ka == kb, '%s: a further operation gives %s on the original and %s on the copy', what, short((ka, ra)), short((kb, rb)))
    if ka == 'exc':
        check(ra == rb, '%s: a further operation raises %s on the original and %s on the copy', what, ra, rb)
    else:
        check(type(ra) is type(rb) and ra == rb, '%s: a further operation gives %s and %s', what, short(ra), short(rb))


_helper = []


def helper():
    if not _helper:
        from helper import Helper
        _helper.append(Helper('checks.c12', {'PYTHONHASHSEED': '4242'}))
    return _helper[0]


def answer(req):
    """In the helper: unpickle what the other process pickled and judge it."""
    try:
        x = build(req['v'])
        y = pickle.loads(base64.b64decode(req['data']))
        judge(x, y, req['op'], 'pickle protocol %d, unpickled in another process' % req['proto'])
        back = base64.b64encode(pickle.dumps(y, req['proto'])).decode()
    except Exception as e:
        return {'violation': '%s: %s' % (type(e).__name__, e)}
    return {'back': back}


def run_case(case, stats):
    x = build(case['v'])
    t = case['op']
    stats.hit(case['v'][0])
    n = CALLS[0]
    how = case['how']
    if how <= 1:
        data = pickle.dumps(x, case['proto'])
        y = pickle.loads(data)
        what = 'pickle protocol %d' % case['proto']
    elif how == 2:
        y = copy.copy(x)
        what = 'copy.copy'
    else:
        y = copy.deepcopy(x)
        what = 'copy.deepcopy'
    check(CALLS[0] == n, '%s: %d factory calls during the restore', what, CALLS[0] - n)
    judge(x, y, t, what)
    if how == 1:
        r = helper().ask({'v': case['v'], 'data': base64.b64encode(data).decode(), 'op': t, 'proto': case['proto']})
        if r is None:
            raise Violation('the process that unpickles died')
        if 'helper_error' in r:
            raise HarnessError('helper: %s %s' % (r['helper_error'], r['tb']))
        if 'violation' in r:
            raise Violation(r['violation'])
        judge(x, pickle.loads(base64.b64decode(r['back'])), t, 'pickled, restored in another process and pickled back')
        stats.hit('between processes')
    stats.nontrivial = len(core.dumps(case['v'])) > 30
