"""C11: equality and hash depend only on contents, never on history."""
import collections
import operator
import pickle
from hypothesis import strategies as st
import core
from core import fail, check, short, key, val, Coll, KEYS, NKEYS
from gen import *
from pyrsistent import (pvector, pmap, pset, pbag, plist, pdeque, PRecord, PClass, field, CheckedPVector, CheckedPSet,
                        CheckedPMap, freeze)


class Vec(CheckedPVector):
    pass


class Set(CheckedPSet):
    pass


class Map(CheckedPMap):
    pass


class Rec(PRecord):
    a = field()
    b = field()
    c = field()
    d = field()


class Cls(PClass):
    a = field()
    b = field()
    c = field()
    d = field()


class Twin:
    """Has the hash of something else and is equal to other twins of it only."""

    def __init__(self, h):
        self.h = h

    def __hash__(self):
        return self.h

    def __eq__(self, other):
        return type(other) is Twin and other.h == self.h

    def __repr__(self):
        return 'Twin(%d)' % self.h


FIELDS = 'abcd'
GROUPS = {'vector': 2, 'map': 2, 'set': 3, 'bag': 1, 'list': 1, 'deque': 1, 'record': 1, 'class': 1}

elems = st.one_of(st.lists(key_tok, max_size=6), st.lists(st.integers(0, 3), max_size=5),
                  st.lists(key_tok, min_size=6, max_size=34), st.lists(st.integers(70, 120), min_size=30, max_size=40))
recipe = st.tuples(st.integers(0, 9), st.integers(0, 30))
CASE = st.fixed_dictionaries({
    'group': st.sampled_from(sorted(GROUPS)),
    'elems': elems,
    'vals': st.lists(st.integers(0, 20), min_size=4, max_size=4),
    'change': st.integers(0, 9),
    'at': byte,
    'ra': recipe, 'rb': recipe,
    'flav': st.tuples(st.integers(0, 2), st.integers(0, 2)),
    'alt': st.booleans(),
    'prehash': st.integers(0, 3),
    'nest': st.integers(0, 3),
})
DERIVED = st.fixed_dictionaries({
    'group': st.sampled_from(sorted(GROUPS)),
    'elems': st.one_of(elems, st.lists(st.sampled_from([0, 1, 2, 5, 9, 10, 11, 12, 16, 24, 25, 35, 36, 44]), min_size=1, max_size=8)),
    'vals': st.lists(st.integers(0, 20), min_size=4, max_size=4),
    'ra': recipe,
    'flav': st.tuples(st.integers(0, 2), st.just(0)),
    'prehash': st.integers(0, 3),
    'steps': st.lists(st.tuples(st.integers(0, 5), byte, st.integers(0, 3)), min_size=1, max_size=4),
})


def strategies(spec):
    wide = st.tuples(st.sampled_from([63, 64, 65, 87, 100, 130, 257, 300]), st.integers(0, 40)).map(lambda t: [70 + t[1] + i for i in range(t[0])])
    return [('pairs', CASE, 40), ('derived', DERIVED, 20),
            ('wide pairs', st.tuples(CASE, wide).map(lambda t: dict(t[0], elems=t[1])), 1),
            ('wide derived', st.tuples(DERIVED, wide).map(lambda t: dict(t[0], elems=t[1])), 1)]


def alt(x):
    """An equal object of another type or identity, when there is one."""
    if type(x) is int and abs(x) < 2 ** 50:
        return float(x)
    if type(x) is float and x == int(x):
        return int(x)
    if type(x) is bool:
        return int(x)
    if type(x) is Coll:
        return Coll(x.n, x.h)
    if type(x) is str:
        return ''.join(list(x))
    if type(x) is tuple:
        return tuple(alt(e) for e in x)
    if type(x) is frozenset:
        return frozenset(alt(e) for e in x)
    return x


def other(x, at):
    """Something not equal to x, perhaps of the same hash."""
    return ('other', at) if at % 2 else Twin(hash(x))


def changed(group, c, how, at, stats):
    """Contents that are equal or nearly equal to c."""
    if group == 'map':
        items = list(c.items())
        n = len(items)
        i = at % max(n, 1)
        if how in (0, 1, 2, 3):
            pass
        elif how == 4 and n:
            items[i] = (items[i][0], other(items[i][1], at))
        elif how == 5 and n:
            del items[i]
        elif how == 6:
            items.append((('extra', at), 1))
        elif how == 7 and n:
            items[i] = (other(items[i][0], at), items[i][1])
        elif how == 8 and n > 1:
            j = (i + 1) % n
            a, b = items[i], items[j]
            items[i], items[j] = (a[0], b[1]), (b[0], a[1])
        elif how == 9 and n:
            items[i] = (items[i][0], None)
        return dict(items)
    c = list(c)
    n = len(c)
    i = at % max(n, 1)
    if how == 4 and n:
        c[i] = other(c[i], at)
    elif how == 5 and n:
        del c[i]
    elif how == 6:
        c.append(('extra', at))
    elif how == 7 and n:
        c.insert(at % n, c[i])
    elif how == 8 and n > 1:
        j = (i + 1) % n
        c[i], c[j] = c[j], c[i]
    elif how == 9 and n:
        c[-1] = other(c[-1], at)
    return c


JUNK = [('junk', i) for i in range(60)]


def build(group, flav, c, r, t):
    """Build the value with contents c by recipe r (t: parameter)."""
    flav %= GROUPS[group]
    if group == 'vector':
        new = pvector if flav == 0 else Vec
        if r == 0:
            return new(c)
        if r == 1:
            x = new()
            for e in c:
                x = x.append(e)
            return x
        if r == 2:
            k = t % (len(c) + 1)
            return new(c[:k]).extend(c[k:])
        if r == 3:
            x = new(JUNK[:t] + c + JUNK[:5])
            x = x[t:len(x) - 5]
            return x if flav == 0 else new(x)
        if r == 4:
            x = new(JUNK[:1] * len(c))
            for i in reversed(range(len(c))):
                x = x.set(i, c[i])
            return x
        if r == 5:
            e = new(c[:len(c) // 2]).evolver()
            for x in c[len(c) // 2:]:
                e.append(x)
            if len(c):
                e[t % len(c)] = JUNK[0]
                e[t % len(c)] = c[t % len(c)]
            return e.persistent()
        if r == 6:
            e = new(c + JUNK[:t]).evolver()
            for _ in range(t):
                del e[len(c)]
            return e.persistent()
        if r == 7:
            k = t % (len(c) + 1)
            x = new(c[:k]) + c[k:]
            return x if flav == 0 else new(x)
        if r == 8:
            return pickle.loads(pickle.dumps(new(c)))
        args = []
        for i, e in enumerate(c):
            args += [i, e]
        return new(c[::-1]).mset(*args) if c else new()
    if group == 'map':
        items = list(c.items())
        new = pmap if flav == 0 else Map
        if r == 0:
            return new(c)
        if r == 1:
            return pmap(c, pre_size=t + 1) if flav == 0 else new(pmap(c, pre_size=t + 1))
        if r == 2:
            x = new()
            for k, v in reversed(items):
                x = x.set(k, v)
            return x
        if r == 3:
            x = new()
            for i, (k, v) in enumerate(items):
                x = x.set(JUNK[i % 60], 1).set(k, v)
            for i in range(min(len(items), 60)):
                x = x.remove(JUNK[i])
            return x
        if r == 4:
            e = new().evolver()
            for k, v in items:
                e[k] = 'tmp'
            for k, v in reversed(items):
                e[k] = v
            return e.persistent()
        if r == 5:
            k = t % (len(items) + 1)
            return new(dict(items[k:])).update(dict(items[:k]))
        if r == 6:
            x = new(dict(items + [(j, 1) for j in JUNK[:t]]))
            hash(x)
            for j in JUNK[:t]:
                x = x.discard(j)
            return x
        if r == 7:
            return pickle.loads(pickle.dumps(new(c)))
        if r == 8:
            x = new(c)
            hash(x)
            if items:
                k = items[t % len(items)][0]
                x = x.set(k, ('tmp', t))
                hash(x)
                x = x.set(k, c[k])
            return x
        k = t % (len(items) + 1)
        return new(dict(items[k:])) + new(dict(items[:k]))
    if group == 'set':
        if flav == 2:                      # the key set of a map
            return pmap({e: (i if r % 2 else None) for i, e in enumerate(c)}, pre_size=t).keys()
        new = pset if flav == 0 else Set
        if r == 0:
            return new(c)
        if r == 1:
            return pset(c, pre_size=t + 1) if flav == 0 else new(c[::-1])
        if r == 2:
            x = new()
            for e in reversed(c):
                x = x.add(e)
            return x
        if r == 3:
            x = new(c + JUNK[:t])
            for j in JUNK[:t]:
                x = x.remove(j)
            return x
        if r == 4:
            e = new().evolver()
            for k in c:
                e.add(k)
            return e.persistent()
        if r == 5:
            k = t % (len(c) + 1)
            return new(c[:k]) | new(c[k:])
        if r == 6:
            return new(c + JUNK[:t]) - new(JUNK[:t])
        if r == 7:
            return pickle.loads(pickle.dumps(new(c)))
        if r == 8:
            return new(c + JUNK[:5]) & new(c + JUNK[6:t + 6])
        return new(c[:1]).update(c[1:])
    if group == 'bag':
        if r < 3:
            return pbag(c)
        if r == 3:
            x = pbag([])
            for e in reversed(c):
                x = x.add(e)
            return x
        if r == 4:
            x = pbag(c + JUNK[:t])
            for j in JUNK[:t]:
                x = x.remove(j)
            return x
        if r == 5:
            k = t % (len(c) + 1)
            return pbag(c[:k]) + pbag(c[k:])
        if r == 6:
            return pbag(c + JUNK[:t] * 2) - pbag(JUNK[:t] * 2)
        if r == 7:
            return pickle.loads(pickle.dumps(pbag(c)))
        if r == 8:
            return pbag(c) | pbag(c[:t])
        return pbag(c + JUNK[:5]) & pbag(c + JUNK[6:t + 6])
    if group == 'list':
        if r < 3:
            return plist(c)
        if r == 3:
            return plist(c[::-1], reverse=True)
        if r == 4:
            x = plist()
            for e in reversed(c):
                x = x.cons(e)
            return x
        if r == 5:
            return plist(JUNK[:t] + c)[t:]
        if r == 6:
            return plist(c).reverse().reverse()
        if r == 7:
            return pickle.loads(pickle.dumps(plist(c)))
        if r == 8:
            return plist(c[:t % (len(c) + 1)] + [JUNK[0]] + c[t % (len(c) + 1):]).remove(JUNK[0])
        return plist(c + JUNK[:t]).split(len(c))[0]
    if group == 'deque':
        if r == 0:
            return pdeque(c)
        if r == 1:
            return pdeque(c, maxlen=len(c) + t)
        if r == 2:
            x = pdeque()
            for e in c:
                x = x.append(e)
            return x
        if r == 3:
            x = pdeque()
            for e in reversed(c):
                x = x.appendleft(e)
            return x
        if r == 4:
            return pdeque(JUNK[:t] + c + JUNK[:3]).popleft(t).pop(3)
        if r == 5:
            return pdeque(c[::-1]).reverse()
        if r == 6:
            k = t % (len(c) + 1)
            return pdeque(c[k:]).extendleft(c[:k][::-1])
        if r == 7:
            return pickle.loads(pickle.dumps(pdeque(c)))
        if r == 8:
            return pdeque(c[t % max(len(c), 1):] + c[:t % max(len(c), 1)]).rotate(t % max(len(c), 1))
        return pdeque(JUNK[:t] + c, maxlen=len(c)) if c else pdeque()
    new = Rec if group == 'record' else Cls
    d = c
    if r < 2:
        return new(**d)
    if r == 2:
        x = new()
        for k, v in d.items():
            x = x.set(k, v)
        return x
    if r == 3:
        x = new(**{f: JUNK[0] for f in FIELDS})
        for f in FIELDS:
            x = x.set(f, d[f]) if f in d else x.remove(f)
        return x
    if r == 4:
        e = new(**d).evolver()
        for f in FIELDS:
            if f in d:
                e[f] = JUNK[1]
                e[f] = d[f]
        return e.persistent()
    if r == 5:
        return new.create(dict(reversed(list(d.items()))))
    if r == 6:
        x = new(**d)
        hash(x)
        f = FIELDS[t % 4]
        y = x.set(f, JUNK[2])
        hash(y)
        return y.set(f, d[f]) if f in d else y.remove(f)
    if r == 7:
        return pickle.loads(pickle.dumps(new(**d)))
    if r == 8:
        return new.create(new(**d).serialize())
    return new(**d).set(**d)


def derive(g, x, c, how, at, kind):
    """Another value made from x by one operation that replaces, removes or adds an element, and its contents."""
    n = len(c)
    if g in ('map', 'record', 'class'):
        keys = list(c)
        d = dict(c)
        if not keys:
            k = 'a' if g != 'map' else ('new', at)
            d[k] = at
            return x.set(k, at), d
        k = keys[at % n]
        v = [alt(c[k]), c[k], other(c[k], at), alt(alt(c[k]))][kind]
        if how == 4:
            del d[k]
            return x.remove(k), d
        if how == 5 and g == 'map':
            d.pop(k)
            d[alt(k)] = v
            return x.remove(k).set(alt(k), v), d
        d[k] = v
        if how == 1:
            e = x.evolver()
            e[k] = v
            return e.persistent(), d
        if how == 2 and g != 'class':
            return x.update({k: v}), d
        if how == 3:
            return x.transform([k], lambda old: v), d
        return x.set(k, v), d
    c = list(c)
    if n == 0:
        e = ('new', at)
        return {'vector': lambda: x.append(e), 'set': lambda: x.add(e), 'bag': lambda: x.add(e), 'list': lambda: x.cons(e),
                'deque': lambda: x.append(e)}[g](), [e]
    i = at % n
    e = [alt(c[i]), c[i], other(c[i], at), alt(alt(c[i]))][kind]
    if g == 'vector':
        if how == 4:
            return x.delete(i), c[:i] + c[i + 1:]
        if how == 5:
            return x.append(e), c + [e]
        y = [lambda: x.set(i, e), lambda: x.mset(i, e), lambda: x.evolver().set(i, e).persistent(),
             lambda: x.transform([i], lambda old: e)][how]()
        c[i] = e
        return y, c
    if g in ('set', 'bag'):
        old = c[i]
        del c[i]
        if how == 4:
            return x.remove(old), c
        if how == 5:
            y = x.remove(old).update([e])
        elif g == 'set' and how == 1:
            ev = x.evolver()
            ev.remove(old)
            ev.add(e)
            y = ev.persistent()
        else:
            y = x.remove(old).add(e)
        c.append(e)
        return y, (list(dict.fromkeys(c)) if g == 'set' else c)
    if g == 'list':
        i = min(i, 6)
        tail = x
        for _ in range(i + 1):
            tail = tail.rest
        e = [alt(c[i]), c[i], other(c[i], at), alt(alt(c[i]))][kind]
        if how == 4:
            y = tail
            e_list = []
        else:
            y = tail.cons(e)
            e_list = [e]
        if how == 5:
            return y, e_list + c[i + 1:]
        return y.mcons(c[:i][::-1]), c[:i] + e_list + c[i + 1:]
    if how in (0, 1):
        e = [alt(c[-1]), c[-1], other(c[-1], at), alt(alt(c[-1]))][kind]
        y = x.pop()
        return y.append(e), c[:-1] + [e]
    if how in (2, 3):
        e = [alt(c[0]), c[0], other(c[0], at), alt(alt(c[0]))][kind]
        return x.popleft().appendleft(e), [e] + c[1:]
    k = at % 5
    return (x.rotate(k), c[-(k % n):] + c[:-(k % n)] if k % n else c) if how == 4 else (x.reverse(), c[::-1])


def run_case(case, stats):
    if 'steps' in case:
        return run_derived(case, stats)
    g = case['group']
    toks = case['elems']
    base = [key(t) for t in toks]
    if any(isinstance(e, core.BadNe) for e in base):
        base = [e if not isinstance(e, core.BadNe) else ('bn', e.n) for e in base]
    picklable = (case['ra'][0] in (7, 8)) or (case['rb'][0] in (7, 8))
    if picklable:
        base = [e if not isinstance(e, core.Ident) else ('id', e.n) for e in base]
    if g == 'map':
        ca = {k: case['vals'][i % 4] for i, k in enumerate(base)}
    elif g in ('record', 'class'):
        ca = {FIELDS[i]: base[i] for i in range(min(4, len(base)))}
    elif g == 'set':
        ca = list(dict.fromkeys(base))
    else:
        ca = base
    if g in ('record', 'class'):
        cb = dict(ca)
        how, at = case['change'], case['at']
        f = FIELDS[at % 4]
        if how in (4, 7):
            cb[f] = other(cb.get(f), at)
        elif how == 5:
            cb.pop(f, None)
        elif how == 8 and len(cb) > 1:
            cb['a'], cb['b'] = cb['b'], cb['a']
        elif how in (6, 9):
            # a value that looks like no value against no value at all
            blank = [None, False, (), ''][at // 4 % 4]
            if f in ca and how == 6:
                ca[f] = blank
                cb.pop(f)
            elif f not in ca:
                cb[f] = blank
            else:
                cb[f] = blank
    else:
        cb = changed(g, ca, case['change'], case['at'], stats)
    if case['alt']:
        if isinstance(cb, dict):
            cb = {(k if g in ('record', 'class') else alt(k)): alt(v) for k, v in cb.items()}
        else:
            cb = [alt(e) for e in cb]
    a = build(g, case['flav'][0], ca, *case['ra'])
    b = build(g, case['flav'][1], cb, *case['rb'])
    if g in ('map', 'record', 'class', 'vector', 'list', 'deque'):
        equal = ca == cb
    elif g == 'set':
        equal = set(ca) == set(cb)
    else:
        equal = collections.Counter(ca) == collections.Counter(cb)
    if case['prehash'] & 1:
        hash(a)
    if case['prehash'] & 2:
        hash(b)
    what = '%s (recipes %s/%s, %s/%s)' % (g, case['ra'], case['flav'][0], case['rb'], case['flav'][1])
    judge(a, b, equal, what)
    c = build(g, 0, ca, 0, 0)
    judge(a, c, True, what + ' against a plain build')
    judge(b, c, equal, what + ' second against a plain build of the first')
    n = case['nest']
    if n == 1:
        judge(pvector([1, a]), pvector([1, b]), equal, what + ' in a vector')
        judge(plist([a]), plist([b]), equal, what + ' in a list')
    elif n == 2:
        judge(pmap({'k': a}), pmap({'k': b}), equal, what + ' as a map value')
        judge(pmap({a: 1}), pmap({b: 1}), equal, what + ' as a map key')
    elif n == 3:
        judge(pset([a]), pset([b]), equal, what + ' in a set')
        judge(pbag([a, a]), pbag([b, b]), equal, what + ' in a bag')
        judge(Cls(a=a), Cls(a=b), equal, what + ' in a field')
    if g != 'bag':
        for o in (None, 0, 'x', object()):
            check((a == o) is False and (a != o) is True, '%s: equal to %s', what, short(o))
    if not equal:
        churn(g, case, a, ca, cb, what)
    stats.hit(g)
    stats.hit('equal' if equal else 'different')
    if equal and case['alt']:
        stats.hit('equal with other element objects')
    stats.nontrivial = len(ca) >= 2


def churn(g, case, a, ca, cb, what):
    """Values that are gone when the next one is made, perhaps at the same place."""
    for i in range(4):
        x = build(g, case['flav'][i & 1], ca, 0, 0)
        check((a == x) is True and (x == a) is True and hash(x) == hash(a), '%s: an equal value that is dropped soon', what)
        check((a == x) is True, '%s: an equal value that is dropped soon', what)
        del x
        y = build(g, case['flav'][i & 1], cb, 0, 0)
        check((a == y) is False, '%s: a different value made after an equal one was dropped is equal', what)
        h = hash(y)
        check((y == a) is False and (a != y) is True, '%s: a different value made after an equal one was dropped is equal', what)
        del y
        y = build(g, case['flav'][i & 1], cb, 0, 0)
        check(hash(y) == h, '%s: hash of a value made after an equal one was dropped', what)
        del y


def run_derived(case, stats):
    """Values that share structure: each is derived from an earlier one, all are compared with each other."""
    g = case['group']
    base = [key(t) for t in case['elems']]
    base = [e if not isinstance(e, core.BadNe) else ('bn', e.n) for e in base]
    base = [e if not isinstance(e, core.Ident) else ('id', e.n) for e in base]
    if g == 'map':
        ca = {k: (case['vals'] + [1, True, 1.0, Coll(3)])[i % 8] for i, k in enumerate(base)}
    elif g in ('record', 'class'):
        ca = {FIELDS[i]: base[i] for i in range(min(4, len(base)))}
    elif g == 'set':
        ca = list(dict.fromkeys(base))
    else:
        ca = base
    ra = case['ra']
    if g == 'deque' and ra[0] in (1, 9):       # without a bound, which would drop elements below
        ra = (0, 0)
    values = [(build(g, case['flav'][0], ca, *ra), ca)]
    if case['prehash'] & 1:
        hash(values[0][0])
    for how, at, kind in case['steps']:
        x, c = values[-1] if at % 3 else values[0]
        values.append(derive(g, x, c, how, at, kind))
        if case['prehash'] & 2:
            hash(values[-1][0])
    what = '%s (recipe %s/%s, steps %s)' % (g, case['ra'], case['flav'][0], case['steps'])
    for i, (x, cx) in enumerate(values):
        for y, cy in values[i + 1:]:
            if g == 'set':
                equal = set(cx) == set(cy)
            elif g == 'bag':
                equal = collections.Counter(cx) == collections.Counter(cy)
            else:
                equal = cx == cy
            judge(x, y, equal, what)
            stats.hit('derived, equal' if equal else 'derived, different')
    stats.hit(g + ' derived')
    stats.nontrivial = len(ca) >= 2


def judge(a, b, equal, what):
    check((a == b) is equal, '%s: a == b is %s; a=%s b=%s', what, a == b, short(a), short(b))
    check((b == a) is equal, '%s: b == a is %s; a=%s b=%s', what, b == a, short(a), short(b))
    check((a != b) is (not equal), '%s: a != b is %s; a=%s b=%s', what, a != b, short(a), short(b))
    check((b != a) is (not equal), '%s: b != a is %s; a=%s b=%s', what, b != a, short(a), short(b))
    check(a == a and not (a != a) and hash(a) == hash(a), '%s: not equal to itself', what)
    if equal:
        check(hash(a) == hash(b), '%s: equal values have different hashes; a=%s b=%s', what, short(a), short(b))
    d = {a: 1}
    check((b in d) is equal and ({b: 2}.get(a) == 2) is equal, '%s: as a dict key', what)
    check((b in {a}) is equal, '%s: in a Python set', what)
    check((b in pmap({a: 1})) is equal, '%s: as a persistent map key', what)
    check((a in pset([b])) is equal, '%s: in a persistent set', what)
    check(len(pset([a, b])) == (1 if equal else 2), '%s: in a persistent set of both', what)
