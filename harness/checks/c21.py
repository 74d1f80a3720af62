"""C21: updates of large collections share structure with the original."""
import gc
import tracemalloc
from hypothesis import strategies as st
import core
from core import fail, check
from gen import *
from pyrsistent import (pvector, pmap, pset, pbag, plist, pdeque, PRecord, field, CheckedPVector, CheckedPSet, CheckedPMap, PClass)

KINDS = ['vec', 'map', 'set', 'bag', 'list', 'deque', 'cvec', 'cmap', 'cset']
SIZES = st.sampled_from([3000, 5000, 8000, 12000, 20000, 33000, 33825, 40000, 66000])
BIGGER = st.sampled_from([100000, 150000, 1048576 // 4])


class CV(CheckedPVector):
    __type__ = int


class CM(CheckedPMap):
    __key_type__ = int
    __value_type__ = int


class CS(CheckedPSet):
    __type__ = int


step = st.tuples(st.integers(0, 30), idx_tok)


def strategies(spec):
    return [(k, st.fixed_dictionaries(dict(kind=st.just(k), size=SIZES if spec['tier'] == 'quick' else st.one_of(SIZES, SIZES, BIGGER), build=st.integers(0, 5),
                                           ops=st.lists(step, min_size=1, max_size=10), chain=st.integers(0, 30), cidx=idx_tok)),
             3 if k in ('vec', 'map', 'set') else 1) for k in KINDS]


# ------------------------------------------------------------------ building, in different ways

def build(kind, n, how):
    if kind in ('vec', 'cvec'):
        mk = pvector if kind == 'vec' else CV
        if how == 0 or kind == 'cvec' and how in (2, 5):
            return mk(range(n))
        if how == 1:
            x = mk(range(n - 40))
            for i in range(40):
                x = x.append(i)
            return x
        if how == 2:
            return mk(range(n + 100))[50:n + 50]
        if how == 3:
            e = mk(range(n)).evolver()
            for i in range(0, n, 97):
                e[i] = -i
            return e.persistent()
        if how == 4:
            return mk(range(n // 2)).extend(range(n - n // 2))
        return mk(range(n // 3)) * 3
    if kind in ('map', 'cmap'):
        d = {i * 3: i for i in range(n)}
        mk = pmap if kind == 'map' else CM
        if how == 1:
            x = mk({}).evolver()
            for k in d:
                x[k] = d[k]
            return x.persistent()
        if how == 2 and kind == 'map':
            return pmap(d, pre_size=n // 3)
        if how == 3:
            x = mk(d)
            e = x.evolver()
            for k in range(0, 3 * n, 30):
                e.remove(k)
            return e.persistent()
        if how == 4:
            return mk({}).update(d)
        if how == 0 and kind == 'map':
            return pmap(iter(d.items()))
        if how == 5 and kind == 'map':
            return pmap(d, pre_size=4 * n)
        return mk(d)
    if kind in ('set', 'cset'):
        mk = pset if kind == 'set' else CS
        items = [i * 5 for i in range(n)]
        if how == 1:
            e = mk([]).evolver()
            for k in items:
                e.add(k)
            return e.persistent()
        if how == 2:
            return mk([]).update(items)
        if how == 3:
            e = mk(items).evolver()
            for k in items[::10]:
                e.remove(k)
            return e.persistent()
        if how == 4 and kind == 'set':
            return pmap({k: 1 for k in items}).keys()
        return mk(items)
    if kind == 'bag':
        items = [i % (n * 3 // 4) for i in range(n)]
        if how == 1:
            return pbag([]).update(items)
        if how == 2:
            return pbag(items[:n // 2]) + pbag(items[n // 2:])
        if how == 3:
            return pbag(items) | pbag([1, 2, 3])
        return pbag(items)
    if kind == 'list':
        if how == 1:
            return plist([]).mcons(range(n))
        if how == 2:
            return plist(range(n + 20))[20:]
        if how == 3:
            x = plist()
            for i in range(n):
                x = x.cons(i)
            return x
        if how == 4:
            return plist(range(n)).reverse()
        return plist(range(n))
    n = min(n, 12000)
    if how == 1:                # everything in one half
        return pdeque().extend(range(n))
    if how == 2:
        return pdeque().extendleft(range(n))
    if how == 3:                # one half empty, or nearly
        return pdeque(range(n)).pop(n // 2)
    if how == 4:
        return pdeque(range(n)).popleft(n - n // 2)
    x = pdeque(range(n), maxlen=[None, None, n + 1000][how % 3])
    return x.rotate(n // 3) if how > 2 else x


def keys_of(x, tok):
    n = len(x)
    k = [idx(tok, n) % max(n, 1), (idx(tok, n) + 1) % max(n, 1)]
    return k


# ------------------------------------------------------------------ operations: name -> (fn(x, i, k), kind of bound)
# i: index in range, k: a key that is present, z: keys that are not

class Ctx:
    pass


def evolve(f):
    def g(x, c):
        e = x.evolver()
        f(e, c)
        return e.persistent()
    return g


def evolve2(f, g):
    def h(x, c):
        e = x.evolver()
        f(e, c)
        p = e.persistent()
        g(e, c)
        return p, e.persistent()
    return h


VEC = [
    ('set', lambda x, c: x.set(c.i, c.v)),
    ('append', lambda x, c: x.append(-6)),
    ('evolver set', evolve(lambda e, c: e.set(c.i, c.v))),
    ('evolver append', evolve(lambda e, c: e.append(-8))),
    ('mset', lambda x, c: x.mset(c.i, c.v)),
    ('transform', lambda x, c: x.transform([c.i], c.v)),
    ('set last', lambda x, c: x.set(-1, c.v)),
    ('set at the end', lambda x, c: x.set(len(x), c.v)),
    ('extend one', lambda x, c: x.extend([-11])),
    ('plus one', lambda x, c: x + [-12]),
    ('evolver twice', evolve2(lambda e, c: e.set(c.i, 1), lambda e, c: e.set(c.i, 2))),
]
MAP = [
    ('set present', lambda x, c: x.set(c.k, c.v)),
    ('set new', lambda x, c: x.set(c.z, c.v)),
    ('remove', lambda x, c: x.remove(c.k)),
    ('discard', lambda x, c: x.discard(c.k)),
    ('evolver set', evolve(lambda e, c: e.set(c.k, c.v))),
    ('evolver new', evolve(lambda e, c: e.set(c.z, c.v))),
    ('evolver remove', evolve(lambda e, c: e.remove(c.k))),
    ('update one', lambda x, c: x.update({c.k: c.v})),
    ('transform', lambda x, c: x.transform([c.k], c.v)),
    ('update_with one', lambda x, c: x.update_with(lambda p, q: q, {c.k: c.v})),
    ('plus one', lambda x, c: x + {c.k: c.v}),
    ('evolver twice', evolve2(lambda e, c: e.set(c.k, 1), lambda e, c: e.remove(c.k))),
]
SET = [
    ('add', lambda x, c: x.add(c.z)),
    ('add present', lambda x, c: x.add(c.k)),
    ('remove', lambda x, c: x.remove(c.k)),
    ('discard', lambda x, c: x.discard(c.k)),
    ('evolver add', evolve(lambda e, c: e.add(c.z))),
    ('evolver remove', evolve(lambda e, c: e.remove(c.k))),
    ('update one', lambda x, c: x.update([c.z])),
    ('evolver twice', evolve2(lambda e, c: e.remove(c.k), lambda e, c: e.add(c.k))),
]
BAG = [
    ('add', lambda x, c: x.add(c.z)),
    ('add present', lambda x, c: x.add(c.k)),
    ('remove', lambda x, c: x.remove(c.k)),
]
LIST = [
    ('cons', lambda x, c: x.cons(1)),
    ('mcons one', lambda x, c: x.mcons([1])),
    ('rest', lambda x, c: x.rest),
]
DEQUE = [
    ('append', lambda x, c: x.append(1)),
    ('appendleft', lambda x, c: x.appendleft(1)),
    ('extend one', lambda x, c: x.extend([1])),
    ('extendleft one', lambda x, c: x.extendleft([1])),
]
OPS = {'vec': VEC, 'cvec': VEC[:6] + VEC[-1:], 'map': MAP, 'cmap': MAP[:9] + MAP[-1:], 'set': SET, 'cset': SET[:6] + SET[-1:], 'bag': BAG, 'list': LIST, 'deque': DEQUE}
GROWS = {'set new', 'evolver new', 'add', 'evolver add', 'update one', 'extend one'}
LIMIT = 9000          # bytes; an update of the deepest trees here takes well under half of it


def depth(n):
    d = 1
    while n > 32:
        n //= 32
        d += 1
    return d


def context(kind, x, tok, j):
    c = Ctx()
    n = len(x)
    c.i = inr(tok, n)
    c.v = -1
    if kind in ('map', 'cmap', 'set', 'cset', 'bag'):
        step = {'map': 3, 'cmap': 3, 'set': 5, 'cset': 5, 'bag': 1}[kind]
        q = c.i
        for _ in range(200000):
            if q * step in x:
                break
            q = (q + 1) % max(2 * n, 1)
        else:
            raise core.HarnessError('no key found')
        c.k = q * step
        c.z = -1000 - j
    return c


def retained(fn, x, c):
    hold = pvector(range(36000))         # empties the free list of nodes of the C extension
    gc.collect() if gc.get_count()[0] > 100000 else None
    tracemalloc.start()
    try:
        a = tracemalloc.get_traced_memory()[0]
        r = fn(x, c)
        b = tracemalloc.get_traced_memory()[0]
    finally:
        tracemalloc.stop()
    del hold
    return r, b - a


def run_case(case, stats):
    kind, n = case['kind'], case['size']
    x = build(kind, n, case['build'])
    stats.hit('%s built by %d' % (kind, case['build']))
    gc.disable()
    try:
        identities(kind, x)
        for j, (o, tok) in enumerate(case['ops']):
            name, fn = OPS[kind][o % len(OPS[kind])]
            c = context(kind, x, tok, j)
            r, got = retained(fn, x, c)
            stats.hit('%s %s' % (kind, name))
            limit = LIMIT
            if got > limit and kind in ('map', 'cmap', 'set', 'cset', 'bag') and name in GROWS:
                # perhaps the table had to grow; directly afterwards it does not
                stats.hit('growth step')
                x = r
                c = context(kind, x, tok, 500 + j)
                r, got = retained(fn, x, c)
            stats.classes['max bytes kept'] = max(got, stats.classes.get('max bytes kept', 0))
            if got > limit:
                fail('%s of a %s with %d elements keeps %d bytes of new memory', name, kind, len(x), got)
            x = r[1] if isinstance(r, tuple) else r
        chain(kind, x, case, stats)
        identities(kind, x)
    finally:
        gc.enable()
    stats.nontrivial = True


def chain(kind, x, case, stats):
    """Many updates in a row of which only the last result is kept: no intermediate version may be kept either."""
    name, fn = OPS[kind][case['chain'] % len(OPS[kind])]
    if 'twice' in name:
        return
    c = context(kind, x, case['cidx'], 2000)
    back = None
    if kind in ('list', 'deque'):
        per = 600
    elif name in ('append', 'evolver append', 'set at the end', 'extend one', 'plus one') and kind in ('vec', 'cvec'):
        per = 120
    else:
        per = 0
        if 'remove' in name or name == 'discard':
            if kind == 'bag':
                return
            # put it back every time
            back = (lambda x, c: x.set(c.k, c.v)) if kind in ('map', 'cmap') else (lambda x, c: x.add(c.k))
        elif name in ('add', 'evolver add', 'update one') and kind in ('set', 'cset'):
            back = lambda x, c: x.remove(c.z)
        elif name in ('set new', 'evolver new'):
            back = lambda x, c: x.discard(c.z)
    rep = 60

    def many(x, c):
        for q in range(rep):
            c.v = -10 - q
            x = fn(x, c)
            if back:
                x = back(x, c)
        return x
    if per == 0 and name in GROWS:
        x = fn(x, c)              # the table then need not grow
    if back:
        for q in range(8):
            x = back(fn(x, c), c)
    if kind == 'list' and name == 'rest':
        return
    r, got = retained(many, x, c)
    stats.hit('chain %s %s' % (kind, name))
    limit = LIMIT + per * rep
    if got > limit:
        fail('%d times %s of a %s with %d elements, keeping only the last result, keeps %d bytes of new memory', rep, name, kind, len(x), got)


def identities(kind, x):
    if hasattr(x, 'evolver'):
        e = x.evolver()
        check(e.persistent() is x, '%s: an unchanged evolver does not return the original', kind)
        check(e.persistent() is x, '%s: an unchanged evolver does not return the original the second time', kind)
    if kind == 'vec':
        check(x[:] is x, 'a full slice is not the original')
        e = x.evolver()
        e[3] = 'x'
        p = e.persistent()
        check(e.persistent() is p, 'persistent() without changes since the last gives another object')
    if kind in ('map', 'set', 'cset', 'cmap'):
        check(x.discard('missing') is x, '%s: discard of a missing element does not return the original', kind)
