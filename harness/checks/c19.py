"""C19: the C vector neither leaks, frees early, nor corrupts memory."""
import gc
import operator
import sys
import weakref
from hypothesis import strategies as st
import core
from core import fail, check
from gen import *

SIZES = st.sampled_from([0, 1, 2, 3, 5, 31, 32, 33, 34, 40, 63, 64, 65, 66, 97, 100] * 3 + [1023, 1024, 1055, 1056, 1057, 1058, 1088, 1089])
HUGE = [32799, 32800, 32801, 33825]
small = st.sampled_from([0, 1, 2, 3, 31, 32, 33, 64, 65])
h = st.integers(0, 7)
flag = st.booleans()

TABLE = {
    'new': (4, [SIZES, st.integers(0, 4)]),
    'append': (4, [h]),
    'extend': (3, [h, small, st.integers(0, 5)]),
    'set': (5, [h, idx_tok]),
    'mset': (2, [h, st.lists(idx_tok, max_size=4)]),
    'delete': (2, [h, idx_tok]),
    'delete2': (1, [h, idx_tok, idx_tok]),
    'remove': (2, [h, idx_tok]),
    'slice': (2, [h, slice_tok]),
    'plus': (2, [h, h]),
    'times': (1, [h, st.integers(-1, 3)]),
    'transform': (1, [h, idx_tok, flag]),
    'reads': (2, [h, h, idx_tok]),
    'missing': (2, [h, st.integers(0, 6)]),
    'share': (1, [h, idx_tok]),
    'iter': (2, [h]),
    'next': (3, [h, st.integers(1, 70)]),
    'evolver': (4, [h]),
    'eset': (8, [h, idx_tok]),
    'eappend': (3, [h]),
    'eextend': (2, [h, small, st.integers(0, 5)]),
    'edel': (3, [h, idx_tok]),
    'eread': (1, [h, idx_tok]),
    'persist': (5, [h]),
    'drop': (5, [h]),
    'dropev': (2, [h]),
    'dropit': (1, [h]),
    'hold': (1, [h, idx_tok]),
    'unhold': (1, []),
    'gc': (3, []),
    'fail': (3, [h, st.integers(0, 6), st.integers(1, 40)]),
    'fail_iter': (3, [h, st.integers(0, 66), st.integers(0, 3)]),
    'badargs': (4, [h, st.integers(0, 59)]),
    'cycle': (2, [SIZES, idx_tok, st.integers(0, 8)]),
    'cycle_shared': (1, [h, st.integers(0, 3)]),
}

ACTIONS = ['read', 'append', 'set', 'del', 'persist', 'gc', 'drop', 'iter', 'new', 'none']
action = st.tuples(st.integers(0, len(ACTIONS) - 1), st.integers(0, 3), idx_tok)
RTABLE = {
    'new': (3, [SIZES, st.integers(0, 3)]),
    'evolver': (4, [h]),
    'eset': (9, [h, idx_tok, st.lists(action, max_size=3)]),
    'eappend': (3, [h, st.lists(action, max_size=3)]),
    'eextend': (2, [h, small, st.lists(action, max_size=2)]),
    'egen': (2, [h, small, st.lists(action, min_size=1, max_size=3)]),
    'vgen': (1, [h, small, st.lists(action, min_size=1, max_size=3)]),
    'search': (2, [h, st.integers(0, 4), st.lists(action, min_size=1, max_size=3)]),
    'edel': (4, [h, idx_tok]),
    'persist': (5, [h]),
    'dropv': (4, [h]),
    'dropev': (3, [h]),
    'vset': (3, [h, idx_tok, st.lists(action, max_size=3)]),
    'vappend': (2, [h, st.lists(action, max_size=3)]),
    'weak': (2, [h, st.lists(action, max_size=2)]),
    'iter': (1, [h]),
    'gc': (2, []),
    'cycle': (1, [h, idx_tok]),
}


def strategies(spec):
    out = [
        ('alive', case(1, 24, TABLE, mode=st.just('alive')), 5),
        ('reentrant', case(2, 24, RTABLE, mode=st.just('reentrant'), init=st.tuples(SIZES, st.lists(action, min_size=1, max_size=3))), 3),
    ]
    if spec['config'] == 'c':
        out.append(('loop', case(1, 20, TABLE, mode=st.just('loop')), 3))
    return out


def enumerated(spec):
    deep = 200000 if spec['config'] == 'c' else 30000
    for i in range(6):
        if (i + spec['shard']) % 3 == 0 or spec['tier'] != 'quick':
            yield {'mode': 'deep', 'kind': i, 'depth': deep}
    for i, n in enumerate(HUGE):
        if spec['shard'] % 4 == i:
            ops = [['new', n, 0], ['set', 0, 0], ['append', 0], ['evolver', 0], ['eset', 0, 30], ['eset', 0, 5], ['persist', 0],
                   ['slice', 0, [30, None, 0]], ['edel', 0, 3], ['gc'], ['drop', 0], ['persist', 0], ['plus', 0, 1], ['iter', 1], ['drop', 0], ['next', 0, 50],
                   ['dropev', 0], ['gc'], ['drop', 0], ['dropit', 0], ['drop', 0]]
            yield {'mode': 'alive', 'ops': ops}
            if spec['config'] == 'c':
                yield {'mode': 'loop', 'ops': ops}


# ------------------------------------------------------------------ elements

class Boom(Exception):
    pass


class Fuse:
    frozen = False
    left = -1            # calls of element methods until the failure; -1: never


def tick():
    if Fuse.left > 0:
        Fuse.left -= 1
        if Fuse.left == 0:
            raise Boom()


class Obj:
    __slots__ = ('s', 'k', 'ref', '__weakref__')

    def __init__(self, s):
        self.s = s
        self.k = s % 5
        self.ref = None

    def __eq__(self, other):
        tick()
        return isinstance(other, Obj) and self.k == other.k

    def __lt__(self, other):
        tick()
        return self.k < other.k

    def __le__(self, other):
        tick()
        return self.k <= other.k

    def __hash__(self):
        tick()
        return self.k

    def __repr__(self):
        tick()
        return 'o%d' % self.s


def run_case(case, stats):
    from pyrsistent import pvector
    if type(pvector()).__module__ != 'pvectorc':
        raise core.HarnessError('C19 needs the C extension')
    if not Fuse.frozen:
        Fuse.frozen = True
        gc.collect()
        gc.freeze()                 # collections then only look at what the cases create
    mode = case['mode']
    stats.hit('mode ' + mode)
    Fuse.left = -1
    if mode == 'deep':
        run_deep(case, stats)
    elif mode == 'alive':
        gc.collect()
        World(Weak()).run(case, stats)
    elif mode == 'loop':
        run_loop(case, stats)
    else:
        run_reentrant(case, stats)


# ------------------------------------------------------------------ element stores

class Weak:
    """Every element is new and only weakly known to the harness."""
    exact = True

    def __init__(self):
        self.reg = []
        self.gone = set()           # serials that may stay (cycles through shared nodes)

    def make(self):
        o = Obj(len(self.reg))
        self.reg.append(weakref.ref(o))
        return o

    def alive(self):
        return {s for s, r in enumerate(self.reg) if r() is not None}


class Fixed:
    """Elements from a fixed table, refcounts are compared from outside."""
    exact = False

    def __init__(self, table):
        self.table = table
        self.n = 0
        self.gone = set()

    def make(self):
        self.n += 1
        return self.table[(self.n - 1) % len(self.table)]


class Ev:
    def __init__(self, e, m):
        self.e, self.m, self.extra = e, list(m), set(m)


class It:
    def __init__(self, it, m):
        self.it, self.m, self.pos, self.done = it, m, 0, False


class Odd:
    """Compares with nothing."""

    def __eq__(self, other):
        raise Boom()
    __lt__ = __le__ = __gt__ = __ge__ = __ne__ = __eq__
    __hash__ = None


def guarded(fn):
    """The exception type, or None.  The exception object and its traceback are gone on return."""
    try:
        fn()
    except Exception as e:
        return type(e)
    return None


class World:
    def __init__(self, store):
        self.store = store
        self.vs = []            # [vector, serials]
        self.evs = []
        self.its = []
        self.held = []          # elements held by the harness itself

    # -- helpers
    def items(self, n):
        return [self.store.make() for _ in range(n)]

    def source(self, kind, n):
        """(iterable, serials)"""
        from pyrsistent import pvector
        items = self.items(n)
        ser = [o.s for o in items]
        kind %= 6
        if kind == 0:
            return items, ser
        if kind == 1:
            return tuple(items), ser
        if kind == 2:
            return iter(items), ser
        if kind == 3:
            def g(xs):
                while xs:
                    yield xs.pop(0)
            return g(items), ser
        if kind == 4:
            return pvector(items), ser
        return map(lambda x: x, items), ser

    def put(self, v, m):
        if len(self.vs) >= 8:
            self.vs.pop(0)
        self.vs.append([v, m])

    def vec(self, t):
        return self.vs[t % len(self.vs)]

    def read(self, v, m, what):
        l = v.tolist()
        check(len(l) == len(m) and all(type(o) is Obj and o.s == s for o, s in zip(l, m)), '%s: contents are not intact', what)

    def verify(self, what, full=True):
        if full:
            for v, m in self.vs:
                self.read(v, m, what)
            for ev in self.evs:
                check(len(ev.e) == len(ev.m), '%s: len of an evolver', what)
                n = len(ev.m)
                for i in (range(n) if n < 70 else (0, 1, 31, 32, 33, n // 2, n - 34, n - 33, n - 32, n - 2, n - 1)):
                    check(ev.e[i].s == ev.m[i], '%s: evolver[%d] is not intact', what, i)
        if not self.store.exact:
            return
        low = {o.s for o in self.held}
        for _, m in self.vs:
            low.update(m)
        for ev in self.evs:
            low.update(ev.m)
        high = set()
        for ev in self.evs:
            high |= ev.extra
        for it in self.its:
            # an exhausted iterator lets go of its vector
            if not it.done:
                low.update(it.m)
        high |= low
        high |= self.store.gone
        alive = self.store.alive()
        lost = low - alive
        if lost:
            fail('%s: element %d was released while it is still held', what, min(lost))
        if alive - high:
            gc.collect()
            alive = self.store.alive()
            if alive - high:
                fail('%s: %d elements (e.g. %d) are still alive although nothing holds them', what, len(alive - high), min(alive - high))

    # -- running
    def run(self, case, stats):
        ops = 0
        big = 0
        for op in case['ops']:
            stats.hit(op[0])
            self.step(op)
            Fuse.left = -1
            ops += 1
            big = max([big] + [len(m) for _, m in self.vs])
            if self.store.exact:
                self.verify(op[0])
        self.verify('at the end')
        while self.vs or self.evs or self.its:
            if self.its:
                self.its.pop()
            elif self.evs:
                self.evs.pop(0)
                self.verify('after dropping an evolver at the end', len(self.evs) < 2)
            else:
                self.vs.pop(0)
                self.verify('after dropping a vector at the end', len(self.vs) < 3)
        self.held.clear()
        self.verify('with everything dropped')
        stats.nontrivial = ops >= 3 and big > 32

    def step(self, op):
        from pyrsistent import pvector
        name = op[0]
        if name == 'gc':
            gc.collect()
            return
        if name == 'new':
            src, ser = self.source(op[2], op[1])
            self.put(pvector(src), ser)
            return
        if name == 'unhold':
            self.held.clear()
            return
        if name == 'cycle':
            self.cycle(op[1], op[2], op[3])
            return
        if name == 'drop':
            if self.vs:
                del self.vs[op[1] % len(self.vs)]
            return
        if name == 'dropev':
            if self.evs:
                del self.evs[op[1] % len(self.evs)]
            return
        if name == 'dropit':
            if self.its:
                del self.its[op[1] % len(self.its)]
            return
        if name == 'next':
            if self.its:
                it = self.its[op[1] % len(self.its)]
                for _ in range(op[2]):
                    if it.pos < len(it.m):
                        check(next(it.it).s == it.m[it.pos], 'iterator at %d', it.pos)
                        it.pos += 1
                    else:
                        check(next(it.it, None) is None, 'iterator not exhausted')
                        it.done = True
            return
        if not self.vs:
            items = self.items(40)
            self.put(pvector(items), [o.s for o in items])
            del items
        if name[0] == 'e' and name not in ('evolver', 'extend') or name == 'persist':
            if not self.evs:
                v, m = self.vec(op[1])
                self.evs.append(Ev(v.evolver(), m))
                del v
            self.estep(name, op, self.evs[op[1] % len(self.evs)])
            return
        v, m = self.vec(op[1])
        n = len(m)
        if name == 'append':
            o = self.store.make()
            self.put(v.append(o), m + [o.s])
        elif name == 'extend':
            if n + op[2] < 40000:
                src, ser = self.source(op[3], op[2])
                self.put(v.extend(src), m + ser)
        elif name == 'set':
            if n:
                i = inr(op[2], n)
                o = self.store.make()
                mm = list(m)
                mm[i] = o.s
                self.put(v.set(i, o), mm)
            else:
                check(guarded(lambda: v.set(3, self.store.make())) is IndexError, 'set beyond the end')
        elif name == 'mset':
            if n:
                mm = list(m)
                args = []
                for t in op[2]:
                    i = inr(t, n)
                    o = self.store.make()
                    args += [i, o]
                    mm[i] = o.s
                self.put(v.mset(*args), mm)
        elif name == 'delete':
            if n:
                i = inr(op[2], n)
                self.put(v.delete(i), m[:i] + m[i + 1:])
            else:
                check(guarded(lambda: v.delete(0)) is IndexError, 'delete on empty')
        elif name == 'delete2':
            if n:
                i, j = sorted((inr(op[2], n), inr(op[3], n)))
                self.put(v.delete(i, j), m[:i] + m[j:])
        elif name == 'remove':
            if n:
                i = inr(op[2], n)
                k = m[i] % 5
                j = next(x for x in range(n) if m[x] % 5 == k)
                self.put(v.remove(v[i]), m[:j] + m[j + 1:])
            else:
                check(guarded(lambda: v.remove(1)) is ValueError, 'remove on empty')
        elif name == 'slice':
            s = mkslice(op[2], n)
            self.put(v[s], m[s])
        elif name == 'plus':
            w, wm = self.vec(op[2])
            if n + len(wm) < 40000:
                self.put(v + w, m + wm)
        elif name == 'times':
            if n * op[2] < 4000:
                self.put(v * op[2], m * op[2])
        elif name == 'transform':
            if n:
                i = inr(op[2], n)
                o = self.store.make()
                mm = list(m)
                mm[i] = o.s
                self.put(v.transform([i], (lambda old: o) if op[3] else o), mm)
        elif name == 'reads':
            w, wm = self.vec(op[2])
            i = inr(op[3], n) if n else 0
            hash(v), repr(v) if n < 200 else None, v == w, v < w, v >= w, v != w, v == v.tolist(), v.tolist() == v, v == 3, v < v[:]
            if n:
                v.index(v[i]), v.count(v[i]), v[i] in v, v[i - n], list(reversed(v))
            list(v), tuple(v), len(v), bool(v), v.__reduce__(), sum(1 for _ in v)
        elif name == 'missing':
            # a probe that is equal to no element; nothing holds it afterwards
            if self.store.exact:
                o = self.store.make()
                o.k = -1
                fns = [lambda: v.index(o), lambda: v.remove(o), lambda: v.index(o, 0, n), lambda: v.count(o), lambda: o in v,
                       lambda: v == o, lambda: v != [o]]
                r = guarded(fns[op[2]])
                check(r is (ValueError if op[2] < 3 else None), '%s: a search for a missing value gives %s', name, r)
        elif name == 'share':
            if n:
                # an element of one vector placed into a new one
                o = v[inr(op[2], n)]
                self.put(pvector([o, o]), [o.s, o.s])
        elif name == 'iter':
            if len(self.its) < 4:
                self.its.append(It(iter(v), m))
        elif name == 'evolver':
            if len(self.evs) < 4:
                self.evs.append(Ev(v.evolver(), m))
        elif name == 'hold':
            if n and len(self.held) < 6:
                self.held.append(v[inr(op[2], n)])
        elif name == 'fail':
            self.failing(v, m, op[2], op[3])
        elif name == 'fail_iter':
            self.failing_iter(v, op[2], op[3])
        elif name == 'badargs':
            self.badargs(v, op[2])
        elif name == 'cycle_shared':
            self.cycle_shared(v, m, op[2])

    def estep(self, name, op, ev):
        e, m = ev.e, ev.m
        n = len(m)
        if name == 'eset':
            i = inr(op[2], n + 1)
            o = self.store.make()
            if i == n:
                m.append(o.s)
            else:
                m[i] = o.s
            e[i] = o
        elif name == 'eappend':
            o = self.store.make()
            e.append(o)
            m.append(o.s)
        elif name == 'eextend':
            if n + op[2] < 40000:
                src, ser = self.source(op[3], op[2])
                e.extend(src)
                m.extend(ser)
        elif name == 'edel':
            if n:
                i = inr(op[2], n)
                ev.extra |= set(m)
                del e[i]
                del m[i]
        elif name == 'eread':
            if n:
                i = inr(op[2], n)
                check(e[i].s == m[i] and e[i - n].s == m[i], 'evolver read')
            e.is_dirty()
            guarded(lambda: e[n + 3])
            guarded(lambda: e['x'])
            guarded(lambda: e.set(n + 5, self.store.make()))
            guarded(lambda: e.set('q', self.store.make()))
            guarded(lambda: e.__delitem__(n + 4))
        elif name == 'persist':
            p = e.persistent()
            ev.extra = set(m)
            self.put(p, list(m))

    def failing(self, v, m, kind, after):
        Fuse.left = after
        fns = [lambda: v.index(self.store.make()), lambda: v.count(self.store.make()), lambda: v.remove(self.store.make()), lambda: hash(v),
               lambda: repr(v), lambda: v == self.vs[0][0].append(self.store.make()), lambda: v < self.vs[0][0]]
        guarded(fns[kind])
        Fuse.left = -1

    def failing_iter(self, v, after, kind):
        from pyrsistent import pvector

        def g():
            for i in range(after):
                yield self.store.make()
            raise Boom()
        if kind == 0:
            check(guarded(lambda: v.extend(g())) is Boom, 'extend hides the exception of the iterator')
        elif kind == 1:
            check(guarded(lambda: pvector(g())) is Boom, 'pvector hides the exception of the iterator')
        elif kind == 2:
            e = v.evolver()
            check(guarded(lambda: e.extend(g())) is Boom, 'evolver extend hides the exception of the iterator')
        else:
            check(guarded(lambda: v + g()) is not None, 'vector + generator')

    def badargs(self, v, kind):
        o = self.store.make
        fns = [lambda: v.set(o(), o()), lambda: v.set(10 ** 9, o()), lambda: v.mset(0, o(), 'x'), lambda: v.mset(10 ** 9, o()), lambda: v[o()],
               lambda: v.extend(o()), lambda: v.evolver().extend(o()), lambda: v.delete(o()), lambda: v.append(), lambda: v * o(),
               lambda: v.delete(10 ** 6), lambda: v.delete(-10 ** 6), lambda: v.delete(0, o()), lambda: v.delete(10 ** 30), lambda: v[::0], lambda: v[o():],
               lambda: v[10 ** 6], lambda: v[-10 ** 6], lambda: v[10 ** 30], lambda: v < Odd(), lambda: Odd() < v, lambda: v == Odd(), lambda: Odd() == v,
               lambda: v < 5, lambda: 5 >= v, lambda: v <= o(), lambda: v > None, lambda: v + o(), lambda: v + 5, lambda: hash(v.append([o()])),
               lambda: v.set(-10 ** 6, o()), lambda: v.set(10 ** 30, o()), lambda: v.set(1.5, o()), lambda: v.mset(0, o(), 10 ** 6, o()),
               lambda: v.mset(1.5, o()), lambda: v.index(o(), 'x'), lambda: v.index(Odd() if len(v) else 1), lambda: v.remove(Odd() if len(v) else 1),
               lambda: v.count(), lambda: v.transform([10 ** 6], o()), lambda: v.transform([lambda *a: 1], o()),
               lambda: self.dirty(v)[o()], lambda: self.dirty(v)[10 ** 6], lambda: self.dirty(v).set(10 ** 6, o()), lambda: self.dirty(v).set(1.5, o()),
               lambda: self.dirty(v).delete(10 ** 6), lambda: self.dirty(v).delete(o()), lambda: self.dirty(v).append(), lambda: self.dirty(v).extend(5),
               lambda: self.dirty(v).set(o()), lambda: self.dirty(v).delete(-10 ** 6), lambda: self.dirty(v)[-10 ** 6]]
        check(guarded(fns[kind % len(fns)]) is not None, 'bad arguments are accepted')

    def dirty(self, v):
        e = v.evolver()
        if len(v):
            e[0] = self.store.make()
        e.append(self.store.make())
        return e

    def cycle(self, n, t, kind):
        """An element of an otherwise unshared vector refers back to it; garbage after the drop."""
        from pyrsistent import pvector
        if kind > 4:
            self.cycle_evolver(n, t, kind)
            return
        items = self.items(max(n, 1))
        ser = [o.s for o in items]
        i = inr(t, len(items))
        v = pvector(items)
        if kind == 0:
            items[i].ref = v
        elif kind == 1:
            items[i].ref = e = v.evolver()
            e[i] = items[i]
            e.append(self.store.make())
            del v
        elif kind == 2:
            items[i].ref = iter(v)
        elif kind == 3:
            items[i].ref = pvector([v])
        else:
            items[i].ref = [v]
        if not self.store.exact:
            items[i].ref = None
            return
        last = items[i]
        del items
        gc.collect()
        if kind == 1:
            check(last.ref[i].s == ser[i] and len(last.ref) == len(ser) + 1, 'evolver of a cycle after a collection')
            e = None
        else:
            self.read(v, ser, 'vector of a live cycle after a collection')
        v = None
        check(last.s == ser[i], 'element of a live cycle')
        last = None
        gc.collect()
        if kind == 1:
            # the evolver may share nodes with its original: not required to be collected, but must stay sane
            self.store.gone.update(ser)
            self.store.gone.update(range(len(self.store.reg)))
        still = self.store.alive() & set(ser)
        if kind in (0, 3, 4):
            check(not still, 'an unreachable vector whose element refers to it is not collected')
        else:
            self.store.gone.update(still)

    def cycle_evolver(self, n, t, kind):
        """An object added to an evolver refers to it; garbage after the drop."""
        from pyrsistent import pvector
        o = self.store.make()
        s = o.s
        e = pvector(self.items(n)).evolver()
        if kind == 5:
            e.append(o)
        elif kind == 6:
            e.extend([o, self.store.make(), o])
        elif kind == 7:
            e[inr(t, n + 1)] = o
        else:
            e[inr(t, n + 1)] = o
            e.append(o)
            if n:
                del e[inr(t, n)]
        o.ref = e
        if not self.store.exact:
            o.ref = None
            return
        gc.collect()
        check(any(e[i] is o for i in range(len(e))) or kind == 8, 'evolver of a cycle after a collection')
        o = e = None
        gc.collect()
        check(s not in self.store.alive(), 'an unreachable evolver to which an object that refers to it was added is not collected')

    def cycle_shared(self, v, m, kind):
        """Garbage cycles that share nodes with live vectors; the live ones must stay intact."""
        if not self.store.exact:
            return
        o = self.store.make()
        self.store.gone.add(o.s)
        if kind == 0:
            o.ref = v.append(o)
        elif kind == 1:
            o.ref = v.extend([o] * 40)
        elif kind == 2:
            e = v.evolver()
            e.append(o)
            o.ref = e
            del e
        else:
            o.ref = [v, v.append(o), v[:]]
        self.store.gone.update(m)
        o = None
        gc.collect()
        self.read(v, m, 'live vector sharing nodes with garbage')


# ------------------------------------------------------------------ loops: nothing accumulates

TABLE_OBJS = [Obj(i) for i in range(40000)]


def run_loop(case, stats):
    from pyrsistent import pvector
    hold = pvector(range(36000))            # empties the free list of nodes, so that a lost node is seen at once
    objs = TABLE_OBJS
    dummy = core.Stats()
    gc.collect()
    gc.disable()
    try:
        used = [0]

        def once():
            w = World(Fixed(TABLE_OBJS))
            w.run(case, dummy)
            used[0] = w.store.n
        for _ in range(3):
            once()
        objs = objs[:used[0]]
        refs = list(map(sys.getrefcount, objs))
        base = sys.getallocatedblocks()
        once()
        refs2 = list(map(sys.getrefcount, objs))
        if refs2 != refs:
            i = next(i for i in range(len(refs)) if refs[i] != refs2[i])
            fail('the reference count of element %d went from %d to %d after everything was dropped', i, refs[i], refs2[i])
        del refs2
        # temporary objects of the harness itself: compare like with like
        grow = []
        for _ in range(5):
            once()
            grow.append(sys.getallocatedblocks())
        if grow[-1] - grow[0] > 0:
            # collections also empty the interpreter's own free lists of tuples and lists; what remains of its caches
            # fluctuates, so a leak is only reported if it keeps growing by at least one block per repetition
            more = 0
            for reps in (40, 100, 400):
                gc.collect()
                first = sys.getallocatedblocks()
                for _ in range(reps):
                    once()
                gc.collect()
                more = sys.getallocatedblocks() - first
                if more < reps:
                    break
            else:
                fail('%d repetitions of the program leave %d blocks of memory allocated', reps, more)
        stats.nontrivial = dummy.nontrivial
        for k, n in dummy.classes.items():
            stats.hit('loop ' + k)
    finally:
        gc.enable()
    del hold


# ------------------------------------------------------------------ deep nesting

def run_deep(case, stats):
    from pyrsistent import pvector
    stats.nontrivial = True
    kind = case['kind']
    v = pvector()
    for i in range(case['depth']):
        if kind == 0:
            v = pvector([v])
        elif kind == 1:
            v = pvector([1, v, 2]).append(i)
        elif kind == 2:
            v = [v, pvector([v])][1]
        elif kind == 3:
            v = pvector(range(33)).append(v) if i % 2 else pvector([v] + list(range(32)))
        elif kind == 4:
            v = pvector([v]).evolver() if i % 2 else pvector([v])
        else:
            v = (pvector([v]),) if i % 2 else iter(pvector([v]))
    stats.hit('deep kind %d' % kind)
    w = None
    del v
    gc.collect()


# ------------------------------------------------------------------ finalizers that use the collections

class Fin:
    """Its finalizer performs actions on the current world."""
    live = 0
    world = None
    depth = 0
    __slots__ = ('acts', 'ref', '__weakref__')

    def __init__(self, acts):
        self.acts = acts
        self.ref = None
        Fin.live += 1

    def __del__(self):
        Fin.live -= 1
        w = Fin.world
        if w is None or Fin.depth > 3 or not self.acts:
            return
        Fin.depth += 1
        try:
            for a in self.acts:
                w.act(a)
        except Exception as e:
            w.errors.append('%s in a finalizer: %s' % (type(e).__name__, e))
        finally:
            Fin.depth -= 1


class RWorld:
    def __init__(self):
        self.vs = []
        self.snaps = []
        self.evs = []
        self.its = []
        self.weak = []
        self.errors = []
        self.acted = 0

    def put(self, v):
        if len(self.vs) < 7:
            self.vs.append(v)
            self.snaps.append([id(x) for x in v])

    def act(self, a):
        kind, t, i = a
        kind = ACTIONS[kind]
        self.acted += 1
        if kind == 'gc':
            gc.collect()
            return
        if kind == 'none':
            return
        if kind == 'read':
            self.read_all()
            return
        if kind == 'drop':
            if len(self.vs) > 1:
                self.snaps.pop()
                self.vs.pop()
            return
        if kind == 'new':
            from pyrsistent import pvector
            self.put(pvector([Fin([]) for _ in range(i)]))
            return
        if kind == 'iter':
            if self.vs:
                for x in self.vs[t % len(self.vs)]:
                    self.sane(x)
            return
        if not self.evs:
            return
        e = self.evs[t % len(self.evs)]
        n = len(e)
        if kind == 'append':
            e.append(Fin([]))
        elif kind == 'set':
            e[inr(i, n + 1)] = Fin([])
        elif kind == 'del':
            if n:
                del e[inr(i, n)]
        elif kind == 'persist':
            self.put(e.persistent())

    def sane(self, x):
        if type(x) is not Fin and type(x) is not str:
            self.errors.append('a foreign object %s is found in a collection' % type(x).__name__)

    def read_all(self):
        for v, s in list(zip(self.vs, self.snaps)):
            l = v.tolist()
            for x in l:
                self.sane(x)
            if [id(x) for x in l] != s:
                self.errors.append('contents of a vector changed')
        for e in list(self.evs):
            n = len(e)
            for i in (range(n) if n < 70 else (0, 1, 31, 32, n // 2, n - 33, n - 1)):
                if i < len(e):
                    self.sane(e[i])

    def step(self, op):
        from pyrsistent import pvector
        name = op[0]
        if name == 'gc':
            gc.collect()
        elif name == 'new':
            self.put(pvector([Fin([(op[2], 0, 0)] if i % 7 == 0 else []) for i in range(op[1])]))
        elif name == 'dropev':
            if self.evs:
                e = self.evs.pop(op[1] % len(self.evs))
                del e
        elif name == 'dropv':
            if len(self.vs) > 1:
                i = op[1] % len(self.vs)
                del self.snaps[i]
                v = self.vs.pop(i)
                del v
        elif name == 'evolver':
            if len(self.evs) < 4 and self.vs:
                self.evs.append(self.vs[op[1] % len(self.vs)].evolver())
        elif name in ('vset', 'vappend', 'weak', 'iter', 'cycle', 'vgen', 'search'):
            if not self.vs:
                return
            v = self.vs[op[1] % len(self.vs)]
            if name == 'vset' and len(v):
                self.put(v.set(inr(op[2], len(v)), Fin(op[3])))
            elif name == 'vappend':
                self.put(v.append(Fin(op[2])))
            elif name == 'vgen':
                self.put(v.extend(self.gen(op[2], op[3])))
            elif name == 'search':
                self.search(v, op[2], op[3])
            elif name == 'weak':
                acts = op[2]

                def callback(r, self=self, acts=acts):
                    for a in acts:
                        self.act(a)
                self.weak.append(weakref.ref(v, callback))
            elif name == 'iter':
                if len(self.its) < 3:
                    it = iter(v)
                    next(it, None)
                    self.its.append(it)
            elif name == 'cycle':
                f = Fin([(0, 0, 0)])
                w = pvector([f, f] + [Fin([]) for _ in range(33)])
                f.ref = w
                del w, f
        else:
            if not self.evs:
                if not self.vs:
                    self.put(pvector())
                self.evs.append(self.vs[op[1] % len(self.vs)].evolver())
            e = self.evs[op[1] % len(self.evs)]
            n = len(e)
            if name == 'eset':
                e[inr(op[2], n + 1)] = Fin(op[3])
            elif name == 'eappend':
                e.append(Fin(op[2]))
            elif name == 'eextend':
                e.extend([Fin(op[3]) for _ in range(op[2])])
            elif name == 'egen':
                e.extend(self.gen(op[2], op[3]))
            elif name == 'edel':
                if n:
                    del e[inr(op[2], n)]
            elif name == 'persist':
                self.put(e.persistent())

    def gen(self, n, acts):
        for i in range(n):
            if i % 30 == 1:
                for a in acts:
                    self.act(a)
            yield Fin([])
        for a in acts:
            self.act(a)

    def search(self, v, kind, acts):
        """Comparisons that use the collections while the vector is searched."""
        w = self

        class Probe:
            left = 4

            def __eq__(self, other):
                if Probe.left > 0:
                    Probe.left -= 1
                    for a in acts:
                        w.act(a)
                return False
            __hash__ = None

        try:
            if kind == 0:
                v.index(Probe())
            elif kind == 1:
                v.count(Probe())
            elif kind == 2:
                v.remove(Probe())
            elif kind == 3:
                Probe() in v
            else:
                v == v.append(Probe())
        except ValueError:
            pass


def run_reentrant(case, stats):
    from pyrsistent import pvector
    gc.collect()
    Fin.live = 0
    Fin.depth = 0
    w = RWorld()
    Fin.world = w
    try:
        size, acts = case['init']
        w.put(pvector([Fin(acts if i % 3 == 0 else []) for i in range(size)]))
        for op in case['ops']:
            stats.hit('re ' + op[0])
            w.step(op)
            w.read_all()
            check(not w.errors, '%s: %s', op[0], w.errors and w.errors[0])
        n = w.acted
        while w.vs or w.evs or w.its:
            if w.its:
                w.its.pop()
            elif w.evs:
                w.evs.pop()
            else:
                w.snaps.pop()
                w.vs.pop()
            w.read_all()
        w.weak.clear()
        check(not w.errors, 'at the end: %s', w.errors and w.errors[0])
        gc.collect()
        if any(op[0] == 'cycle' for op in case['ops']):
            pass
        if Fin.live > 0:
            for _ in range(4):
                w.vs.clear(), w.snaps.clear(), w.evs.clear(), w.its.clear()
                gc.collect()
        check(Fin.live == 0, 'with everything dropped %d elements are still alive', Fin.live)
        check(not w.errors, 'at the very end: %s', w.errors and w.errors[0])
        stats.hit('finalizer actions', n)
        stats.nontrivial = n > 0
    finally:
        Fin.world = None
