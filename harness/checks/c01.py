"""C01: a persistent value never changes once obtained."""
from hypothesis import strategies as st
import core
from core import fail, check, short
from gen import *
from anyops import *

tok = st.integers(0, 5039)
sizes = st.sampled_from([0, 1, 2, 3, 5, 7, 9, 20, 31, 32, 33, 34, 63, 64, 65, 66, 97, 100])
how = st.integers(0, HOWS - 1)
TABLE = {
    'make': (3, [st.integers(0, len(KINDS) - 1), st.integers(0, 60), sizes, how]),
    'op': (16, [pool_tok, tok, byte, byte]),
    'evolver': (3, [pool_tok]),
    'ev': (8, [st.integers(0, 4), st.integers(0, 6), byte, byte]),
    'evpersist': (4, [st.integers(0, 4)]),
    'iter': (1, [pool_tok, st.integers(0, 40)]),
    'mutate_source': (3, [st.integers(0, 7), byte]),
    'drop': (1, [pool_tok]),
}
FOCUS = {
    'op': (6, [st.integers(0, 2), tok, byte, byte]),
    'evolver': (1, [st.integers(0, 2)]),
    'ev': (2, [st.integers(0, 1), st.integers(0, 6), byte, byte]),
    'evpersist': (1, [st.integers(0, 1)]),
    'mutate_source': (1, [st.just(0), byte]),
}
BIG = dict(TABLE)
BIG['make'] = (2, [st.sampled_from([0, 0, 1, 2, 6]), st.integers(0, 60), st.sampled_from([1055, 1056, 1057, 1088, 1089, 2080]), how])


def strategies(spec):
    one = [st.tuples(st.just(k), st.integers(0, 60), sizes, how) for k in range(len(KINDS))]
    near = [st.tuples(st.just(k), st.integers(0, 60), st.integers(0, 100), how) for k in range(len(KINDS))]
    return [('mixed', case(2, 26, TABLE, init=st.lists(st.one_of(*one), min_size=1, max_size=4)), 8),
            # one value and what a few operations on it do to it
            ('focus', case(1, 4, FOCUS, init=st.tuples(st.one_of(*(one + near)))), 8),
            ('big', case(2, 12, BIG, init=st.lists(st.tuples(st.sampled_from([0, 1, 2, 6]), st.integers(0, 60),
                                                          st.sampled_from([1056, 1057, 1088]), how), min_size=1, max_size=1)), 1)]


class Held:
    def __init__(self, x):
        self.x = x
        self.s = snap(x)
        self.h = hash_of(x)
        self.n = None

    def verify(self, what):
        s = snap(self.x)
        if s != self.s:
            fail('%s: a %s that existed before has changed: %s', what, kind_of(self.x), short(self.x))
        h = hash_of(self.x)
        if h != self.h:
            fail('%s: the hash of a %s that existed before has changed: %s', what, kind_of(self.x), short(self.x))


def run_case(case, stats):
    pool = []
    sources = []
    evs = []
    iters = []
    done = set()

    def hold(x):
        """Register every persistent value in a result."""
        if kind_of(x) is not None:
            if any(h.x is x for h in pool):
                return
            n = len(x) if hasattr(x, '__len__') else 0
            if n > 6000:
                return
            if len(pool) < 14:
                pool.append(Held(x))
            else:
                pool[1 + (n * 7 + len(done)) % 13] = Held(x)
        elif type(x) in (list, tuple):
            for e in x[:4]:
                hold(e)

    def mk(k, a, n, how):
        x, src = build(KINDS[k], a, n, how)
        if src is not None:
            sources.append(src)
            del sources[:-8]
        hold(x)

    for k, a, n, how in case['init']:
        mk(k, a, n, how)
    if not pool:
        mk(0, 1, 3, 0)
    turn = [0]

    def other(kind):
        turn[0] += 1
        c = [h.x for h in pool if kind_of(h.x) in (kind, 'c' + kind)]
        if not c:
            return make(kind, turn[0], 5)[0]
        x = c[turn[0] % len(c)]
        return x if not hasattr(x, '__len__') or len(x) < 3000 else make(kind, turn[0], 5)[0]

    for op in case['ops']:
        name = op[0]
        what = name
        if name == 'make':
            mk(*op[1:])
        elif name == 'op':
            h = pool[op[1] % len(pool)]
            oname, fn = op_for(h.x, op[2])
            what = '%s %s(%d, %d)' % (kind_of(h.x), oname, op[3], op[4])
            stats.hit('%s.%s' % (kind_of(h.x), oname))
            try:
                r = fn(h.x, op[3], op[4], other)
            except Exception as e:
                done.add((kind_of(h.x), oname, 'raised'))
                what += ' (raised %s)' % type(e).__name__
            else:
                done.add((kind_of(h.x), oname))
                hold(r)
                handed_out(r, op[4])
        elif name == 'evolver':
            h = pool[op[1] % len(pool)]
            if hasattr(h.x, 'evolver'):
                evs.append((kind_of(h.x), h.x.evolver()))
                del evs[:-5]
        elif name in ('ev', 'evpersist'):
            if not evs:
                continue
            k, e = evs[op[1] % len(evs)]
            what = '%s evolver step' % k
            try:
                if name == 'evpersist':
                    hold(e.persistent())
                else:
                    ev_step(k, e, op[2], op[3], op[4])
            except Exception as ex:
                what += ' (raised %s)' % type(ex).__name__
            done.add((k, name))
        elif name == 'iter':
            h = pool[op[1] % len(pool)]
            try:
                it = iter(h.x)
            except TypeError:
                continue
            expected = list(h.x)
            got = []
            for _ in range(op[2]):
                for e in it:
                    got.append(e)
                    break
            iters.append((it, got, expected))
            del iters[:-4]
        elif name == 'mutate_source':
            if sources:
                mutate(sources[op[1] % len(sources)], op[2])
                what = 'mutation of a source container'
        elif name == 'drop' and len(pool) > 1:
            del pool[op[1] % len(pool)]
        for h in pool:
            h.verify(what)
    for it, got, expected in iters:
        got.extend(it)
        if [id(e) for e in got] != [id(e) for e in expected]:
            fail('an iterator over an unchanged value gave other elements than the value holds')
    for h in pool:
        t = twin(h.x)
        if t is not None:
            check(h.x == t and t == h.x and not (h.x != t), 'at the end: a %s is not equal to one built from its contents: %s',
                  kind_of(h.x), short(h.x))
            if h.h is not None:
                check(hash(t) == h.h, 'at the end: hash differs from an equal value: %s', short(h.x))
    stats.nontrivial = len(done) >= 1 and len(pool) >= 2


def ev_step(k, e, which, a, b):
    if k in ('vec', 'cvec'):
        x = E(b) if k == 'vec' else b + 14
        [lambda: e.append(x), lambda: e.__setitem__(a % max(len(e), 1), x), lambda: e.extend([x] * (a % 40)),
         lambda: e.__delitem__(a % max(len(e), 1)), lambda: e.__setitem__(-1, x), lambda: e.__setitem__(len(e) + 5, x),
         lambda: e.set(a % max(len(e), 1), x)][which]()
    elif k in ('map', 'cmap'):
        kk = E(a) if k == 'map' else a + 14
        [lambda: e.set(kk, b), lambda: e.__setitem__(kk, b), lambda: e.remove(kk), lambda: e.__delitem__(kk),
         lambda: [e.set(kk2, b) for kk2 in range(100, 100 + b % 60)], lambda: e.set([], 1), lambda: e.set(kk, 'x')][which]()
    elif k in ('set', 'cset'):
        kk = E(a) if k == 'set' else a + 14
        [lambda: e.add(kk), lambda: e.add(kk), lambda: e.remove(kk), lambda: e.remove(kk),
         lambda: [e.add(kk2) for kk2 in range(100, 100 + b % 60)], lambda: e.add([]), lambda: e.add(13)][which]()
    elif k == 'rec':
        [lambda: e.set('a', a + 14), lambda: e.__setitem__('b', b), lambda: e.remove('b'), lambda: e.set('xs', [a, b]),
         lambda: e.set('a', 13), lambda: e.set('zz', 1), lambda: e.set('c', b)][which]()
    elif k == 'cls':
        [lambda: e.set('a', a + 14), lambda: e.__setitem__('b', b), lambda: e.remove('b'), lambda: e.set('xs', [a, b]),
         lambda: e.set('a', 13), lambda: e.set('zz', 1), lambda: setattr(e, 'c', b)][which]()


def mutate(src, a, depth=0):
    if depth > 4:
        return
    if type(src) is list:
        for e in list(src):
            mutate(e, a, depth + 1)
        [lambda: src.append('added'), lambda: src.reverse(), lambda: src.clear(), lambda: src.insert(0, 'ins')][a % 4]()
    elif type(src) is dict:
        for e in list(src.values()):
            mutate(e, a, depth + 1)
        [lambda: src.update(zz='added'), lambda: src.clear(), lambda: src.update(dict.fromkeys(src, 'over')),
         lambda: src.popitem() if src else None][a % 4]()
    elif type(src) is set:
        [lambda: src.add('added'), lambda: src.clear(), lambda: src.add(-5), lambda: src.pop() if src else None][a % 4]()
    elif type(src) is tuple:
        for e in src:
            mutate(e, a, depth + 1)


def handed_out(r, a):
    """Whatever plain container an operation returned is the caller's: changing it is nobody else's business."""
    if type(r) in (list, dict, set):
        old = list(r)
        for how in range(5):
            if how == 4 and type(r) is list:
                r[:] = ['over'] * max(len(old), 1)
            else:
                mutate(r, a + how)
