"""C06: map and set evolvers behave as private mutable dicts and sets."""
import operator
from hypothesis import strategies as st
import core
from core import fail, check, short, attempt, expect_exc, key, val, NKEYS, KEYS
from gen import *
from maplib import *

ev_tok = st.integers(0, 5)
BULK = [3, 6, 8, 11, 12, 13, 23, 44, 87, 172, 350]
TABLE = {
    'new': (1, [st.integers(0, 3), st.sampled_from([0, 1, 5, 6, 11, 12, 20, 60, 200]), st.sampled_from([0, 1, 3, 16])]),
    'evolver': (4, [pool_tok]),
    'set': (8, [ev_tok, key_tok, val_tok, st.booleans()]),
    'reset': (3, [ev_tok, byte, val_tok]),
    'same': (1, [ev_tok, byte]),
    'setmany': (3, [ev_tok, st.integers(0, 400), st.sampled_from(BULK)]),
    'fill': (2, [ev_tok, st.integers(0, 400), st.sampled_from([8, 16, 32, 50, 64, 100, 128, 129, 200, 256, 257, 512, 1000, 1024])]),
    'remove': (6, [ev_tok, byte, st.booleans()]),
    'remove_any': (2, [ev_tok, key_tok]),
    'removemany': (2, [ev_tok, byte, st.sampled_from([2, 5, 50])]),
    'readd': (2, [ev_tok, byte]),
    'get': (2, [ev_tok, key_tok]),
    'persistent': (7, [ev_tok]),
    'persist_twice': (2, [ev_tok]),
    'origin_op': (2, [pool_tok, key_tok, val_tok]),
    'drop_ev': (1, [ev_tok]),
    'drop_col': (1, [pool_tok]),
    'unhashable': (1, [ev_tok]),
}


def strategies(spec):
    return [('evolvers', case(1, 30, TABLE, init=st.lists(st.tuples(st.integers(0, 3), st.sampled_from([0, 1, 3, 5, 6, 12, 40])),
                                                          min_size=1, max_size=3)), 1)]


_classes = {}


def classes():
    if not _classes:
        from pyrsistent import CheckedPMap, CheckedPSet

        class FreeMap(CheckedPMap):
            pass

        class FreeSet(CheckedPSet):
            pass
        _classes.update(map=FreeMap, set=FreeSet)
    return _classes


class Ev:
    def __init__(self, col, e, m):
        self.e, self.m, self.base = e, dict(m), dict(m)
        self.kind = col
        self.touched = False

    @property
    def is_map(self):
        return self.kind in (0, 2)


def build(kind, d, pre=0):
    from pyrsistent import pmap, pset
    if kind == 0:
        return pmap(d, pre_size=pre)
    if kind == 1:
        return pset(list(d), pre_size=pre or 8)
    if kind == 2:
        return classes()['map'](d)
    return classes()['set'](list(d))


def check_col(kind, c, d, what, probes=False):
    if kind in (0, 2):
        check_map(c, d, what, probes)
    else:
        check_set(c, set(d), what, probes)
    if kind == 2:
        check(type(c) is classes()['map'], '%s: type is %s', what, type(c).__name__)
    elif kind == 3:
        check(type(c) is classes()['set'], '%s: type is %s', what, type(c).__name__)


def same_dict(a, b):
    return len(a) == len(b) and all(k in b and b[k] is v for k, v in a.items())


def read_back(ev, what):
    e, m = ev.e, ev.m
    check(len(e) == len(m), '%s: len(evolver) is %s, expected %d', what, len(e), len(m))
    if ev.is_map:
        ks = list(m) if len(m) < 60 else list(m)[:20] + list(m)[-20:]
        for k in ks:
            check(k in e, '%s: evolver lacks %s', what, short(k))
            try:
                v = e[k]
            except KeyError:
                fail('%s: evolver lookup of %s fails', what, short(k))
            check(v is m[k], '%s: evolver[%s] is %s, expected %s', what, short(k), short(v), short(m[k]))
        for p in (0, 3, 5, 14, 35, 37, 46, 53):
            k = KEYS[p]
            check((k in e) is (k in m), '%s: membership of %s in the evolver', what, short(k))
    d = e.is_dirty()
    if not ev.touched:
        check(not d, '%s: untouched evolver is dirty', what)
    elif not same_dict(ev.m, ev.base):
        check(d, '%s: changed evolver is not dirty', what)


def run_case(case, stats):
    pool = []
    for kind, n in case['init']:
        d = {k: val(i) for i, k in enumerate(bulk_keys(0, n))} if kind in (0, 2) else dict.fromkeys(bulk_keys(0, n), True)
        pool.append((kind, build(kind, d), d))
    evs = []
    persists = changed_after = 0

    def put(kind, c, d, what):
        check_col(kind, c, d, what, probes=True)
        if len(pool) < 10:
            pool.append((kind, c, d))
        else:
            pool[len(d) % 9 + 1] = (kind, c, d)

    for op in case['ops']:
        name = op[0]
        if name == 'new':
            kind = op[1]
            d = {k: (val(i) if kind in (0, 2) else True) for i, k in enumerate(bulk_keys(0, op[2]))}
            put(kind, build(kind, d, op[3]), d, 'construction')
            continue
        if name == 'drop_col':
            if len(pool) > 1:
                del pool[op[1] % len(pool)]
            continue
        if name == 'origin_op':
            kind, c, d = pool[op[1] % len(pool)]
            k = key(op[2])
            dd = dict(d)
            if k in dd:
                del dd[k]
                put(kind, c.remove(k), dd, 'remove from a collection')
            elif kind in (0, 2):
                dd[k] = val(op[3])
                put(kind, c.set(k, dd[k]), dd, 'set on a collection')
            else:
                dd[k] = True
                put(kind, c.add(k), dd, 'add to a collection')
            continue
        if name == 'evolver' or not evs:
            kind, c, d = pool[op[1] % len(pool)]
            ev = Ev(kind, c.evolver(), d)
            if len(evs) < 5:
                evs.append(ev)
            else:
                evs[len(d) % 5] = ev
            read_back(ev, 'new evolver')
            if name == 'evolver':
                continue
        ev = evs[op[1] % len(evs)]
        e, m = ev.e, ev.m
        n = len(m)
        kindname = ['map', 'set', 'checked map', 'checked set'][ev.kind]
        what = '%s evolver %s, %d keys' % (kindname, name, n)
        stats.hit(name)
        stats.hit(kindname)

        def assign(k, v, flavour=False):
            ev.touched = True
            if ev.is_map:
                if flavour:
                    check(e.set(k, v) is e, '%s: set does not return the evolver', what)
                else:
                    e[k] = v
                m[k] = v
            else:
                check(e.add(k) is e, '%s: add does not return the evolver', what)
                m[k] = True

        def erase(k, flavour=False):
            if ev.is_map and flavour:
                del e[k]
            else:
                check(e.remove(k) is e, '%s: remove does not return the evolver', what)
            del m[k]
            ev.touched = True
        if name == 'drop_ev':
            evs.remove(ev)
            continue
        elif name == 'set':
            k, v = key(op[2]), val(op[3])
            assign(k, v, op[4])
            what += ' %s' % short(k)
        elif name == 'reset' and n:
            assign(list(m)[op[2] % n], val(op[3]))
        elif name == 'same' and n:
            k = list(m)[op[2] % n]
            assign(k, m[k])
        elif name == 'setmany':
            for i, k in enumerate(bulk_keys(op[2], op[3])):
                assign(k, val(i % 20))
        elif name == 'fill':
            # up to an exact size
            for i, k in enumerate(bulk_keys(op[2], op[3] + 100)):
                if len(m) >= op[3]:
                    break
                assign(k, val(i % 20))
        elif name == 'remove' and n:
            k = list(m)[op[2] % n]
            erase(k, op[3])
            what += ' %s' % short(k)
        elif name == 'remove_any':
            k = key(op[2])
            if k in m:
                erase(k)
            else:
                stats.hit('missing key')
                was = e.is_dirty()
                expect_exc(KeyError, e.remove, k)
                check(e.is_dirty() == was, '%s: failed remove changed is_dirty', what)
        elif name == 'removemany':
            ks = list(m)
            s = op[2] % max(n, 1)
            for k in (ks[s:] + ks[:s])[:op[3]]:
                erase(k)
        elif name == 'readd' and n:
            k = list(m)[op[2] % n]
            v = m[k]
            erase(k)
            assign(k, v)
        elif name == 'get' and ev.is_map:
            k = key(op[2])
            if k in m:
                check(e[k] is m[k], '%s of %s', what, short(k))
            else:
                expect_exc(KeyError, operator.getitem, e, k)
        elif name in ('persistent', 'persist_twice'):
            persists += 1
            if persists > 1 and ev.touched:
                changed_after += 1
            p = e.persistent()
            mm = dict(m)
            put(ev.kind, p, mm, what)
            ev.base = mm
            ev.touched = False
            if name == 'persist_twice':
                p2 = e.persistent()
                put(ev.kind, p2, mm, what + ' again')
                check(p2 == p, '%s: second persistent() differs', what)
        elif name == 'unhashable':
            if ev.is_map:
                expect_exc(TypeError, operator.setitem, e, [], 1)
            else:
                expect_exc(TypeError, e.add, [])
        read_back(ev, what)
    for kind, c, d in pool:
        check_col(kind, c, d, 'at the end')
    for ev in evs:
        read_back(ev, 'at the end')
        check_col(ev.kind, ev.e.persistent(), ev.m, 'persistent at the end')
    for kind, c, d in pool:
        check_col(kind, c, d, 'at the very end')
    stats.nontrivial = persists >= 1 and len(evs) > 0 and changed_after >= 1
