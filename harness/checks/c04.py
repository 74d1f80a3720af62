"""C04: a vector evolver behaves as a private mutable list."""
import operator
from hypothesis import strategies as st
import core
from core import fail, check, short, attempt, expect_exc
from gen import *
from veclib import *

LIMIT = 36000
ev_tok = st.integers(0, 5)


def table(sizes):
    return {
        'evolver': (3, [pool_tok]),
        'set': (8, [ev_tok, idx_tok, byte, st.booleans()]),
        'setnear': (4, [ev_tok, st.integers(0, 5), byte]),
        'append': (3, [ev_tok, byte]),
        'extend': (3, [ev_tok, st.sampled_from(SMALL + [100, 1024]), st.integers(0, 9)]),
        'del': (3, [ev_tok, idx_tok, st.booleans()]),
        'get': (2, [ev_tok, idx_tok]),
        'persistent': (6, [ev_tok]),
        'persist_twice': (1, [ev_tok]),
        'dirty': (1, [ev_tok]),
        'drop_vec': (1, [pool_tok]),
        'drop_ev': (1, [ev_tok]),
        'vset': (2, [pool_tok, idx_tok, byte]),
        'vappend': (2, [pool_tok, byte]),
        'vmset': (1, [pool_tok, st.lists(st.tuples(idx_tok, byte), max_size=4)]),
        'vslice': (1, [pool_tok, slice_tok]),
        'vextend': (1, [pool_tok, size_small]),
        'new': (1, [sizes, st.integers(0, 2)]),
    }


def strategies(spec):
    return [
        ('mid', case(1, 30, table(size_mid), init=st.lists(st.tuples(size_mid, st.integers(0, 2)), min_size=1, max_size=2)), 6),
        ('any', case(1, 16, table(size_any), init=st.lists(st.tuples(size_any, st.integers(0, 2)), min_size=1, max_size=1)), 1),
    ]


def enumerated(spec):
    """Sizes with a fourth and fifth level, too slow to generate often."""
    frac = [NIDX + f for f in (1, 7, 20, 31, 33, 40, 47, 50, 63)]
    for size in ([32 ** 4 + 32 + spec['shard'] % 3 - 1], [32 ** 4 * 3 // 4 + 31 * spec['shard']])[spec['shard'] // 2 % 2]:
        sets = [['set', 0, t, 5, True] for t in [0, 3, 5, 11, 12, 14, 19, 31, 32] + frac]
        yield {'init': [], 'big': size, 'ops':
               [['evolver', 0]] + sets + [['persistent', 0], ['append', 0, 3]] + sets[::2] + [['persistent', 0], ['extend', 0, 64, 0]] + sets[1::3] +
               [['persistent', 0]] + [['get', 0, t] for t in frac] + [['vset', 1, t, 9] for t in frac[::3]]}


class Ev:
    def __init__(self, e, m):
        self.e = e
        self.m = list(m)         # current contents
        self.base = list(m)      # contents of the origin / last product
        self.touched = False
        self.last = 0


def read_back(ev, what, full=True):
    e, m = ev.e, ev.m
    n = len(m)
    check(len(e) == n, '%s: len(evolver) is %s, expected %d', what, len(e), n)
    if n <= 80:
        rng = range(n)
    else:
        t = ((n - 1) // 32) * 32
        rng = {i for i in (0, 1, 31, 32, 33, n // 2, t - 1, t, n - 1, n - 2, n - 32, n - 33, 1023, 1024, ev.last,
                           ev.last - 1, ev.last + 1, ev.last - 32, ev.last + 32) if 0 <= i < n}
    for i in rng:
        if e[i] is not m[i]:
            fail('%s: evolver[%d] is %s, expected %s', what, i, short(e[i]), short(m[i]))
        if e[i - n] is not m[i]:
            fail('%s: evolver[%d] is %s, expected %s', what, i - n, short(e[i - n]), short(m[i]))
    check_dirty(ev, what)


def check_dirty(ev, what):
    d = ev.e.is_dirty()
    if not ev.touched:
        check(not d, '%s: untouched evolver is dirty', what)
    elif not same(ev.m, ev.base):
        check(d, '%s: changed evolver is not dirty', what)


def run_case(case, stats):
    from pyrsistent import pvector
    pool = []
    for size, pat in case['init']:
        m = content(size, pat, 0)
        pool.append((pvector(m), m))
    if case.get('big'):
        m = list(range(case['big']))
        pool.append((pvector(m), m))
    evs = []
    persists = reused = 0

    def put(v, m, what):
        check_vec(v, m, what)
        if len(pool) < 12:
            pool.append((v, m))
        else:
            pool[len(m) % 11 + 1] = (v, m)

    for op in case['ops']:
        name = op[0]
        if name == 'new':
            m = content(op[1], op[2], 300)
            pool.append((pvector(m), m))
            continue
        if name == 'drop_vec':
            if len(pool) > 1:
                del pool[op[1] % len(pool)]
            continue
        if name == 'evolver' or (not name.startswith('v') and not evs):
            v, m = pool[op[1] % len(pool)]
            ev = Ev(v.evolver(), m)
            if len(evs) < 5:
                evs.append(ev)
            else:
                evs[len(m) % 5] = ev
            read_back(ev, 'new evolver')
            if name == 'evolver':
                continue
        stats.hit(name)
        if name.startswith('v'):
            v, m = pool[op[1] % len(pool)]
            n = len(m)
            if name == 'vset' and n:
                i = inr(op[2], n)
                mm = list(m)
                mm[i] = elem(op[3])
                put(v.set(i, mm[i]), mm, 'vector set')
            elif name == 'vappend':
                x = elem(op[2])
                put(v.append(x), m + [x], 'vector append')
            elif name == 'vextend':
                items = content(op[2], 0, 500)
                put(v.extend(items), m + items, 'vector extend')
            elif name == 'vslice':
                s = mkslice(op[2], n)
                put(v[s], m[s], 'vector slice')
            elif name == 'vmset' and n:
                mm = list(m)
                args = []
                for t, x in op[2]:
                    i = inr(t, n)
                    mm[i] = elem(x)
                    args += [i, mm[i]]
                put(v.mset(*args), mm, 'vector mset')
            continue
        ev = evs[op[1] % len(evs)]
        e, m = ev.e, ev.m
        n = len(m)
        what = 'evolver %s, %d elements' % (name, n)
        if n > 32:
            stats.hit('evolver with a tree')
        if name == 'drop_ev':
            evs.remove(ev)
            continue
        if name == 'set' or name == 'setnear':
            i = idx(op[2], n) if name == 'set' else ev.last + op[2]
            x = elem(op[3])
            flavour = op[4] if name == 'set' else False
            if -n <= i <= n:
                if flavour:
                    check(e.set(i, x) is e, '%s: set does not return the evolver', what)
                else:
                    e[i] = x
                if i == n:
                    m.append(x)
                else:
                    m[i] = x
                ev.touched = True
                ev.last = i % max(n, 1)
                what += ' at %d' % i
            else:
                stats.hit('index error')
                expect_exc(IndexError, operator.setitem, e, i, x)
        elif name == 'append':
            x = elem(op[2])
            check(e.append(x) is e, '%s: append does not return the evolver', what)
            m.append(x)
            ev.touched = True
        elif name == 'extend':
            if n + op[2] > LIMIT:
                continue
            items = content(op[2], 0, 700)
            e.extend(iterable_of(op[3], items, pvector))
            m.extend(items)
            if items:
                ev.touched = True
        elif name == 'del':
            i = idx(op[2], n)
            if -n <= i < n:
                if op[3]:
                    check(e.delete(i) is e, '%s: delete does not return the evolver', what)
                else:
                    del e[i]
                del m[i]
                ev.touched = True
                what += ' at %d' % i
            else:
                stats.hit('index error')
                expect_exc(IndexError, operator.delitem, e, i)
                if i != -1:
                    ev.touched = ev.touched or None     # not specified whether a failed delete counts
        elif name == 'get':
            i = idx(op[2], n)
            if -n <= i < n:
                check(e[i] is m[i], '%s [%d] is %s, expected %s', what, i, short(e[i]), short(m[i]))
            else:
                stats.hit('index error')
                expect_exc(IndexError, operator.getitem, e, i)
        elif name in ('persistent', 'persist_twice'):
            persists += 1
            if persists > 1:
                reused += 1
            p = e.persistent()
            mm = list(m)
            put(p, mm, what)
            ev.base = mm
            ev.touched = False
            if name == 'persist_twice':
                put(e.persistent(), mm, what + ' again')
        elif name == 'dirty':
            pass
        if ev.touched is None:
            # contents unchanged by a failed operation: dirtiness is unspecified from here on
            check(len(e) == len(m), '%s: len after a failed operation', what)
            ev.touched = True
        read_back(ev, what)
    for i, (v, m) in enumerate(pool):
        check_vec(v, m, 'vector %d at the end' % i, deep=False)
    for ev in evs:
        read_back(ev, 'at the end')
        check_vec(ev.e.persistent(), ev.m, 'persistent at the end', deep=False)
    for i, (v, m) in enumerate(pool):
        check_vec(v, m, 'vector %d at the very end' % i, deep=False)
    stats.nontrivial = persists >= 1 and len(case['ops']) >= 3 and any(len(m) > 32 for _, m in pool)
