"""C02: a persistent vector behaves as a list."""
import operator
from hypothesis import strategies as st
import core
from core import fail, check, short, attempt, expect_exc
from gen import *
from veclib import *

LIMIT = 36000

TABLE = {
    'new': (2, [size_any, st.integers(0, 2), st.integers(0, 50), st.integers(0, 9)]),
    'append': (4, [pool_tok, byte]),
    'appendn': (2, [pool_tok, st.sampled_from([2, 5, 31, 32, 33, 40, 64, 65, 100])]),
    'extend': (4, [pool_tok, st.sampled_from(SMALL * 2 + MID + [32767, 32768, 32801]), st.integers(0, 2), st.integers(0, 9)]),
    'extend_pool': (1, [pool_tok, pool_tok]),
    'add': (2, [pool_tok, size_small, st.integers(0, 2)]),
    'mul': (2, [pool_tok, st.sampled_from([-3, -1, 0, 1, 2, 3, 4, 7, 33]), st.booleans()]),
    'set': (6, [pool_tok, idx_tok, byte]),
    'mset': (3, [pool_tok, st.lists(st.tuples(idx_tok, byte), max_size=5)]),
    'delete': (4, [pool_tok, idx_tok]),
    'delete_range': (4, [pool_tok, idx_tok, idx_tok]),
    'remove': (2, [pool_tok, idx_tok, st.booleans()]),
    'get': (3, [pool_tok, idx_tok]),
    'slice': (6, [pool_tok, slice_tok]),
    'index': (3, [pool_tok, idx_tok, st.booleans(), bound_tok, bound_tok]),
    'indexnear': (3, [pool_tok, idx_tok, near_tok, near_tok]),
    'count': (2, [pool_tok, idx_tok, st.booleans()]),
    'contains': (1, [pool_tok, idx_tok, st.booleans()]),
    'iter2': (1, [pool_tok, st.lists(st.booleans(), max_size=12)]),
    'reversed': (1, [pool_tok]),
    'cmp': (3, [pool_tok, pool_tok, st.integers(0, 3)]),
}


def strategies(spec):
    small = {k: v for k, v in TABLE.items()}
    small['new'] = (2, [size_mid, st.integers(0, 2), st.integers(0, 50), st.integers(0, 9)])
    small['extend'] = (4, [pool_tok, size_mid, st.integers(0, 2), st.integers(0, 9)])
    return [
        ('mid', case(1, 25, small, init=st.tuples(size_mid, st.integers(0, 2), st.integers(0, 9))), 6),
        ('any', case(1, 12, TABLE, init=st.tuples(size_any, st.integers(0, 2), st.integers(0, 9))), 2),
    ]


def enumerated(spec):
    """Sizes where a fourth tree level appears, one per shard (too slow to generate often)."""
    base = 32 ** 4 + 32
    size = [base - 1, base, base + 1, base - 33][spec['shard'] // 2 % 4]
    # positions: middle, thirds (fractions of 64), start of the last leaf and of the tail, multiples of 32768
    frac = [NIDX + f for f in (1, 7, 20, 31, 33, 40, 47, 50, 63)]
    sets = [['set', 0, t, 5] for t in [0, 3, 5, 11, 12, 14, 19, 30, 31, 32] + frac[spec['shard'] % 2::2]]
    yield {'init': [size, 0, 4], 'big': True,
           'ops': [['append', 0, 3], ['append', 1, 4], ['appendn', 2, 33], ['set', 1, 3, 6]] + sets +
                  [['get', 2, 4], ['extend', 0, 65, 0, 0], ['slice', 0, [18, None, 0]], ['mset', 1, [[5, 1], [11, 2]]],
                   ['mset', 0, [[t, 3] for t in frac]], ['get', 13, frac[2]], ['delete', 0, frac[4]]]}
    # three levels below the root: the last sizes before the next one
    yield {'init': [32 ** 4 * 3 // 4 + 31 * spec['shard'], 0, 0], 'big': True,
           'ops': [['set', 0, t, 7] for t in frac] + [['append', 0, 1], ['appendn', 0, 64], ['mset', 0, [[t, 3] for t in frac]]]}


def run_case(case, stats):
    from pyrsistent import pvector, v as v_fn
    big = case.get('big', False)
    size, pat, kind = case['init']
    if big:
        m = list(range(size))
    else:
        m = content(size, pat, 0)
    v = pvector(iterable_of(kind, m, pvector))
    pool = [(v, m)]
    check_vec(v, m, 'construction', deep=not big)
    interesting = 0

    def put(v, m, what):
        check_vec(v, m, what, deep=not big or len(m) < 70000)
        if len(pool) < 12:
            pool.append((v, m))
        else:
            pool[len(m) % 11 + 1] = (v, m)

    for op in case['ops']:
        name = op[0]
        if name == 'new':
            _, size, pat, off, kind = op
            m = content(size, pat, off)
            if kind == 6 and size <= 100:
                put(v_fn(*m), m, 'v()')
            else:
                v = pvector(iterable_of(kind, m, pvector))
                put(v, m, 'pvector()')
                if kind == 7:
                    check(v.append(v_fn).tolist() == m + [v_fn] and v.set(0, v_fn)[0] is v_fn, 'a vector made of a checked one refuses other elements')
            continue
        v, m = pool[op[1] % len(pool)]
        n = len(m)
        stats.hit(name)
        if n > 32 and name not in ('get', 'cmp', 'count', 'contains', 'iter2'):
            interesting += 1
        if n > 32 and n % 32 in (0, 1):
            stats.hit('at leaf boundary')
        if n in (1055, 1056, 1057, 32799, 32800, 32801):
            stats.hit('at level boundary')
        what = '%s on vector of %d' % (name, n)
        if name == 'append':
            x = elem(op[2])
            put(v.append(x), m + [x], what)
        elif name == 'appendn':
            mm = list(m)
            vv = v
            for i in range(op[2]):
                x = ELEMS[i]
                vv = vv.append(x)
                mm.append(x)
                if len(vv) != len(mm) or vv[-1] is not x or (n and vv[n - 1] is not m[n - 1]):
                    fail('%s: wrong after %d appends', what, i + 1)
            put(vv, mm, what)
        elif name == 'extend':
            if n + op[2] > LIMIT and not big:
                continue
            items = content(op[2], op[3], 100)
            put(v.extend(iterable_of(op[4], items, pvector)), m + items, what)
        elif name == 'extend_pool':
            v2, m2 = pool[op[2] % len(pool)]
            if n + len(m2) > LIMIT:
                continue
            put(v.extend(v2), m + m2, what)
        elif name == 'add':
            items = content(op[2], 0, 200)
            other = [list, tuple, pvector][op[3]](items)
            put(v + other, m + items, what)
        elif name == 'mul':
            k = op[2]
            if n * k > LIMIT:
                continue
            put(k * v if op[3] else v * k, m * k, what)
        elif name == 'set':
            i = idx(op[2], n)
            x = elem(op[3])
            if -n <= i < n:
                mm = list(m)
                mm[i] = x
                put(v.set(i, x), mm, what + ' at %d' % i)
            elif i == n:
                put(v.set(i, x), m + [x], what + ' at the end')
            else:
                stats.hit('index error')
                expect_exc(IndexError, v.set, i, x)
        elif name == 'mset':
            mm = list(m)
            args = []
            err = False
            for t, x in op[2]:
                i = idx(t, n)
                x = elem(x)
                args += [i, x]
                if err:
                    continue
                if -len(mm) <= i < len(mm):
                    mm[i] = x
                elif i == len(mm):
                    mm.append(x)
                else:
                    err = True
            if err:
                stats.hit('index error')
                expect_exc(IndexError, v.mset, *args)
            else:
                put(v.mset(*args), mm, what + ' %s' % short(args))
        elif name == 'delete':
            i = idx(op[2], n)
            if -n <= i < n:
                mm = list(m)
                del mm[i]
                put(v.delete(i), mm, what + ' %d' % i)
            else:
                stats.hit('index error')
                expect_exc(IndexError, v.delete, i)
        elif name == 'delete_range':
            i, j = idx(op[2], n), idx(op[3], n)
            mm = list(m)
            del mm[i:j]
            put(v.delete(i, j), mm, what + ' %d:%d' % (i, j))
        elif name == 'remove':
            x = m[inr(op[2], n)] if n and op[3] else elem(op[2] + 30)
            mm = list(m)
            try:
                mm.remove(x)
            except ValueError:
                stats.hit('missing value')
                expect_exc(ValueError, v.remove, x)
            else:
                put(v.remove(x), mm, what)
        elif name == 'get':
            i = idx(op[2], n)
            if -n <= i < n:
                check(v[i] is m[i], '%s [%d]: %s, expected %s', what, i, short(v[i]), short(m[i]))
            else:
                stats.hit('index error')
                expect_exc(IndexError, operator.getitem, v, i)
        elif name == 'slice':
            s = mkslice(op[2], n)
            put(v[s], m[s], what + ' %s' % s)
        elif name == 'indexnear':
            if not n:
                continue
            p = inr(op[2], n)
            a, b = near(op[3], p, n), near(op[4], p, n)
            args = [] if a is None else [a] + ([] if b is None else [b])
            try:
                e = m.index(m[p], *args)
            except ValueError:
                stats.hit('missing value')
                expect_exc(ValueError, v.index, m[p], *args)
            else:
                r = v.index(m[p], *args)
                check(r == e, '%s(%s): %s, expected %s', what, short([m[p]] + args), r, e)
        elif name in ('index', 'count', 'contains'):
            x = m[inr(op[2], n)] if n and op[3] else elem(op[2] + 30)
            if name == 'count':
                check(v.count(x) == m.count(x), '%s of %s: %s', what, short(x), v.count(x))
            elif name == 'contains':
                r = x in v
                check(r is (x in m), '%s: %s in v is %s', what, short(x), r)
            else:
                args = [] if op[4] is None else [idx(op[4], n)] + ([] if op[5] is None else [idx(op[5], n)])
                try:
                    e = m.index(x, *args)
                except ValueError:
                    stats.hit('missing value')
                    expect_exc(ValueError, v.index, x, *args)
                else:
                    r = v.index(x, *args)
                    check(r == e, '%s(%s): %s, expected %s', what, short([x] + args), r, e)
        elif name == 'iter2':
            # two independent iterators
            a, b, ma, mb = iter(v), iter(v), iter(m), iter(m)
            for side in op[2]:
                it, mi = (a, ma) if side else (b, mb)
                r, e = next(it, core), next(mi, core)
                check(r is e, '%s: iterator gave %s, expected %s', what, short(r), short(e))
            check(same(list(a), list(ma)) and same(list(b), list(mb)), '%s: rest of the iteration differs', what)
        elif name == 'reversed':
            check(same(list(reversed(v)), list(reversed(m))), '%s differs', what)
        elif name == 'cmp':
            v2, m2 = pool[op[2] % len(pool)]
            o2 = m2 if op[3] == 1 else v2
            if op[3] == 2:           # a separately built equal vector
                v2, m2 = pvector(list(m)), m
                o2 = v2
            for o in (operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge):
                k, e = attempt(o, m, m2)
                kr, r = attempt(o, v, o2)
                if k == 'exc':
                    check(kr == 'exc' and type(r) is type(e), '%s %s: %s, expected %s', what, o.__name__, short(r), short(e))
                else:
                    check(kr == 'ok' and bool(r) is bool(e), '%s %s: %s, expected %s', what, o.__name__, short(r), e)
    for v, m in pool:
        check_vec(v, m, 'at the end', deep=False)
    stats.nontrivial = interesting >= 1
