"""C09: a persistent list behaves as an immutable sequence with a shared tail."""
import operator
from hypothesis import strategies as st
import core
from core import fail, check, short, attempt, expect_exc
from gen import *
from veclib import content, elem, same, iterable_of, diff, ELEMS

sizes = st.sampled_from([0, 1, 2, 3, 4, 5, 7, 10, 20, 33])
long_sizes = st.sampled_from([5, 33, 63, 64, 65, 66, 100, 101, 128, 129, 255, 256, 257, 300, 513, 1001, 1025])
_B = [lambda n: 0, lambda n: 1, lambda n: -1, lambda n: n - 1, lambda n: n, lambda n: n + 1, lambda n: -n, lambda n: -n - 1,
      lambda n: n // 2, lambda n: -2, lambda n: 2, lambda n: n + 5, lambda n: -n - 5, lambda n: 3, lambda n: -3]
pos = st.integers(0, len(_B) + 11)
sl = st.tuples(st.one_of(st.none(), pos), st.one_of(st.none(), pos), st.sampled_from([None, 1, 2, -1, -2, 3, -3, 7, -7]))


def at(t, n):
    return _B[t](n) if t < len(_B) else t - len(_B)


def it_of(kind, items, pvector):
    """Also persistent lists and deques."""
    from pyrsistent import plist, pdeque
    if kind == 7:
        return plist(items)
    if kind == 8:
        return pdeque(items, len(items))
    if kind == 9:
        kind = 7
    return iterable_of(kind, items, pvector)


def slice_of(t, n):
    return slice(None if t[0] is None else at(t[0], n), None if t[1] is None else at(t[1], n), t[2])


TABLE = {
    'new': (3, [sizes, st.integers(0, 2), st.integers(0, 9), st.booleans()]),
    'cons': (5, [pool_tok, byte]),
    'mcons': (3, [pool_tok, sizes, st.integers(0, 9)]),
    'mcons_pool': (2, [pool_tok, pool_tok]),
    'rest': (3, [pool_tok]),
    'reverse': (3, [pool_tok]),
    'split': (4, [pool_tok, pos]),
    'remove': (5, [pool_tok, pos, st.booleans()]),
    'get': (4, [pool_tok, pos]),
    'slice': (8, [pool_tok, sl]),
    'index': (4, [pool_tok, pos, st.booleans(), st.one_of(st.none(), pos), st.one_of(st.none(), pos)]),
    'count': (2, [pool_tok, pos, st.booleans()]),
    'cmp': (4, [pool_tok, pool_tok, st.booleans()]),
    'hash': (1, [pool_tok]),
    'badtype': (1, [pool_tok]),
    'each': (2, [pool_tok]),
}


def strategies(spec):
    sizes_ = st.one_of(long_sizes, long_sizes, st.sampled_from([1600, 2500]))
    long = dict(TABLE, new=(2, [long_sizes] + TABLE['new'][1][1:]), mcons=(2, [pool_tok, long_sizes, st.integers(0, 9)]))
    return [('lists', case(1, 22, TABLE, init=st.tuples(sizes, st.integers(0, 2))), 9),
            ('long lists', case(1, 7, long, init=st.tuples(sizes_, st.integers(0, 2))), 1)]


def check_list(p, m, what):
    l = list(p)
    if not same(l, m):
        fail('%s: %s', what, diff(l, m))
    check(len(p) == len(m), '%s: len is %s, expected %d', what, len(p), len(m))
    check(bool(p) is bool(m), '%s: truth value', what)
    n = len(m)
    # walk by first/rest
    q = p
    for i in range(min(n, 4)):
        check(q.first is m[i], '%s: first after %d rests is %s', what, i, short(q.first))
        q = q.rest
    for i in {0, n // 2, n - 1}:
        if 0 <= i < n:
            check(p[i] is m[i] and p[i - n] is m[i], '%s: [%d]', what, i)
    if not n:
        check(not hasattr(p, 'first'), '%s: empty list has a first', what)
        check(list(p.rest) == [], '%s: rest of the empty list', what)


def run_case(case, stats):
    from pyrsistent import plist, l as l_fn, pvector
    m = content(case['init'][0], case['init'][1], 0)
    pool = [(plist(m), m)]
    big = case['init'][0]
    check_list(pool[0][0], m, 'construction')
    work = 0

    def put(p, m, what):
        check_list(p, m, what)
        if len(pool) < 12:
            pool.append((p, m))
        else:
            pool[len(m) % 11 + 1] = (p, m)

    for op in case['ops']:
        name = op[0]
        if name == 'new':
            m = content(op[1], op[2], 40)
            if op[4]:
                put(plist(it_of(op[3], m, pvector), reverse=True), m[::-1], 'plist(reverse=True)')
            elif op[3] == 6:
                put(l_fn(*m), m, 'l()')
            else:
                put(plist(it_of(op[3], m, pvector)), m, 'plist()')
            continue
        p, m = pool[op[1] % len(pool)]
        n = len(m)
        stats.hit(name)
        what = '%s on list of %d' % (name, n)
        if n >= 2:
            work += 1
        if n > 60:
            stats.hit('long list')
        if name == 'cons':
            x = elem(op[2])
            q = p.cons(x)
            check(q.rest is p, '%s: the old list is not the rest of the new one', what)
            put(q, [x] + m, what)
        elif name == 'mcons':
            items = content(op[2], 0, 80)
            q = p.mcons(it_of(op[3], items, pvector))
            put(q, items[::-1] + m, what)
            for _ in items:
                q = q.rest
            check(q is p, '%s: the old list is not the tail of the new one', what)
        elif name == 'mcons_pool':
            p2, m2 = pool[op[2] % len(pool)]
            if len(m2) + n < (200 if big < 34 else 2100):
                put(p.mcons(p2), m2[::-1] + m, what)
        elif name == 'rest':
            put(p.rest, m[1:], what)
        elif name == 'reverse':
            put(p.reverse(), m[::-1], what)
            check_list(reversed(p), m[::-1], 'reversed()')
        elif name == 'split':
            i = at(op[2], n)
            if i >= 0:
                a, b = p.split(i)
                check_list(a, m[:i], what + ' at %d, left' % i)
                put(a, m[:i], what)
                put(b, m[i:], what + ' at %d, right' % i)
        elif name == 'remove':
            x = m[at(op[2], n) % n] if n and op[3] else elem(op[2])
            mm = list(m)
            try:
                mm.remove(x)
            except ValueError:
                stats.hit('missing value')
                expect_exc(ValueError, p.remove, x)
            else:
                put(p.remove(x), mm, what)
        elif name == 'get':
            i = at(op[2], n)
            if -n <= i < n:
                check(p[i] is m[i], '%s [%d] is %s, expected %s', what, i, short(p[i]), short(m[i]))
            else:
                stats.hit('index error')
                expect_exc(IndexError, operator.getitem, p, i)
        elif name == 'slice':
            s = slice_of(op[2], n)
            put(p[s], m[s], what + ' %s' % s)
        elif name == 'index':
            x = m[at(op[2], n) % n] if n and op[3] else elem(op[2])
            args = [] if op[4] is None else [at(op[4], n)] + ([] if op[5] is None else [at(op[5], n)])
            try:
                e = m.index(x, *args)
            except ValueError:
                stats.hit('missing value')
                expect_exc(ValueError, p.index, x, *args)
            else:
                r = p.index(x, *args)
                check(r == e, '%s(%s): %s, expected %s', what, short([x] + args), r, e)
        elif name == 'count':
            x = m[at(op[2], n) % n] if n and op[3] else elem(op[2])
            check(p.count(x) == m.count(x), '%s of %s', what, short(x))
            check((x in p) is (x in m), '%s: membership of %s', what, short(x))
        elif name == 'cmp':
            p2, m2 = pool[op[2] % len(pool)]
            if op[3]:
                m2 = list(m)
                if op[2] % 3 == 0:
                    m2 = m2 + [ELEMS[0]]
                elif op[2] % 3 == 1 and n:
                    m2[op[2] % n] = ELEMS[op[2]]
                p2 = plist(m2)
            for a, b, ma, mb in ((p, p2, m, m2), (p2, p, m2, m)):
                for o in (operator.eq, operator.ne, operator.lt, operator.gt):
                    k, e = attempt(o, ma, mb)
                    kr, r = attempt(o, a, b)
                    if k == 'exc':
                        check(kr == 'exc' and type(r) is type(e), '%s %s: %s', what, o.__name__, short(r))
                    else:
                        check(kr == 'ok' and bool(r) is e, '%s %s: %s, expected %s', what, o.__name__, short(r), e)
            if m == m2:
                check(hash(p) == hash(p2), '%s: equal lists with different hashes', what)
        elif name == 'hash':
            check(hash(p) == hash(plist(tuple(m))), '%s: differs from an equal list', what)
        elif name == 'badtype':
            expect_exc(TypeError, operator.getitem, p, 'a')
            expect_exc(TypeError, operator.getitem, p, 1.0)
        elif name == 'each' and n <= 12:
            for i in range(n + 2):
                a, b = p.split(i)
                check(same(list(a), m[:i]) and same(list(b), m[i:]), '%s: split at %d', what, i)
                for s in (slice(i, None), slice(None, i), slice(-i, None), slice(None, -i), slice(i, i + 2), slice(i, None, 1),
                          slice(i, None, -1), slice(None, i, -1)):
                    r = p[s]
                    check(same(list(r), m[s]), '%s: [%s] is %s', what, s, short(list(r)))
                if i < n:
                    x = m[i]
                    check(p[i] is x and p[i - n] is x, '%s: [%d]', what, i)
                    mm = list(m)
                    mm.remove(x)
                    check(same(list(p.remove(x)), mm), '%s: remove of element %d', what, i)
                    check(p.index(x) == m.index(x) and p.count(x) == m.count(x) and x in p, '%s: element %d', what, i)
    for p, m in pool:
        check_list(p, m, 'at the end')
    stats.nontrivial = work >= 2
