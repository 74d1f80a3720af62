"""C10: a persistent deque agrees with collections.deque, bounded or not."""
import collections
import operator
from hypothesis import strategies as st
import core
from core import fail, check, short, attempt, expect_exc
from gen import *
from veclib import content, elem, same, iterable_of, diff, ELEMS
from checks.c09 import at, slice_of, it_of, pos, sl, sizes, long_sizes

maxlens = st.sampled_from([None, None, None, 0, 1, 2, 3, 4, 5, 8, 20, 33, 40])
counts = st.sampled_from([0, 1, 2, 3, 4, 5, 7, 10, 11, 40, -1, -2, -3, -10, 100, -100, 'n', 'n', '-n', 'n+1', 'n-1', '-n-1', '1-n', 'h', '-h', '2n', '2n+1',
                          '-2n-1', 2000, -2000])
REL = {'n': lambda n: n, '-n': lambda n: -n, 'n+1': lambda n: n + 1, 'n-1': lambda n: n - 1, '-n-1': lambda n: -n - 1, '1-n': lambda n: 1 - n,
       'h': lambda n: n // 2, '-h': lambda n: -(n // 2), '2n': lambda n: 2 * n, '2n+1': lambda n: 2 * n + 1, '-2n-1': lambda n: -2 * n - 1}
TABLE = {
    'new': (3, [sizes, st.integers(0, 2), st.integers(0, 9), maxlens]),
    'append': (6, [pool_tok, byte]),
    'appendleft': (6, [pool_tok, byte]),
    'appendmany': (2, [pool_tok, st.lists(st.booleans(), min_size=2, max_size=14)]),
    'extend': (4, [pool_tok, sizes, st.integers(0, 9)]),
    'extendleft': (4, [pool_tok, sizes, st.integers(0, 9)]),
    'extend_pool': (2, [pool_tok, pool_tok, st.booleans()]),
    'pop': (4, [pool_tok, counts]),
    'popleft': (4, [pool_tok, counts]),
    'drain': (1, [pool_tok, st.lists(st.booleans(), max_size=20)]),
    'remove': (5, [pool_tok, pos, st.booleans()]),
    'reverse': (3, [pool_tok]),
    'rotate': (5, [pool_tok, counts]),
    'ends': (3, [pool_tok]),
    'get': (4, [pool_tok, pos]),
    'slice': (8, [pool_tok, sl]),
    'count': (2, [pool_tok, pos, st.booleans()]),
    'index': (3, [pool_tok, pos, st.booleans(), st.one_of(st.none(), pos), st.one_of(st.none(), pos)]),
    'cmp': (3, [pool_tok, pool_tok, st.booleans()]),
    'hash': (1, [pool_tok]),
    'each': (2, [pool_tok]),
}


def strategies(spec):
    bounds = st.sampled_from([None, None, 1, 40, 63, 64, 65, 100, 128, 129, 200, 256, 257, 1000, 1025])
    long = dict(TABLE, new=(2, [long_sizes] + TABLE['new'][1][1:3] + [bounds]), extend=(3, [pool_tok, long_sizes, st.integers(0, 9)]),
                extendleft=(3, [pool_tok, long_sizes, st.integers(0, 9)]))
    return [('deques', case(1, 24, TABLE, init=st.tuples(sizes, st.integers(0, 2), maxlens)), 9),
            ('long deques', case(1, 7, long, init=st.tuples(long_sizes, st.integers(0, 2), bounds)), 1)]


def check_dq(d, m, what):
    """m is a collections.deque."""
    l, ml = list(d), list(m)
    if not same(l, ml):
        fail('%s: %s', what, diff(l, ml))
    n = len(ml)
    check(len(d) == n, '%s: len is %s, expected %d', what, len(d), n)
    check(d.maxlen == m.maxlen, '%s: maxlen is %s, expected %s', what, d.maxlen, m.maxlen)
    check(bool(d) is bool(ml), '%s: truth value', what)
    if n:
        check(d.left is ml[0], '%s: left is %s', what, short(d.left))
        check(d.right is ml[-1], '%s: right is %s', what, short(d.right))
        for i in {0, n // 2, n - 1}:
            check(d[i] is ml[i] and d[i - n] is ml[i], '%s: [%d]', what, i)
    else:
        expect_exc(IndexError, lambda: d.left)
        expect_exc(IndexError, lambda: d.right)


def run_case(case, stats):
    from pyrsistent import pdeque, dq, pvector
    D = collections.deque
    size, pat, maxlen = case['init']
    start = content(size, pat, 0)
    m = D(start, maxlen)
    pool = [(pdeque(start, maxlen), m)]
    check_dq(pool[0][0], m, 'construction')
    work = 0
    bounded_hit = False

    def put(d, m, what):
        check_dq(d, m, what)
        if len(pool) < 12:
            pool.append((d, m))
        else:
            pool[len(m) % 11 + 1] = (d, m)

    def pops(m, k):
        """pop k from the right (left when negative)."""
        mm = D(m, m.maxlen)
        for _ in range(abs(k)):
            if not mm:
                break
            mm.pop() if k > 0 else mm.popleft()
        return mm

    for op in case['ops']:
        name = op[0]
        if name == 'new':
            items = content(op[1], op[2], 40)
            if op[3] == 6 and op[4] is None:
                put(dq(*items), D(items), 'dq()')
            else:
                put(pdeque(it_of(op[3], items, pvector), maxlen=op[4]), D(items, op[4]), 'pdeque(maxlen=%s)' % op[4])
            continue
        d, m = pool[op[1] % len(pool)]
        n = len(m)
        stats.hit(name)
        what = '%s on deque of %d, maxlen %s' % (name, n, m.maxlen)
        if n >= 2:
            work += 1
        if n > 60:
            stats.hit('long deque')
        if name in ('pop', 'popleft', 'rotate') and op[2] in REL:
            op = (op[0], op[1], REL[op[2]](n))
        if m.maxlen is not None and n == m.maxlen:
            bounded_hit = True
            stats.hit('at the bound')
        if name in ('append', 'appendleft'):
            x = elem(op[2])
            mm = D(m, m.maxlen)
            getattr(mm, name)(x)
            put(getattr(d, name)(x), mm, what)
        elif name == 'appendmany':
            mm = D(m, m.maxlen)
            dd = d
            for i, left in enumerate(op[2]):
                x = ELEMS[i]
                if left:
                    mm.appendleft(x)
                    dd = dd.appendleft(x)
                else:
                    mm.append(x)
                    dd = dd.append(x)
            put(dd, mm, what)
        elif name in ('extend', 'extendleft'):
            items = content(op[2], 0, 80)
            mm = D(m, m.maxlen)
            getattr(mm, name)(items)
            put(getattr(d, name)(it_of(op[3], items, pvector)), mm, what)
        elif name == 'extend_pool':
            d2, m2 = pool[op[2] % len(pool)]
            if len(m2) + n < (200 if size < 34 else 2100):
                mm = D(m, m.maxlen)
                (mm.extendleft if op[3] else mm.extend)(list(m2))
                put((d.extendleft if op[3] else d.extend)(d2), mm, what)
        elif name == 'pop':
            put(d.pop(op[2]) if op[2] != 1 else d.pop(), pops(m, op[2]), what + ' %d' % op[2])
        elif name == 'popleft':
            put(d.popleft(op[2]) if op[2] != 1 else d.popleft(), pops(m, -op[2]), what + ' %d' % op[2])
        elif name == 'drain':
            mm = D(m, m.maxlen)
            dd = d
            for left in op[2]:
                if mm:
                    mm.popleft() if left else mm.pop()
                dd = dd.popleft() if left else dd.pop()
                check(len(dd) == len(mm), '%s: len is %d, expected %d', what, len(dd), len(mm))
                if mm:
                    check(dd.left is mm[0] and dd.right is mm[-1], '%s: ends', what)
            put(dd, mm, what)
        elif name == 'remove':
            x = m[at(op[2], n) % n] if n and op[3] else elem(op[2])
            mm = D(m, m.maxlen)
            try:
                mm.remove(x)
            except ValueError:
                stats.hit('missing value')
                expect_exc(ValueError, d.remove, x)
            else:
                put(d.remove(x), mm, what)
        elif name == 'reverse':
            mm = D(reversed(m), m.maxlen)
            put(d.reverse(), mm, what)
            check_dq(reversed(d), mm, 'reversed()')
        elif name == 'rotate':
            mm = D(m, m.maxlen)
            mm.rotate(op[2])
            put(d.rotate(op[2]), mm, what + ' by %d' % op[2])
        elif name == 'ends':
            check_dq(d, m, what)
        elif name == 'get':
            i = at(op[2], n)
            if -n <= i < n:
                check(d[i] is m[i], '%s [%d] is %s, expected %s', what, i, short(d[i]), short(m[i]))
            else:
                stats.hit('index error')
                expect_exc(IndexError, operator.getitem, d, i)
        elif name == 'slice':
            s = slice_of(op[2], n)
            put(d[s], D(list(m)[s], m.maxlen), what + ' %s' % s)
        elif name == 'count':
            x = m[at(op[2], n) % n] if n and op[3] else elem(op[2])
            check(d.count(x) == m.count(x), '%s of %s: %s', what, short(x), d.count(x))
            check((x in d) is (x in m), '%s: membership of %s', what, short(x))
        elif name == 'index':
            x = m[at(op[2], n) % n] if n and op[3] else elem(op[2])
            args = [] if op[4] is None else [at(op[4], n)] + ([] if op[5] is None else [at(op[5], n)])
            try:
                e = list(m).index(x, *args)
            except ValueError:
                stats.hit('missing value')
                expect_exc(ValueError, d.index, x, *args)
            else:
                r = d.index(x, *args)
                check(r == e, '%s(%s): %s, expected %s', what, short([x] + args), r, e)
        elif name == 'cmp':
            d2, m2 = pool[op[2] % len(pool)]
            if op[3]:
                m2 = D(m)
                d2 = pdeque(list(m)[:n // 3]).extend(list(m)[n // 3:])
                if op[2] % 3 == 0:
                    m2.append(ELEMS[0])
                    d2 = d2.append(ELEMS[0])
            a, b = list(m), list(m2)
            for x, y, mx, my in ((d, d2, a, b), (d2, d, b, a)):
                for o in (operator.eq, operator.ne, operator.lt, operator.gt):
                    k, e = attempt(o, mx, my)
                    kr, r = attempt(o, x, y)
                    if k == 'exc':
                        check(kr == 'exc' and type(r) is type(e), '%s %s: %s', what, o.__name__, short(r))
                    else:
                        check(kr == 'ok' and bool(r) is e, '%s %s: %s, expected %s', what, o.__name__, short(r), e)
            if a == b:
                check(hash(d) == hash(d2), '%s: equal deques with different hashes', what)
        elif name == 'hash':
            expect_exc(ValueError, pdeque, list(m), -1 - n)
            expect_exc(TypeError, pdeque, list(m), 'a')
            check(hash(d) == hash(pdeque(list(m))), '%s: differs from an equal deque', what)
        elif name == 'each' and n <= 12:
            l = list(m)
            for i in range(n + 2):
                check_dq(d.pop(i), pops(m, i), what + ' pop(%d)' % i)
                check_dq(d.popleft(i), pops(m, -i), what + ' popleft(%d)' % i)
                for k in (i, -i):
                    mm = D(m, m.maxlen)
                    mm.rotate(k)
                    check_dq(d.rotate(k), mm, what + ' rotate(%d)' % k)
                for s in (slice(i, None), slice(None, i), slice(-i, None), slice(None, -i), slice(i, i + 2), slice(i, None, -1)):
                    check_dq(d[s], D(l[s], m.maxlen), what + ' %s' % s)
                if i < n:
                    x = l[i]
                    check(d[i] is x and d[i - n] is x, '%s: [%d]', what, i)
                    mm = D(m, m.maxlen)
                    mm.remove(x)
                    check_dq(d.remove(x), mm, what + ' remove of element %d' % i)
                    check(d.index(x) == l.index(x) and d.count(x) == l.count(x) and x in d, '%s: element %d', what, i)
    for d, m in pool:
        check_dq(d, m, 'at the end')
    stats.nontrivial = work >= 3
    if bounded_hit:
        stats.hit('bounded case')
