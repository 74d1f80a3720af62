"""C08: a persistent bag counts as a multiset."""
import collections
import operator
from hypothesis import strategies as st
import core
from core import fail, check, short, attempt, expect_exc, key, val, NKEYS, KEYS
from gen import *

elems_tok = st.one_of(st.lists(st.tuples(key_tok, st.integers(1, 4)), max_size=8),
                      st.lists(st.tuples(st.integers(0, 6), st.integers(1, 4)), max_size=6),
                      st.lists(st.tuples(key_tok, st.integers(1, 3)), min_size=8, max_size=25))
TABLE = {
    'new': (4, [elems_tok, st.integers(0, 3)]),
    'add': (5, [pool_tok, key_tok]),
    'addold': (3, [pool_tok, byte]),
    'update': (3, [pool_tok, elems_tok, st.integers(0, 3)]),
    'update_pool': (1, [pool_tok, pool_tok]),
    'remove': (6, [pool_tok, byte]),
    'remove_any': (2, [pool_tok, key_tok]),
    'removeall': (2, [pool_tok, byte]),
    'binop': (9, [pool_tok, pool_tok, st.integers(0, 3)]),
    'near': (4, [pool_tok, byte, st.integers(0, 3)]),
    'count': (2, [pool_tok, key_tok]),
    'eq': (4, [pool_tok, pool_tok]),
    'rebuild': (2, [pool_tok]),
    'each': (2, [pool_tok]),
    'wide': (1, [pool_tok, st.integers(0, 300), st.sampled_from([20, 33, 44, 60, 64, 87, 130, 172, 300]), st.integers(1, 3), st.integers(0, 3)]),
    'many': (2, [pool_tok, key_tok, st.sampled_from([5, 9, 16, 30, 31, 32, 63, 64, 99, 127, 128, 254, 255, 256, 257, 299, 511, 512, 513]), st.integers(0, 2)]),
}


def strategies(spec):
    return [('bags', case(2, 25, TABLE), 1)]


PROBES = [0, 1, 2, 3, 5, 9, 14, 35, 36, 46, 50, 53]


def check_bag(b, c, what):
    n = sum(c.values())
    check(len(b) == n, '%s: len is %s, expected %d', what, len(b), n)
    items = list(b)
    check(len(items) == n, '%s: %d elements iterated, expected %d', what, len(items), n)
    got = collections.Counter(items)
    check(got == c, '%s: contents %s, expected %s', what, short(got), short(c))
    for k, v in c.items():
        check(b.count(k) == v, '%s: count of %s is %s, expected %d', what, short(k), b.count(k), v)
        check((k in b) is True, '%s: %s is not in the bag', what, short(k))
    for p in PROBES:
        k = KEYS[p]
        if k not in c:
            check((k in b) is False, '%s: %s is in the bag', what, short(k))
            check(b.count(k) == 0, '%s: count of absent %s is %s', what, short(k), b.count(k))


def run_case(case, stats):
    from pyrsistent import pbag, b as b_fn
    C = collections.Counter
    pool = [(pbag([]), C())]
    algebra = 0
    dup = False

    def put(b, c, what):
        nonlocal dup
        check_bag(b, c, what)
        if any(v > 1 for v in c.values()):
            dup = True
        if len(pool) < 10:
            pool.append((b, c))
        else:
            pool[len(c) % 9 + 1] = (b, c)

    def items_of(tok):
        out = []
        for k, n in tok:
            out += [key(k)] * n
        return out

    for op in case['ops']:
        name = op[0]
        if name == 'new':
            items = items_of(op[1])
            b = [lambda i: pbag(i), lambda i: b_fn(*i), lambda i: pbag(iter(i)), lambda i: pbag(tuple(reversed(i)))][op[2]](items)
            put(b, C(items), 'construction')
            continue
        b, c = pool[op[1] % len(pool)]
        n = len(c)
        stats.hit(name)
        what = '%s on bag of %d' % (name, sum(c.values()))
        if name == 'add' or (name == 'addold' and n):
            k = key(op[2]) if name == 'add' else list(c)[op[2] % n]
            cc = C(c)
            cc[k] += 1
            put(b.add(k), cc, what + ' %s' % short(k))
        elif name == 'update':
            items = items_of(op[2])
            arg = [list, tuple, iter, pbag][op[3]](items)
            put(b.update(arg), c + C(items), what)
        elif name == 'update_pool':
            b2, c2 = pool[op[2] % len(pool)]
            if sum(c2.values()) + sum(c.values()) < 2000:
                put(b.update(b2), c + c2, what)
        elif name == 'remove' and n:
            k = list(c)[op[2] % n]
            put(b.remove(k), c - C([k]), what + ' %s' % short(k))
        elif name == 'removeall' and n:
            k = list(c)[op[2] % n]
            cc = C(c)
            bb = b
            while cc[k]:
                bb = bb.remove(k)
                cc[k] -= 1
            put(bb, +cc, what)
            expect_exc(KeyError, bb.remove, k)
        elif name == 'remove_any':
            k = key(op[2])
            if k in c:
                put(b.remove(k), c - C([k]), what + ' %s' % short(k))
            else:
                stats.hit('absent element')
                expect_exc(KeyError, b.remove, k)
        elif name in ('binop', 'near'):
            if name == 'binop':
                b2, c2 = pool[op[2] % len(pool)]
                if sum(c2.values()) + sum(c.values()) > 4000:
                    continue
            else:
                # a bag that differs little from this one, counts above and below
                c2 = C(c)
                for i, k in enumerate(list(c)):
                    c2[k] += [0, 1, -1, 2, 0, -2][(i + op[2]) % 6]
                c2[key(op[2])] += 1
                c2 = +c2
                b2 = pbag(list(c2.elements()))
            o = [operator.add, operator.sub, operator.or_, operator.and_][op[3]]
            algebra += 1
            put(o(b, b2), o(c, c2), what + ' %s' % o.__name__)
        elif name == 'count':
            k = key(op[2])
            check(b.count(k) == c[k] and (k in b) is (c[k] > 0), '%s of %s', what, short(k))
            c = +c
        elif name == 'eq':
            b2, c2 = pool[op[2] % len(pool)]
            same = c == c2
            check((b == b2) is same, '%s: == is %s', what, b == b2)
            check((b != b2) is (not same), '%s: != is %s', what, b != b2)
            if same:
                check(hash(b) == hash(b2), '%s: equal bags with different hashes', what)
        elif name == 'rebuild':
            b2 = pbag(list(reversed(list(c.elements()))))
            check(b == b2 and not (b != b2) and b2 == b, '%s: not equal to a bag with the same elements', what)
            check(hash(b) == hash(b2), '%s: equal bags with different hashes', what)
            b3 = b2.add(key(1))
            check(b != b3 and not (b == b3), '%s: equal to a bag with one more element', what)
        elif name == 'many':
            # large counts, and the counts around them
            k, times = key(op[2]), op[3]
            if sum(c.values()) + times > 1500:
                continue
            cc = C(c)
            cc[k] += times
            x = pbag([k] * times)
            bb = [lambda: b.update([k] * times), lambda: b + x, lambda: x + b][op[4]]()
            put(bb, cc, what + ' %d' % times)
            one = C([k])
            put(bb.add(k), cc + one, what + ' add')
            put(bb.remove(k), cc - one, what + ' remove')
            put(bb - x, c, what + ' minus')
            put(bb & x, C([k] * times), what + ' and')
            put(b | x, c | C([k] * times), what + ' or')
        elif name == 'wide':
            # many different elements
            if sum(c.values()) > 900:
                continue
            items = list(range(op[2], op[2] + op[3])) * op[4]
            c2 = C(items)
            b2 = pbag(items)
            check_bag(b2, c2, 'construction of %d elements' % len(items))
            o = [operator.add, operator.sub, operator.or_, operator.and_][op[5]]
            put(o(b, b2), o(c, c2), what + ' %s' % o.__name__)
            put(o(b2, b), o(c2, c), what + ' %s, reflected' % o.__name__)
            put(b.update(items), c + c2, what + ' update')
            x = op[2] + op[3] // 2
            put(b2.remove(x), c2 - C([x]), what + ' remove')
            put(b2.add(x), c2 + C([x]), what + ' add')
        elif name == 'each' and n <= 12:
            for k in list(+c):
                one = C([k])
                check_bag(b.remove(k), c - one, what + ' remove of %s' % short(k))
                check_bag(b.add(k), c + one, what + ' add of %s' % short(k))
                check_bag(b.update([k, k]), c + one + one, what + ' update of %s' % short(k))
                x = pbag([k])
                check_bag(b - x, c - one, what + ' minus %s' % short(k))
                check_bag(b + x, c + one, what + ' plus %s' % short(k))
                check_bag(b & x, c & one, what + ' and %s' % short(k))
                check_bag(x & b, c & one, what + ' %s and' % short(k))
                check_bag(b | x, c | one, what + ' or %s' % short(k))
                check_bag(x - b, one - c, what + ' %s minus' % short(k))
    for b, c in pool:
        check_bag(b, +c, 'at the end')
    stats.nontrivial = dup and algebra >= 1
