"""C07: persistent sets obey set algebra."""
import operator
from hypothesis import strategies as st
import core
from core import fail, check, short, attempt, expect_exc, key, val, NKEYS, KEYS
from gen import *
from maplib import *

elems_tok = st.one_of(st.lists(key_tok, max_size=10), st.lists(key_tok, min_size=8, max_size=40))
BULK = [3, 6, 8, 11, 12, 13, 23, 44, 87, 172, 350]
TABLE = {
    'new': (4, [elems_tok, st.integers(0, 6), st.sampled_from([8, 8, 1, 2, 33])]),
    'newbulk': (1, [st.integers(0, 300), st.sampled_from(BULK)]),
    'keys': (2, [elems_tok, st.integers(0, 2)]),
    'keyset_rec': (1, [st.integers(0, 7)]),
    'add': (5, [pool_tok, key_tok]),
    'update': (3, [pool_tok, elems_tok, st.integers(0, 4)]),
    'update_bulk': (1, [pool_tok, st.integers(0, 300), st.sampled_from(BULK * 3 + [1100, 2600])]),
    'remove': (4, [pool_tok, byte]),
    'remove_any': (2, [pool_tok, key_tok]),
    'discard': (3, [pool_tok, key_tok]),
    'binop': (8, [pool_tok, pool_tok, st.integers(0, 3), st.integers(0, 4)]),
    'method': (6, [pool_tok, pool_tok, st.integers(0, 4), st.integers(0, 11)]),
    'method_items': (4, [pool_tok, elems_tok, st.integers(0, 4), st.integers(0, 11)]),
    'compare': (6, [pool_tok, pool_tok, st.integers(0, 2)]),
    'rel_derived': (3, [pool_tok, byte, st.integers(0, 3)]),
    'part': (3, [pool_tok, st.lists(st.integers(0, 3000), min_size=1, max_size=4), st.integers(0, 3), st.booleans()]),
    'contains': (2, [pool_tok, key_tok]),
    'hash': (2, [pool_tok, pool_tok]),
    'copy': (1, [pool_tok]),
    'each': (2, [pool_tok]),
}


def strategies(spec):
    return [('sets', case(2, 25, TABLE), 1)]


_rec = []


def rec():
    if not _rec:
        from pyrsistent import PRecord, field, CheckedPMap, CheckedPSet

        class R(PRecord):
            a = field()
            b = field()
            key = field()

        class M(CheckedPMap):
            __key_type__ = object
            __value_type__ = object

        class S(CheckedPSet):
            pass
        _rec.extend([R, M, S])
    return _rec


def typed(m):
    """A CheckedPSet of the elements that accepts only elements of their types."""
    from pyrsistent import CheckedPSet
    types = tuple(sorted({type(x) for x in m}, key=lambda t: t.__name__))
    if types not in _typed:
        _typed[types] = type('Typed', (CheckedPSet,), {'__type__': types}) if types else rec()[2]
    return _typed[types](m)


_typed = {}


def run_case(case, stats):
    from pyrsistent import pset, s as s_fn, pmap, pvector, plist
    pool = [(pset(), set())]
    ops_done = 0
    flags = set()

    def put(s, m, what):
        check_set(s, m, what)
        if len(pool) < 10:
            pool.append((s, m))
        else:
            pool[len(m) % 9 + 1] = (s, m)
        if len(m) > 5:
            flags.add('more than 5 elements')
        if 1 < len(m) < 60 and len({hash(x) for x in m}) < len(m):
            flags.add('hash collision')

    for op in case['ops']:
        name = op[0]
        if name == 'new':
            items = [key(k) for k in op[1]]
            kind = op[2]
            if kind == 0:
                s = pset(items, pre_size=op[3])
            elif kind == 1:
                s = s_fn(*items)
            elif kind == 2:
                s = pset(iter(items))
            elif kind == 3:
                s = pset(pset(items))
            elif kind == 4:
                s = pset(set(items))
            elif kind == 5:
                s = rec()[2](items)
            else:
                # a checked set becomes one without restrictions
                s = pset(typed(set(items)), op[3]) if op[3] != 8 else pset(typed(set(items)))
                check(s.add(SENT) == set(items) | {SENT}, 'a set made of a checked one refuses other elements')
            put(s, set(items), 'construction')
            continue
        if name == 'newbulk':
            items = bulk_keys(op[1], op[2])
            put(pset(items), set(items), 'bulk construction')
            continue
        if name == 'keys':
            d = {key(k): val(i) for i, k in enumerate(op[1])}
            mp = pmap(d) if op[2] < 2 else rec()[1](d)
            put(mp.keys(), set(d), 'keys() of a map')
            continue
        if name == 'keyset_rec':
            d = {k: i for i, k in enumerate(['a', 'b', 'key']) if op[1] >> i & 1}
            put(rec()[0](**d).keys(), set(d), 'keys() of a record')
            continue
        s, m = pool[op[1] % len(pool)]
        n = len(m)
        stats.hit(name)
        what = '%s on set of %d' % (name, n)
        ops_done += 1
        if name == 'add':
            k = key(op[2])
            put(s.add(k), m | {k}, what + ' %s' % short(k))
        elif name == 'update':
            items = [key(k) for k in op[2]]
            arg = [list, tuple, iter, set, pset][op[3]](items)
            put(s.update(arg), m | set(items), what)
        elif name == 'update_bulk':
            items = bulk_keys(op[2], op[3])
            put(s.update(items), m | set(items), what)
        elif name == 'remove' and n:
            k = sorted(m, key=hash)[op[2] % n]
            put(s.remove(k), m - {k}, what + ' %s' % short(k))
        elif name == 'remove_any':
            k = key(op[2])
            if k in m:
                put(s.remove(k), m - {k}, what + ' %s' % short(k))
            else:
                stats.hit('missing element')
                expect_exc(KeyError, s.remove, k)
        elif name == 'discard':
            k = key(op[2])
            put(s.discard(k), m - {k}, what + ' %s' % short(k))
        elif name == 'binop':
            s2, m2 = pool[op[2] % len(pool)]
            o = [operator.and_, operator.or_, operator.sub, operator.xor][op[3]]
            other = [s2, set(m2), frozenset(m2), pmap(dict.fromkeys(m2, 1)).keys(), None][op[4]]
            if other is None:
                # a set that accepts only some types is an operand like any other
                stats.hit('typed operand')
                put(o(s, typed(m2)), o(m, m2), what + ' %s with a typed set' % o.__name__)
                continue
            put(o(s, other), o(m, m2), what + ' %s' % o.__name__)
            r = o(other, s)
            check_set(r, o(m2, m), what + ' reflected %s' % o.__name__)
        elif name == 'part' and m:
            # a few elements of a set, wherever they are in it, combined with the whole
            l = list(s)
            few = [l[t % len(l)] if t % 2 else l[-1 - t % min(len(l), 50)] for t in op[2]] + ([SENT] if op[4] else [])
            s2, m2 = pset(few), set(few)
            o = [operator.and_, operator.or_, operator.sub, operator.xor][op[3]]
            check_set(o(s2, s), o(m2, m), what + ' %s of few with it' % o.__name__)
            check_set(o(s, s2), o(m, m2), what + ' %s with few' % o.__name__)
            check(s2.isdisjoint(s) is m2.isdisjoint(m) and s.isdisjoint(s2) is m.isdisjoint(m2), '%s: isdisjoint', what)
            check((s2 <= s) is (m2 <= m) and (s >= s2) is (m >= m2) and (s2 < s) is (m2 < m), '%s: subset', what)
        elif name in ('method', 'method_items'):
            # the named methods take any iterable, like those of set
            if name == 'method':
                s2, m2 = pool[op[2] % len(pool)]
                items = sorted(m2, key=hash)
            else:
                items = [key(k) for k in op[2]]
                s2, m2 = pset(items), set(items)
            nm = ['intersection', 'union', 'difference', 'symmetric_difference', 'isdisjoint'][op[3]]
            ak = ['pset', 'set', 'frozenset', 'list', 'repeating list', 'tuple', 'iterator', 'generator', 'dict', 'pvector',
                  'plist', 'typed set'][op[4]]
            other = {'pset': lambda: s2, 'set': lambda: set(m2), 'frozenset': lambda: frozenset(m2), 'list': lambda: items,
                     'repeating list': lambda: items + items[::-1], 'tuple': lambda: tuple(items),
                     'iterator': lambda: iter(items), 'generator': lambda: (e for e in items + items[:1]),
                     'dict': lambda: dict.fromkeys(items, 1), 'pvector': lambda: pvector(items),
                     'plist': lambda: plist(items), 'typed set': lambda: typed(m2)}[ak]()
            r = getattr(s, nm)(other)
            e = getattr(m, nm)(m2)
            stats.hit('%s with %s' % (nm, ak))
            if nm == 'isdisjoint':
                check(bool(r) is e, '%s %s with %s is %s', what, nm, ak, r)
            else:
                put(r, e, what + ' %s with %s' % (nm, ak))
        elif name == 'compare':
            s2, m2 = pool[op[2] % len(pool)]
            compare(s, m, [s2, set(m2), frozenset(m2)][op[3]], m2, what)
        elif name == 'rel_derived':
            # equal, subset, superset, overlapping - built independently
            m2 = set(m)
            lst = sorted(m, key=hash)
            if op[3] in (1, 3) and n:
                m2.discard(lst[op[2] % n])
            if op[3] in (2, 3):
                m2.add(key(op[2] % NKEYS))
            compare(s, m, pset(sorted(m2, key=hash, reverse=True)), m2, what)
            compare(pset(m2), m2, s, m, what)
        elif name == 'contains':
            k = key(op[2])
            check((k in s) is (k in m), '%s: %s', what, short(k))
            expect_exc(TypeError, operator.contains, s, [])
        elif name == 'hash':
            s2, m2 = pool[op[2] % len(pool)]
            h1, h2 = hash(s), hash(s2)
            if m == m2:
                check(h1 == h2, '%s: equal sets with different hashes', what)
                check(s in {s2} and {s: 1}.get(s2) == 1, '%s: equal sets are not the same dict key', what)
            check(hash(s) == hash(pset(list(m))), '%s: differs from an equal set', what)
        elif name == 'copy':
            check_set(s.copy(), m, what)
        elif name == 'each' and n <= 14:
            for k in m:
                e = m - {k}
                for r, w in ((s.remove(k), 'remove'), (s.discard(k), 'discard'), (s.difference([k]), 'difference')):
                    check(len(r) == n - 1 and set(r) == e and k not in r, '%s: %s of %s', what, w, short(k))
                for r, w in ((s.add(k), 'add'), (s.update([k]), 'update'), (s.union([k]), 'union'), (r.add(k), 're-adding')):
                    check(len(r) == n and set(r) == m and k in r, '%s: %s of %s', what, w, short(k))
                r = s.intersection([k])
                check(len(r) == 1 and set(r) == {k} and k in r, '%s: intersection with %s', what, short(k))
    for s, m in pool:
        check_set(s, m, 'at the end', probes=False)
    for f in flags:
        stats.hit(f)
    stats.nontrivial = ops_done >= 2 and bool(flags)


def compare(s, m, other, m2, what):
    for o in (operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge):
        r, e = o(s, other), o(m, m2)
        check(bool(r) is e, '%s: %s with %s of %d is %s', what, o.__name__, type(other).__name__, len(m2), r)
        r = o(other, s)
        check(bool(r) is o(m2, m), '%s: reflected %s with %s of %d is %s', what, o.__name__, type(other).__name__, len(m2), r)
    check(bool(s.issubset(other)) is m.issubset(m2), '%s: issubset', what)
    check(bool(s.issuperset(other)) is m.issuperset(m2), '%s: issuperset', what)
    check(bool(s.isdisjoint(other)) is m.isdisjoint(m2), '%s: isdisjoint', what)
