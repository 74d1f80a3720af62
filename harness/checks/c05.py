"""C05: a persistent map behaves as a dict."""
import collections
import operator
import types
from hypothesis import strategies as st
import core
from core import fail, check, short, attempt, expect_exc, key, val, NKEYS, KEYS
from gen import *
from maplib import *

items_tok = st.lists(st.tuples(key_tok, val_tok), max_size=8)
items_big = st.one_of(items_tok, st.lists(st.tuples(key_tok, val_tok), min_size=10, max_size=40))
presize = st.sampled_from([0, 0, 0, 1, 2, 3, 7, 8, 16, 33, 100])
BULK = [1, 3, 5, 6, 7, 10, 11, 12, 13, 22, 24, 43, 44, 86, 87, 172, 200, 350, 700]

TABLE = {
    'new': (3, [items_big, st.integers(0, 8), presize]),
    'newbulk': (1, [st.sampled_from(BULK + [1500, 3000]), presize]),
    'set': (8, [pool_tok, key_tok, val_tok]),
    'reset': (2, [pool_tok, byte, val_tok]),
    'setmany': (3, [pool_tok, st.integers(0, 900), st.sampled_from(BULK), val_tok]),
    'remove': (5, [pool_tok, byte]),
    'remove_any': (2, [pool_tok, key_tok]),
    'removemany': (3, [pool_tok, byte, st.sampled_from([2, 5, 10, 50, 300])]),
    'discard': (4, [pool_tok, key_tok, byte]),
    'update': (3, [pool_tok, st.lists(st.tuples(items_tok, st.integers(0, 5)), max_size=3)]),
    'update_with_pool': (2, [pool_tok, pool_tok, st.booleans()]),
    'update_pool': (2, [pool_tok, pool_tok]),
    'update_with': (3, [pool_tok, st.lists(st.tuples(items_tok, st.integers(0, 5)), max_size=3), st.booleans()]),
    'merge_op': (2, [pool_tok, items_tok, st.integers(0, 5), st.booleans()]),
    'get': (3, [pool_tok, key_tok, byte]),
    'attr': (1, [pool_tok, byte]),
    'views': (3, [pool_tok, key_tok, val_tok, byte]),
    'eq': (3, [pool_tok, st.integers(0, 7), byte]),
    'hash': (1, [pool_tok]),
    'unhashable': (1, [pool_tok]),
    'iters': (1, [pool_tok]),
    'each': (2, [pool_tok, val_tok]),
}


def strategies(spec):
    return [('map', case(1, 25, TABLE), 1)]


def pick(d, tok, b):
    """A key that is present, or any key."""
    return list(d)[b // 2 % len(d)] if b % 2 and d else key(tok)


def mapping_of(kind, d):
    from pyrsistent import pmap
    if kind == 0:
        return dict(d)
    if kind == 1:
        return pmap(d)
    if kind == 2:
        return types.MappingProxyType(dict(d))
    if kind == 3:
        return collections.OrderedDict(d)
    return typed(d) if kind == 4 else recorded(d)


_typed = {}


def typed(d):
    """A checked map that accepts only keys and values of the types of these."""
    from pyrsistent import CheckedPMap
    ts = tuple(tuple(sorted({type(x) for x in xs}, key=lambda t: t.__name__)) or (dict,) for xs in (d.keys(), d.values()))
    if ts not in _typed:
        _typed[ts] = type(CheckedPMap)('Typed', (CheckedPMap,), {'__key_type__': ts[0], '__value_type__': ts[1]})
    return _typed[ts](d)


def recorded(d):
    """A record, as far as the keys allow."""
    from pyrsistent import PRecord, field
    if not all(isinstance(k, str) and k.isidentifier() for k in d):
        return typed(d)
    ts = tuple(sorted(d))
    if ts not in _typed:
        _typed[ts] = type(PRecord)('Recorded', (PRecord,), {k: field() for k in ts})
    return _typed[ts].create(d)


class Loose:
    """Equal in more ways than its hash admits, as an object that is only ever a value may be."""

    def __init__(self, n, h):
        self.n, self.h = n, h

    def __eq__(self, other):
        return isinstance(other, Loose) and other.n == self.n

    def __hash__(self):
        return self.h


def same(x, y):
    return x is y or type(x) is tuple and type(y) is tuple and len(x) == len(y) == 2 and x[0] is y[0] and x[1] is y[1]


def run_case(case, stats):
    from pyrsistent import pmap, m as m_fn
    pool = [(pmap(), {})]
    merge = Merge()
    flags = set()

    def put(m, d, what):
        check_map(m, d, what)
        if len(pool) < 10:
            pool.append((m, d))
        else:
            pool[len(d) % 9 + 1] = (m, d)

    def note(d):
        hs = [hash(k) for k in d] if len(d) < 50 else []
        if len(set(hs)) < len(hs):
            flags.add('hash collision')
        if len(d) > 8:
            flags.add('more than 8 keys')

    for op in case['ops']:
        name = op[0]
        if name == 'new':
            pairs = [(key(k), val(v)) for k, v in op[1]]
            d = dict(pairs)
            kind, pre = op[2], op[3]
            if kind == 0:
                m = pmap(dict(pairs), pre_size=pre)
            elif kind == 1:
                m = pmap(pairs, pre_size=pre)
            elif kind == 2:
                m = pmap((p for p in pairs), pre_size=pre)
            elif kind == 3:
                m = pmap(pmap(d), pre_size=pre)
            elif kind == 4:
                m = pmap(types.MappingProxyType(d), pre)
            elif kind == 5:
                d = {k: v for k, v in d.items() if isinstance(k, str) and k.isidentifier()}
                m = m_fn(**d)
            elif kind == 6:
                m = pmap(tuple(pairs))
            else:
                # a map of a restricted kind becomes one without restrictions
                if kind == 8:
                    d = {k: v for k, v in d.items() if isinstance(k, str)} or d
                m = pmap(mapping_of(kind - 3, d), pre_size=pre)
                check(m.set(SENT, SENT) == {**d, SENT: SENT}, 'a map made of a checked one refuses other keys')
            put(m, d, 'construction')
            note(d)
            continue
        if name == 'newbulk':
            d = {k: val(i % 30) for i, k in enumerate(bulk_keys(0, op[1]))}
            put(pmap(d, pre_size=op[2]), d, 'bulk construction')
            note(d)
            continue
        m, d = pool[op[1] % len(pool)]
        n = len(d)
        stats.hit(name)
        what = '%s on map of %d' % (name, n)
        if name == 'set':
            k, v = key(op[2]), val(op[3])
            dd = dict(d)
            dd[k] = v
            put(m.set(k, v), dd, what + ' %s' % short(k))
            note(dd)
        elif name == 'reset' and n:
            k = list(d)[op[2] % n]
            dd = dict(d)
            dd[k] = val(op[3])
            put(m.set(k, val(op[3])), dd, what + ' %s' % short(k))
        elif name == 'setmany':
            dd = dict(d)
            mm = m
            for i, k in enumerate(bulk_keys(op[2], op[3])):
                v = val((op[4] + i) % 30)
                mm = mm.set(k, v)
                dd[k] = v
                if len(mm) != len(dd):
                    fail('%s: len %d after setting %s, expected %d', what, len(mm), short(k), len(dd))
            put(mm, dd, what)
            note(dd)
        elif name == 'remove' and n:
            k = list(d)[op[2] % n]
            dd = dict(d)
            del dd[k]
            put(m.remove(k), dd, what + ' %s' % short(k))
        elif name == 'remove_any':
            k = key(op[2])
            if k in d:
                dd = dict(d)
                del dd[k]
                put(m.remove(k), dd, what + ' %s' % short(k))
            else:
                stats.hit('missing key')
                expect_exc(KeyError, m.remove, k)
        elif name == 'removemany':
            dd = dict(d)
            mm = m
            ks = list(dd)
            start = op[2] % max(n, 1)
            for k in (ks[start:] + ks[:start])[:op[3]]:
                mm = mm.remove(k)
                del dd[k]
                if len(mm) != len(dd) or k in mm:
                    fail('%s: wrong after removing %s', what, short(k))
            put(mm, dd, what)
        elif name == 'discard':
            k = pick(d, op[2], op[3])
            r = m.discard(k)
            if k in d:
                dd = dict(d)
                del dd[k]
                put(r, dd, what + ' %s' % short(k))
            else:
                check(r is m, '%s of a missing key gives a different object', what)
        elif name == 'update':
            dd = dict(d)
            args = []
            for items, kind in op[2]:
                x = {key(k): val(v) for k, v in items}
                dd.update(x)
                args.append(mapping_of(kind, x))
            put(m.update(*args), dd, what)
            note(dd)
        elif name == 'update_pool':
            m2, d2 = pool[op[2] % len(pool)]
            dd = dict(d)
            dd.update(d2)
            put(m.update(m2), dd, what)
            note(dd)
        elif name == 'update_with':
            dd = dict(d)
            args = []
            fn = merge if op[3] else (lambda l, r: l)
            for items, kind in op[2]:
                x = {key(k): val(v) for k, v in items}
                for k, v in x.items():
                    dd[k] = fn(dd[k], v) if k in dd else v
                args.append(mapping_of(kind, x))
            put(m.update_with(fn, *args), dd, what)
            note(dd)
        elif name == 'update_with_pool':
            # maps that share structure or values with this one, the map itself, more than one of them
            m2, d2 = pool[op[2] % len(pool)]
            args = [(m2, d2), (m, d)] if op[3] else [(m2, d2)]
            dd = dict(d)
            for _, x in args:
                for k, v in x.items():
                    dd[k] = merge(dd[k], v) if k in dd else v
            put(m.update_with(merge, *[a for a, _ in args]), dd, what)
            dd = dict(d)
            for _, x in args:
                dd.update(x)
            put(m.update(*[a for a, _ in args]), dd, what)
            note(dd)
        elif name == 'merge_op':
            x = {key(k): val(v) for k, v in op[2]}
            dd = dict(d)
            dd.update(x)
            other = mapping_of(op[3], x)
            put(m + other if op[4] else m | other, dd, what)
        elif name == 'get':
            k = pick(d, op[2], op[3])
            if k in d:
                check(m[k] is d[k] and m.get(k) is d[k] and m.get(k, SENT) is d[k] and m.get(k, default=SENT) is d[k],
                      '%s: %s', what, short(k))
            else:
                stats.hit('missing key')
                expect_exc(KeyError, operator.getitem, m, k)
                check(m.get(k) is None and m.get(k, SENT) is SENT, '%s: get of missing %s', what, short(k))
        elif name == 'attr':
            names = [k for k in d if isinstance(k, str) and k.isidentifier() and not hasattr(type(m), k)]
            if names and op[2] % 3:
                k = names[op[2] % len(names)]
                check(getattr(m, k) is d[k], '%s .%s', what, k)
            else:
                k = 'zz%d' % op[2]
                expect_exc(AttributeError, getattr, m, k)
                check(not hasattr(m, k) and getattr(m, k, SENT) is SENT, '%s: .%s exists', what, k)
            k = ['_x', '__y', 'x1', '_size_', 'X', '_Xy__', 'é'][op[2] % 7]
            x = [None, 0, False, '', (), SENT, 1][op[2] // 7 % 7]
            m2 = m.set(k, x)
            check(hasattr(m2, k) and getattr(m2, k) is x and getattr(m2, k, 5) is x, '%s: .%s with the value %s', what, k, short(x))
        elif name == 'views':
            ks, vs, its = m.keys(), m.values(), m.items()
            check(len(ks) == len(vs) == len(its) == n, '%s: lengths %d %d %d', what, len(ks), len(vs), len(its))
            check(sorted(map(id, vs)) == sorted(map(id, d.values())), '%s: values differ', what)
            check_set(ks, set(d), what + ' keys')
            for view, want in ((vs, d.values()), (its, d.items()), (ks, d), (m, d)):
                one, two = iter(view), iter(view)
                head = [next(one) for _ in range(min(n, 1 + op[3] % 3))]
                whole = list(two)
                head += one
                check(len(head) == len(whole) == n and all(same(x, y) for x, y in zip(head, whole)), '%s: two iterations at once', what)
            k, v = pick(d, op[2], op[4]), val(op[3])
            check((k in ks) is (k in d), '%s: key view membership of %s', what, short(k))
            check((v in vs) is (v in d.values()), '%s: value view membership of %s', what, short(v))
            check(((k, v) in its) is ((k, v) in d.items()), '%s: item view membership of %s', what, short((k, v)))
            if k in d:
                check((k, d[k]) in its, '%s: item view lacks %s', what, short((k, d[k])))
            check(its == pmap(d).items() and not (its != pmap(d).items()), '%s: equal item views differ', what)
            d2 = dict(d)
            d2[k] = SENT
            check(its != pmap(d2).items() and not (its == pmap(d2).items()), '%s: different item views are equal', what)
            check(vs == vs and not (vs != vs) and not (vs == m.values()) and vs != pmap(d2).values(), '%s: comparison of value views', what)
            for x in (None, 1, list(d.items()), 'a', vs):
                check(its != x and not (its == x), '%s: the item view is equal to %s', what, short(x))
            a, b = Loose(op[3] % 3, 1), Loose(op[4] % 3, 2)
            m2, d2 = m.set(k, a), {**d, k: a}
            for x in (b, a, [1]):
                check((x in m2.values()) is (x in d2.values()), '%s: value view membership of an object equal to a value', what)
                check(((k, x) in m2.items()) is ((k, x) in d2.items()), '%s: item view membership of an object equal to a value', what)
            m2 = m.set(k, [1])
            check([1] in m2.values() and [2] not in m2.values() and (k, [1]) in m2.items() and (k, [2]) not in m2.items(),
                  '%s: membership of an unhashable value', what)
            # a view does not follow later versions
            m.set(k, SENT)
            check(len(vs) == n and len(list(its)) == n, '%s: view changed', what)
        elif name == 'eq':
            d2 = dict(d)
            kind = op[2]
            if kind & 1 and n:
                k = list(d2)[op[3] % n]
                if op[3] % 3 == 0:
                    del d2[k]
                elif op[3] % 3 == 1:
                    # as many keys, one of them another
                    d2[SENT if op[3] % 2 else -77] = d2.pop(k)
                else:
                    d2[k] = SENT
            equal = d2 == d
            if op[3] % 5 == 0:
                hash(m)
            others = [pmap(d2), d2, [types.MappingProxyType, collections.UserDict, collections.ChainMap][op[3] % 3 if kind & 1 == 0 else op[3] // 3 % 3](d2), pmap(dict(reversed(list(d2.items()))), pre_size=64)]
            o = others[kind // 2]
            if op[3] % 7 == 0 and isinstance(o, type(m)):
                hash(o)
            check((m == o) is equal, '%s with %s: == is %s', what, type(o).__name__, m == o)
            check((m != o) is not equal, '%s with %s: != is %s', what, type(o).__name__, m != o)
            check((o == m) is equal, '%s: %s == map is %s', what, type(o).__name__, o == m)
        elif name == 'hash':
            check(hash(m) == hash(pmap(d)), '%s differs from an equal map', what)
        elif name == 'unhashable':
            expect_exc(TypeError, operator.getitem, m, [])
            expect_exc(TypeError, m.set, [], 1)
            expect_exc(TypeError, m.remove, {})
            expect_exc(TypeError, operator.contains, m, [])
            expect_exc(TypeError, m.get, [], 1)
            expect_exc(TypeError, m.discard, [])
        elif name == 'iters':
            check(set(m) == set(d) and len(list(m)) == n, '%s: iteration', what)
            check(set(m.iterkeys()) == set(d), '%s: iterkeys', what)
            check(sorted(map(id, m.itervalues())) == sorted(map(id, d.values())), '%s: itervalues', what)
            check(dict(m.iteritems()) == d, '%s: iteritems', what)
            check(dict(m) == d and {**m_str(m, d)} == m_strd(d), '%s: dict()', what)
            check(m.copy() == m, '%s: copy', what)
        elif name == 'each' and n <= 14:
            v = val(op[2])
            for k in d:
                dd = dict(d)
                del dd[k]
                for r, w in ((m.remove(k), 'remove'), (m.discard(k), 'discard')):
                    check(len(r) == n - 1 and dict(r.iteritems()) == dd and k not in r and r.get(k, SENT) is SENT,
                          '%s: %s of %s', what, w, short(k))
                check(dict(r.set(k, d[k]).iteritems()) == d, '%s: re-adding %s', what, short(k))
                dd[k] = v
                for r, w in ((m.set(k, v), 'set'), (m.update({k: v}), 'update'), (m + {k: v}, '+')):
                    check(len(r) == n and r[k] is v and dict(r.iteritems()) == dd, '%s: %s of %s', what, w, short(k))
                check(m.get(k, SENT) is d[k] and m[k] is d[k] and k in m, '%s: get of %s', what, short(k))
                dd[k] = merge(d[k], v)
                check(dict(m.update_with(merge, {k: v}).iteritems()) == dd, '%s: update_with of %s', what, short(k))
    for m, d in pool:
        check_map(m, d, 'at the end', probes=False)
    for f in flags:
        stats.hit(f)
    stats.nontrivial = 'hash collision' in flags or 'more than 8 keys' in flags


def m_str(m, d):
    return {k: m[k] for k in m if isinstance(k, str)}


def m_strd(d):
    return {k: v for k, v in d.items() if isinstance(k, str)}
