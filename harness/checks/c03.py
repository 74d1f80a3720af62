"""C03: the C and pure Python vectors are interchangeable.

Every program runs twice: here, with the C extension, and in a second interpreter with the pure Python vector.
"""
import atexit
import copy
import hashlib
import operator
import os
import pickle
from collections.abc import Hashable, Sequence
from hypothesis import strategies as st
import core
import veclib
from core import fail, check, short, key, KEYS, HarnessError
from gen import *

sub = st.integers(0, 11)
elem_tok = st.integers(0, 90)
ODD = [None, 'x', 1.0, 1.5, True, False, (), [], 2 ** 63, -2 ** 63 - 1, 2 ** 200, object, 'abc', (1, 2), {}, {3}, b'ab', 0, 1, -1, 2]
odd = st.integers(0, len(ODD) - 1)


def table(sizes):
    return {
        'new': (2, [sizes, st.integers(0, 3), st.integers(0, 9)]),
        'append': (2, [sub, elem_tok]),
        'extend': (2, [sub, sizes, st.integers(0, 9)]),
        'extend_vec': (1, [sub, sub]),
        'set': (3, [sub, idx_tok, elem_tok]),
        'mset': (2, [sub, st.lists(st.tuples(idx_tok, elem_tok), max_size=4), st.booleans()]),
        'delete': (2, [sub, idx_tok]),
        'delete2': (2, [sub, bound_tok, bound_tok]),
        'remove': (1, [sub, elem_tok, st.booleans()]),
        'get': (2, [sub, idx_tok]),
        'slice': (3, [sub, slice_tok]),
        'index': (2, [sub, elem_tok, st.lists(idx_tok, max_size=2)]),
        'indexnear': (2, [sub, idx_tok, near_tok, near_tok]),
        'count': (1, [sub, elem_tok]),
        'in': (1, [sub, elem_tok]),
        'add': (2, [sub, st.integers(0, 9), sub]),
        'radd': (1, [sub, st.integers(0, 9), sub]),
        'mul': (1, [sub, st.integers(-2, 4), st.booleans()]),
        'compare': (3, [sub, sub, st.integers(0, 5), st.integers(0, 9)]),
        'hash': (1, [sub]),
        'repr': (1, [sub]),
        'iter': (1, [sub, st.integers(0, 70)]),
        'reversed': (1, [sub]),
        'misc': (2, [sub, st.integers(0, 12), sub]),
        'odd1': (2, [sub, st.integers(0, 16), odd]),
        'odd2': (2, [sub, st.integers(0, 9), odd, odd]),
        'transform': (2, [sub, st.integers(0, 7), idx_tok, elem_tok]),
        'e_new': (3, [sub]),
        'e_set': (4, [sub, idx_tok, elem_tok, st.booleans()]),
        'e_append': (2, [sub, elem_tok]),
        'e_extend': (2, [sub, size_small, st.integers(0, 9)]),
        'e_del': (2, [sub, idx_tok, st.booleans()]),
        'e_get': (2, [sub, idx_tok]),
        'e_persist': (4, [sub]),
        'e_dirty': (2, [sub]),
        'e_odd': (1, [sub, st.integers(0, 9), odd, odd]),
        'e_misc': (1, [sub, st.integers(0, 5)]),
        'm_op': (3, [sub, st.integers(0, 14), elem_tok, elem_tok]),
        's_op': (2, [sub, st.integers(0, 12), elem_tok, sub]),
    }


def strategies(spec):
    init = lambda s: st.lists(st.tuples(s, st.integers(0, 3)), min_size=1, max_size=2)
    return [
        ('programs', case(1, 30, table(size_mid), init=init(size_mid)), 8),
        ('large', case(1, 12, table(size_any), init=init(size_any)), 1),
    ]


# ------------------------------------------------------------------ interpreter (runs on both sides)

class NeverEq:
    """Not even equal to itself, like nan."""

    def __eq__(self, other):
        return False

    def __ne__(self, other):
        return True

    __hash__ = object.__hash__


class AlwaysEq:
    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return True

    __hash__ = object.__hash__


ODDEQ = [float('nan'), NeverEq(), AlwaysEq()]


def elem(n):
    """Elements of vectors, which do not need a sensible equality."""
    return ODDEQ[n % 3] if 82 <= n < 91 else key(n)


def content(size, pat, off=0):
    if pat == 3:
        return [elem((off + i) % 90) for i in range(size)]
    return veclib.content(size, pat, off)


def canon(x, depth=0):
    """A text that identifies the value, independent of the vector implementation and of addresses."""
    from pyrsistent import PVector, PMap, PSet
    if isinstance(x, PVector):
        return 'V' + items(x, depth)
    if isinstance(x, PMap):
        return 'M{%s}' % ','.join(sorted('%s:%s' % (canon(k, depth + 1), canon(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, PSet):
        return 'S{%s}' % ','.join(sorted(canon(e, depth + 1) for e in x))
    t = type(x)
    if t is list:
        return 'L' + items(x, depth)
    if t is tuple:
        return 'T' + items(x, depth)
    if t in (set, frozenset):
        return '%s{%s}' % (t.__name__, ','.join(sorted(canon(e, depth + 1) for e in x)))
    if t is dict:
        return 'D{%s}' % ','.join(sorted('%s:%s' % (canon(k, depth + 1), canon(v, depth + 1)) for k, v in x.items()))
    if t is slice:
        return 'slice'
    if x is NotImplemented:
        return 'NotImplemented'
    if t in (int, float, str, bool, bytes, complex, type(None), core.Coll, core.Ident, core.BadNe):
        return repr(x)
    if isinstance(x, type):
        return 'class ' + x.__name__
    if callable(x) and hasattr(x, '__name__'):
        return x.__name__
    return 'instance of ' + t.__name__


def items(x, depth):
    c = ','.join([canon(e, depth + 1) for e in x])
    if len(c) > 300:
        c = '%d:%s' % (len(x), hashlib.blake2b(c.encode(), digest_size=10).hexdigest())
    return '[' + c + ']'


class Vec:
    """Marker: result goes into the pool of vectors."""


def run(case):
    from pyrsistent import pvector, pmap, pset, PVector, freeze, thaw, v as vfun, ny, discard, inc
    out = []
    vecs = [pvector(content(s, p)) for s, p in case['init']]
    evs, maps, sets = [], [pmap({key(i): i for i in range(5)})], [pset([key(i) for i in range(4)])]
    extra = {'n': 0}
    base = {}

    def contents(e):
        return [id(e[i]) for i in range(len(e))]

    def keep(pool, x, cap):
        if len(pool) < cap:
            pool.append(x)
        else:
            extra['n'] += 1
            pool[extra['n'] % cap] = x

    CMP = [operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge]

    def other(kind, i, v):
        w = vecs[i % len(vecs)]
        return [w, w, v.tolist(), tuple(v), list(w), 5, None, v.set(-1, 'z') if len(v) else v, pvector(v.tolist()), 'ab'][kind]

    def do(op):
        name = op[0]
        if name == 'new':
            return pvector(veclib.iterable_of(op[3], content(op[1], op[2], 100), pvector))
        if name.startswith('e_'):
            if name == 'e_new' or not evs:
                e = vecs[op[1] % len(vecs)].evolver()
                keep(evs, e, 4)
                base[id(e)] = e, contents(e)
                if name == 'e_new':
                    return None
            e = evs[op[1] % len(evs)]
            n = len(e)
            if name == 'e_set':
                i = idx(op[2], n)
                if op[4]:
                    return e.set(i, elem(op[3])) is e
                e[i] = elem(op[3])
                return None
            if name == 'e_append':
                return e.append(elem(op[2])) is e
            if name == 'e_extend':
                if n > 5000:
                    return None
                e.extend(veclib.iterable_of(op[3], content(op[2], 0, 50), pvector))
                return None
            if name == 'e_del':
                i = idx(op[2], n)
                if op[3]:
                    return e.delete(i) is e
                del e[i]
                return None
            if name == 'e_get':
                return e[idx(op[2], n)]
            if name == 'e_persist':
                p = e.persistent()
                base[id(e)] = e, contents(e)
                return p
            if name == 'e_dirty':
                # not specified for an evolver that was written to and has its old contents again
                d = e.is_dirty()
                return d if contents(e) != base[id(e)][1] else 'same'
            if name == 'e_odd':
                a, b = ODD[op[3]], ODD[op[4]]
                if type(a) is float:
                    return None
                return [lambda: e.__getitem__(a), lambda: e.__setitem__(a, b), lambda: e.__delitem__(a), lambda: e.delete(a) is e,
                        lambda: e.set(a, b) is e, lambda: e.extend(a) is e, lambda: e.append(), lambda: e.persistent(a),
                        lambda: e.set(a), lambda: e.is_dirty(a)][op[2]]()
            if name == 'e_misc':
                return [lambda: len(e), lambda: bool(e) if n else None, lambda: e.persistent() is e.persistent(),
                        lambda: [e[i] for i in range(min(n, 70))],
                        lambda: e[0:1] and 0, lambda: [e[-1], e[n - 1]]][op[2]]()
        if name == 'm_op':
            m = maps[op[1] % len(maps)]
            k, x = key(op[3]), key(op[4])
            w = op[2]
            if w == 0:
                r = m.set(k, x)
            elif w == 1:
                r = m.remove(k)
            elif w == 2:
                r = m.discard(k)
            elif w == 3:
                r = m.update({k: x, x: k})
            elif w == 4:
                return m[k]
            elif w == 5:
                return [k in m, m.get(k, 'none'), len(m)]
            elif w == 6:
                r = pmap({key(i): i for i in range(op[3] + op[4])}, pre_size=op[1] * 7)
            elif w == 7:
                return [m == maps[-1], m != maps[0], hash(m) == hash(pmap(dict(m)))]
            elif w == 8:
                e = m.evolver()
                for i in range(op[4]):
                    e.set(key(op[3] + i), i)
                e.remove(key(op[3] + 1))
                r = e.persistent()
            elif w == 9:
                return [sorted(map(canon, m.keys())), sorted(map(canon, m.values())), sorted(map(canon, m.items()))]
            elif w == 10:
                return repr(m) if len(m) == 1 else m
            elif w == 11:
                r = m.update_with(lambda p, q: (p, q), maps[-1], {k: x})
            elif w == 12:
                r = pickle.loads(pickle.dumps(pmap({q: y for q, y in m.items() if type(q) in (str, int)})))
            elif w == 13:
                r = m.set(k, vecs[op[4] % len(vecs)])
            else:
                r = m.transform([k], x)
            keep(maps, r, 3)
            return r
        if name == 's_op':
            s = sets[op[1] % len(sets)]
            t = sets[op[4] % len(sets)]
            x = key(op[3])
            w = op[2]
            if w == 5:
                return [x in s, len(s), s == t, s <= t, s > t, s.isdisjoint(t)]
            if w == 6:
                return hash(s) == hash(pset(list(s)))
            r = [lambda: s.add(x), lambda: s.remove(x), lambda: s.discard(x), lambda: s | t, lambda: s & t, None, None,
                 lambda: s - t, lambda: s ^ t, lambda: s.update([key(op[3] + i) for i in range(op[4] * 5)]),
                 lambda: pset(vecs[op[4] % len(vecs)]), lambda: maps[op[4] % len(maps)].keys(),
                 lambda: s.evolver().add(x).add(key(op[4])).persistent()][w]()
            keep(sets, r, 3)
            return r
        v = vecs[op[1] % len(vecs)]
        n = len(v)
        if name == 'append':
            return v.append(elem(op[2]))
        if name == 'extend':
            return v.extend(veclib.iterable_of(op[3], content(op[2], 0, 200), pvector)) if n + op[2] < 36000 else None
        if name == 'extend_vec':
            w = vecs[op[2] % len(vecs)]
            return v.extend(w) if n + len(w) < 36000 else None
        if name == 'set':
            return v.set(idx(op[2], n), elem(op[3]))
        if name == 'mset':
            args = []
            for t, e in op[2]:
                args += [idx(t, n), elem(e)]
            if op[3]:
                args.append(0)
            return v.mset(*args)
        if name == 'delete':
            return v.delete(idx(op[2], n))
        if name == 'delete2':
            return v.delete(0 if op[2] is None else idx(op[2], n), None if op[3] is None else idx(op[3], n))
        if name == 'remove':
            return v.remove(v[op[2] % n] if op[3] and n else elem(op[2]))
        if name == 'get':
            return v[idx(op[2], n)]
        if name == 'slice':
            return v[mkslice(op[2], n)]
        if name == 'index':
            return v.index(v[op[2] % n] if n and op[2] % 2 else elem(op[2]), *[idx(t, n) for t in op[3]])
        if name == 'indexnear':
            if not n:
                return None
            p = inr(op[2], n)
            a, b = near(op[3], p, n), near(op[4], p, n)
            return v.index(v[p], *([] if a is None else [a] + ([] if b is None else [b])))
        if name == 'count':
            return v.count(elem(op[2]))
        if name == 'in':
            return elem(op[2]) in v
        if name in ('add', 'radd'):
            o = other(op[2], op[3], v)
            return v + o if name == 'add' else o + v
        if name == 'mul':
            if n * op[2] > 36000:
                return None
            return v * op[2] if op[3] else op[2] * v
        if name == 'compare':
            return CMP[op[3]](v, other(op[4], op[2], v))
        if name == 'hash':
            h1 = hash(v)
            return [h1 == hash(pvector(v.tolist())), hash(v) == h1]
        if name == 'repr':
            return [repr(v), str(v)] if all(type(x) is int for x in v) else None
        if name == 'iter':
            it = iter(v)
            r = [next(it) for _ in range(min(op[2], n))]
            return [r, list(it), list(it), iter(it) is it]
        if name == 'reversed':
            return list(reversed(v))
        if name == 'misc':
            w = vecs[op[3] % len(vecs)]
            return [lambda: isinstance(v, PVector), lambda: [isinstance(v, Sequence), isinstance(v, Hashable)],
                    lambda: copy.copy(v), lambda: pickle.loads(pickle.dumps([x for x in v if type(x) in (int, str)] and
                                                                            pvector([x for x in v if type(x) in (int, str)]), 4)),
                    lambda: copy.deepcopy(v[:5]) if all(type(x) in (int, str, tuple) for x in v[:5]) else 0, lambda: len(v),
                    lambda: bool(v), lambda: v.tolist(), lambda: thaw(v), lambda: freeze(v.tolist()),
                    lambda: [v is v[:], v.evolver().persistent() is v],
                    lambda: v.count(v),
                    lambda: {v: 1}.get(pvector(v.tolist())), ][op[2]]()
        if name == 'odd1':
            a = ODD[op[3]]
            if op[2] in (0, 4) and type(a) is float:
                return None         # positions are integers
            return [lambda: v[a], lambda: v.append(a), lambda: v.extend(a), lambda: v + a, lambda: v.delete(a), lambda: v.remove(a),
                    lambda: v.index(a), lambda: v.count(a), lambda: a in v, lambda: pvector(a), lambda: v.set(a), lambda: v.mset(a),
                    lambda: v == a, lambda: v < a, lambda: a == v, lambda: type(hash(v.append(a))), lambda: v.tolist(a)][op[2]]()
        if name == 'odd2':
            a, b = ODD[op[3]], ODD[op[4]]
            if op[2] in (0, 1, 2, 5, 9) and float in (type(a), type(b)) or op[2] == 2 and a is None:
                return None         # positions are integers, and a range has a start
            return [lambda: v.set(a, b), lambda: v.mset(a, b), lambda: v.delete(a, b), lambda: v.append(a, b),
                    lambda: v.extend(a, b), lambda: v[a:b], lambda: v.mset(0, a, 0, b), lambda: v.count(a, b), lambda: v.remove(a, b),
                    lambda: v.mset(-1, b, a, b)][op[2]]()
        if name == 'transform':
            i, x = idx(op[3], n), elem(op[4])
            if n > 2200 and op[2] != 0:
                return None
            if callable(x):
                x = 1
            return [lambda: v.transform([i], x), lambda: v.transform([ny], lambda q: x), lambda: v.transform([i], lambda q: (q, x)),
                    lambda: v.transform([lambda k: k % 3 == 0], discard),
                    lambda: v.transform([lambda k: k % 40 == 0], x, [0], x) if n else None,
                    lambda: v.transform([lambda k, q: q == x], discard), lambda: v.transform([], lambda q: q),
                    lambda: v.transform([i], inc)][op[2]]()
        raise HarnessError(name)

    for op in case['ops']:
        try:
            r = do(op)
        except Exception as e:
            out.append('raises ' + type(e).__name__)
        else:
            out.append(canon(r))
            if isinstance(r, PVector):
                keep(vecs, r, 6)
        for e in evs:
            out[-1] += ' |e %d %s' % (len(e), canon(e[len(e) - 1]) if len(e) else '')
    out.append([canon(v) for v in vecs])
    out.append([canon(e.persistent()) for e in evs])
    return out


def answer(req):
    import sys
    from pyrsistent import pvector
    if 'pvectorc' in sys.modules or os.environ.get('VERIF_CONFIG') != 'py':
        return {'helper_error': 'not the pure Python configuration'}
    return {'out': run(req)}


# ------------------------------------------------------------------ comparing side

_h = [None]


def helper():
    if _h[0] is None:
        from helper import Helper
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        _h[0] = Helper('checks.c03', {'PYRSISTENT_NO_C_EXTENSION': '1', 'VERIF_CONFIG': 'py', 'LD_PRELOAD': None,
                                      'PYTHONPATH': os.pathsep.join([os.environ['VERIF_BUILD_PY'], here, '/repo'])})
        atexit.register(_h[0].close)
    return _h[0]


def run_case(case, stats):
    helper().send(case)
    try:
        mine = run(case)
    finally:
        ans = helper().receive()
    if ans is None:
        _h[0] = None
        fail('the pure Python interpreter died')
    if 'helper_error' in ans:
        raise HarnessError(ans['helper_error'] + ans.get('tb', ''))
    theirs = ans['out']
    for i, (a, b) in enumerate(zip(mine, theirs)):
        if i < len(case['ops']):
            stats.hit(case['ops'][i][0])
            if isinstance(a, str) and a.startswith('raises'):
                stats.hit(a.split(' |')[0])
        if a != b:
            fail('%s: C: %s; Python: %s', case['ops'][i] if i < len(case['ops']) else 'final contents', short(a, 400), short(b, 400))
    check(len(mine) == len(theirs), 'length of the traces')
    stats.nontrivial = len(case['ops']) >= 4 and sum(1 for a in mine[:-2] if not a.startswith(('raises', 'None'))) >= 3
