"""C25: collection fields hold only checked collections of the declared item types."""
import copy
import pickle
import sys
import types
from hypothesis import strategies as st
import core
from core import fail, check, short, attempt, expect_exc
from gen import *
from fieldlib import Foo, SubFoo, Color, Leaf, Inner, score
from pyrsistent import (PRecord, PClass, pvector, pset, pmap, plist, pvector_field, pset_field, pmap_field, CheckedPVector, CheckedPSet, CheckedPMap,
                        InvariantException, CheckedKeyTypeError, CheckedValueTypeError, PTypeError, ny, discard, v, PVector, PSet, PMap)

# other classes of the same name
class Outer:
    class Foo(Foo):
        pass


def _local():
    class Foo:
        def __init__(self, n):
            self.n = n

        def __eq__(self, other):
            return type(other) is type(self) and self.n == other.n

        def __hash__(self):
            return hash(self.n)

        def __len__(self):
            return self.n

        def __reduce__(self):
            return type(self), (self.n,)
    return Foo


for _i in range(2):
    # equal in every attribute but the module
    _f = _local()
    _f.__qualname__ = 'Foo'
    _f.__module__ = 'fieldlib%d' % _i
    sys.modules[_f.__module__] = types.ModuleType(_f.__module__)
    sys.modules[_f.__module__].Foo = _f
Foo0, Foo1 = sys.modules['fieldlib0'].Foo, sys.modules['fieldlib1'].Foo
CheckedTypeError = (CheckedKeyTypeError, CheckedValueTypeError)
ELEMS = [0, 1, 2, 3, -1, 7, 40, 5000, True, 'a', 'bb', '', 'ccc', None, 1.5, Foo(1), Foo(2), SubFoo(3), Color.RED, Color.BLUE, Leaf(q=1), Leaf(q=4),
         (1, 2), frozenset([1]), Inner([1]), 1.0, 2.0, 0.0, Foo0(1), Foo1(1), Outer.Foo(2)]
NEL = len(ELEMS)
TYPES = [
    (int, lambda x: isinstance(x, int)),
    (str, lambda x: isinstance(x, str)),
    ((int, str), lambda x: isinstance(x, (int, str))),
    ((str, int), lambda x: isinstance(x, (int, str))),
    ((int,), lambda x: isinstance(x, int)),
    (Foo, lambda x: isinstance(x, Foo)),
    ('fieldlib.SubFoo', lambda x: isinstance(x, SubFoo)),
    (Color, lambda x: isinstance(x, Color)),
    (Leaf, lambda x: isinstance(x, Leaf)),
    ((int, type(None)), lambda x: x is None or isinstance(x, int)),
    (SubFoo, lambda x: isinstance(x, SubFoo)),
    ((Foo, int), lambda x: isinstance(x, (Foo, int))),
    (float, lambda x: isinstance(x, float)),
    ((Color, str), lambda x: isinstance(x, (Color, str))),
    (Foo0, lambda x: isinstance(x, Foo0)),
    (Foo1, lambda x: isinstance(x, Foo1)),
    ('fieldlib1.Foo', lambda x: isinstance(x, Foo1)),
    (Outer.Foo, lambda x: isinstance(x, Outer.Foo)),
    ((Foo0, str), lambda x: isinstance(x, (Foo0, str))),
    ((Foo1, str), lambda x: isinstance(x, (Foo1, str))),
    ((bytes, str, Color, 'fieldlib.Foo', int), lambda x: isinstance(x, (str, Color, Foo, int))),
]
ITEM = [
    None,
    (lambda x: (score(x) % 2 == 0, 'odd item'), lambda x: score(x) % 2 == 0),
    (lambda x: ((score(x) != 1, 'one'), (score(x) < 40, 'big')), lambda x: score(x) != 1 and score(x) < 40),
    (lambda x: (score(x) != 7, lambda: 'seven'), lambda x: score(x) != 7),
]
FIELD = [
    None,
    (lambda c: (c is None or len(c) != 3, 'three'), lambda c: c is None or len(c) != 3),
    (lambda c: (c is not None, 'none'), lambda c: c is not None),
    (lambda c: ((c is None or len(c) < 4, 'long'),), lambda c: c is None or len(c) < 4),
]
some = st.lists(st.integers(0, 200), max_size=5)
# many items, valid ones except perhaps one
many = st.tuples(st.sampled_from([31, 32, 33, 40, 66]), st.integers(100, 200), st.integers(0, 70), st.integers(0, 200)).map(
    lambda t: [t[3] if i == t[2] else 100 + (t[1] + i * 7) % 100 for i in range(t[0])])
some = st.one_of(some, some, some, some, some, some, some, some, many)
# kind, item/key type, value type, optional, initial, item invariant, field invariant
decl = st.tuples(st.sampled_from(['vec', 'vec', 'set', 'set', 'map']), st.integers(0, len(TYPES) - 1), st.integers(0, len(TYPES) - 1), st.booleans(),
                 st.lists(st.integers(0, 30), max_size=3), st.sampled_from([0, 0, 1, 2, 3]), st.sampled_from([0, 0, 0, 1, 2, 3]))
fld = st.integers(0, 3)
src = st.tuples(some, st.integers(0, 9), st.integers(0, 4))
TABLE = {
    'new': (2, [st.lists(st.tuples(fld, src), max_size=4), st.integers(0, 2)]),
    'set': (6, [pool_tok, fld, src, st.integers(0, 3)]),
    'set_two': (2, [pool_tok, fld, src, fld, src]),
    'item': (4, [pool_tok, fld, st.integers(0, 200), st.integers(0, 5), st.integers(0, 4)]),
    'transform': (3, [pool_tok, fld, st.integers(0, 200), st.integers(0, 5)]),
    'pickle': (1, [pool_tok, st.integers(0, 3)]),
    'foreign': (2, [pool_tok, pool_tok, fld, fld]),
    'none': (1, [pool_tok, fld]),
}


def strategies(spec):
    return [('fields', case(1, 12, TABLE, kind=st.sampled_from(['rec', 'cls']), decls=st.lists(decl, min_size=1, max_size=4)), 1)]


BASES = {'vec': CheckedPVector, 'set': CheckedPSet, 'map': CheckedPMap}
COUNT = [0]


def same_types(a, b):
    if type(a) is list:
        return all(type(x) is type(y) for x, y in zip(a, b))
    return type(a) is set or all(type(a[k]) is type(b[k]) for k in a)


_checked = {}


def checked(base, **decl):
    k = repr((base, decl))
    if k not in _checked:
        _checked[k] = type(base)('Foreign', (base,), decl)
    return _checked[k]


class Fd:
    def __init__(self, tok):
        self.kind, t1, t2, self.optional, ini, item, fi = tok
        kw = {}
        self.t1, self.ok1 = TYPES[t1]
        self.t2, self.ok2 = TYPES[t2]
        self.item = self.finv = None
        self.pickles = True
        if self.kind != 'map' and ITEM[item]:
            # known finding: declarations with the same item type share the item invariant of the first of them,
            # so each declaration that has one gets an item type of its own
            COUNT[0] += 1
            fresh = type('Fresh%d' % COUNT[0], (), {'__module__': __name__})
            setattr(sys.modules[__name__], fresh.__name__, fresh)
            self.t1 = (self.t1 if isinstance(self.t1, tuple) else (self.t1,)) + (fresh,)
            kw['item_invariant'] = ITEM[item][0]
            self.item = ITEM[item][1]
        self.good = [e for e in ELEMS if self.valid_item(e)]
        self.good2 = [e for e in ELEMS if self.ok2(e)] if self.kind == 'map' else []
        if FIELD[fi]:
            kw['invariant'] = FIELD[fi][0]
            self.finv = FIELD[fi][1]
        self.initial = self.model([])
        if self.kind == 'map':
            self.decl = pmap_field(self.t1, self.t2, optional=self.optional, **kw)
        else:
            m = self.model([self.good[i % len(self.good)] for i in ini] if self.good else [])
            if self.optional and len(ini) == 2:
                kw['initial'] = None
                m = None
            elif ini:
                kw['initial'] = list(m)
            self.initial = m
            self.decl = (pvector_field if self.kind == 'vec' else pset_field)(self.t1, optional=self.optional, **kw)

    def valid_item(self, e):
        return self.ok1(e) and (self.item is None or self.item(e))

    def model(self, elems):
        return list(elems) if self.kind == 'vec' else set(elems) if self.kind == 'set' else dict(elems)

    def contents(self, c):
        return None if c is None else list(c) if self.kind == 'vec' else set(c) if self.kind == 'set' else dict(c.items())

    def judge(self, elems):
        """None, 'type' or 'inv' for a sequence of items / pairs."""
        if self.kind == 'map':
            return None if all(self.ok1(k) and self.ok2(x) for k, x in elems) else 'type'
        if not all(self.ok1(e) for e in elems):
            return 'type'
        return None if all(self.valid_item(e) for e in elems) else 'inv'

    def verify(self, c, m, what):
        if c is None:
            check(self.optional and m is None, '%s: None, expected %s', what, short(m))
            return
        check(isinstance(c, BASES[self.kind]), '%s: a %s', what, type(c).__name__)
        got = self.contents(c)
        check(got == m and len(c) == len(m) and same_types(got, m),
              '%s: %s, expected %s', what, short(c), short(m))
        check(self.judge(c.items() if self.kind == 'map' else c) is None, '%s: invalid contents %s', what, short(c))
        check(self.finv is None or self.finv(c), '%s: breaks the field invariant: %s', what, short(c))
        # the collection itself goes on refusing what the field would not accept
        for e in (object(), 1.25j):
            if self.kind == 'vec':
                expect_exc(CheckedTypeError, c.append, e)
            elif self.kind == 'set':
                expect_exc(CheckedTypeError, c.add, e)
            else:
                expect_exc(CheckedTypeError, c.set, e, e)
        check(c == {'vec': pvector, 'set': pset, 'map': pmap}[self.kind](m), '%s: not equal to the plain collection', what)

    def elem(self, t):
        if t < NEL:
            return ELEMS[t]
        return self.good[t % len(self.good)] if self.good else ELEMS[t % NEL]

    def elems(self, toks):
        if self.kind == 'map':
            ks = [self.elem(t) for t in toks]
            return list({k: (ELEMS[t % NEL] if t % 9 == 0 or not self.good2 else self.good2[(t // 2) % len(self.good2)]) for k, t in zip(ks, toks)}.items())
        return [self.elem(t) for t in toks]

    def source(self, tok):
        """(value to assign, elements or None, 'ok'/'bad'/'none')."""
        toks, w, x = tok
        e = self.elems(toks)
        if w == 9 and x == 0:
            return None, None, 'none'
        if w == 9 and x == 1:
            return [5, 0, False, 0.0][len(toks) % 4], None, 'bad'
        if w == 9 and x == 2:
            return object(), None, 'bad'
        if self.kind == 'map':
            if w == 8:
                return [1, 2], None, 'bad'
            d = dict(e)
            if w % 4 == 1:
                return pmap(d), e, 'ok'
            if w % 4 == 2:
                return CheckedPMap(d), e, 'ok'
            if w % 4 == 3:
                # a checked map that makes only half of the promises of the field, as far as the data allow
                if all(self.ok1(k) for k in d):
                    return checked(CheckedPMap, __key_type__=self.t1)(d), e, 'ok'
                if all(self.ok2(y) for y in d.values()):
                    return checked(CheckedPMap, __value_type__=self.t2)(d), e, 'ok'
            return d, e, 'ok'
        if self.kind == 'set':
            e = list(dict.fromkeys(e))
        if w == 7 and x and all(self.ok1(y) for y in e):
            # a checked collection that promises the item type, and nothing about the item invariant
            return checked(CheckedPSet if self.kind == 'set' and x > 1 else CheckedPVector, __type__=self.t1)(e), e, 'ok'
        if w == 8 and self.t1 is str:
            return 'xyz', ['x', 'y', 'z'], 'ok'
        return [list, tuple, iter, pvector, CheckedPVector, lambda y: (z for z in y), plist, lambda y: v(*y), list, tuple][w](e), e, 'ok'


def run_case(case, stats):
    base = PRecord if case['kind'] == 'rec' else PClass
    fds = {'c%d' % i: Fd(t) for i, t in enumerate(case['decls'])}
    cls = type(base)('Holder', (base,), dict({n: f.decl for n, f in fds.items()}, __module__=__name__))
    setattr(sys.modules[__name__], 'Holder', cls)
    names = list(fds)
    pool = []
    n_ok = n_bad = 0

    def verify(x, m, what):
        check(type(x) is cls, '%s: a %s', what, type(x).__name__)
        for n, f in fds.items():
            f.verify(getattr(x, n), m[n], '%s, field %s' % (what, n))
        check(case['kind'] == 'cls' or set(x) == set(fds), '%s: fields %s', what, short(x))

    def put(x, m, what):
        verify(x, m, what)
        if len(pool) < 6:
            pool.append((x, m))
        else:
            pool[(n_ok + n_bad) % 6] = (x, m)

    def assess(f, s):
        """'ok', 'type', 'inv' for assigning source s to field f, and the contents."""
        value, e, k = s
        if k == 'bad':
            return 'type', None
        if k == 'none':
            if not f.optional:
                return 'type', None
            m = None
        else:
            m = f.model(e)
            if f.t1 is not Leaf or f.kind == 'map':
                if f.kind == 'map' and f.t2 is Leaf or f.t1 is Leaf:
                    if not all(f.ok1(a) and f.ok2(b) for a, b in e):
                        return 'any', None       # create tries to convert the items
                j = f.judge(e)
                if j:
                    return j, None
            elif not all(f.ok1(a) for a in e):
                return 'any', None
            elif f.judge(e):
                return f.judge(e), None
        if f.finv and not f.finv(m):
            return 'inv', None
        return 'ok', m

    def attempt_change(fn, plan, m, what):
        """plan: [(field name, source)]."""
        nonlocal n_ok, n_bad
        mm = dict(m)
        verdicts = set()
        for n, s in plan:
            j, c = assess(fds[n], s)
            if j == 'ok':
                mm[n] = c
            else:
                verdicts.add(j)
        k, r = attempt(fn)
        if verdicts:
            n_bad += 1
            check(k == 'exc', '%s accepted: %s', what, short(r))
            if verdicts == {'type'}:
                check(isinstance(r, (TypeError, AttributeError)), '%s: raises %s', what, short(r))
            elif verdicts == {'inv'}:
                check(isinstance(r, InvariantException), '%s: raises %s', what, short(r))
            stats.hit('refused: ' + '/'.join(sorted(verdicts)))
            return
        if k == 'exc':
            fail('%s of valid data raises %s', what, short(r))
        n_ok += 1
        put(r, mm, what)

    initial = {n: f.initial for n, f in fds.items()}
    bad_initial = any(f.finv and not f.finv(f.initial) for f in fds.values())
    for op in case['ops']:
        name = op[0]
        stats.hit(name)
        if name == 'new' or not pool:
            plan = {}
            if name == 'new':
                for t, s in op[1]:
                    n = names[t % len(names)]
                    plan[n] = fds[n].source(s)
            kw = {n: s[0] for n, s in plan.items()}
            open_bad = [n for n, f in fds.items() if n not in kw and f.finv and not f.finv(f.initial)]
            if open_bad:
                expect_exc(Exception, lambda: cls(**kw))
                for n in open_bad:
                    kw[n] = plan.setdefault(n, fds[n].source(([100, 101], 0, 0)))[0]
                plan = {n: (list(s[1]), s[1], s[2]) if s[2] == 'ok' and fds[n].kind != 'map' else s for n, s in plan.items()}
                kw = {n: s[0] for n, s in plan.items()}
            f = (lambda: cls(**kw)) if name != 'new' or op[2] else (lambda: cls.create(kw))
            attempt_change(f, list(plan.items()), initial, 'constructor with %s' % short(kw, 80))
            continue
        x, m = pool[op[1] % len(pool)]
        if name == 'set':
            n = names[op[2] % len(names)]
            s = fds[n].source(op[3])
            w = op[4]
            if w == 0:
                fn = lambda: x.set(**{n: s[0]})
            elif w == 1:
                fn = lambda: x.set(n, s[0])
            elif w == 2 or case['kind'] == 'cls':
                fn = lambda: x.evolver().set(n, s[0]).persistent()
            else:
                fn = lambda: x.update({n: s[0]})
            attempt_change(fn, [(n, s)], m, 'assigning %s to %s' % (short(s[0], 80), n))
        elif name == 'set_two':
            n1, n2 = names[op[2] % len(names)], names[op[4] % len(names)]
            plan = {n1: fds[n1].source(op[3])}
            plan[n2] = fds[n2].source(op[5])
            attempt_change(lambda: x.set(**{n: s[0] for n, s in plan.items()}), list(plan.items()), m, 'assigning two')
        elif name == 'none':
            n = names[op[2] % len(names)]
            attempt_change(lambda: x.set(**{n: None}), [(n, (None, None, 'none'))], m, 'assigning None')
        elif name == 'foreign':
            # the contents of one field assigned to another, and to an equal one of another instance
            y, my = pool[op[2] % len(pool)]
            a, b = names[op[3] % len(names)], names[op[4] % len(names)]
            c = getattr(y, a)
            fa, fb = fds[a], fds[b]
            if c is None:
                s = (None, None, 'none')
            elif (fa.kind == 'map') != (fb.kind == 'map'):
                if fb.kind == 'map':
                    s = (c, None, 'bad')
                else:
                    s = (c, list(c), 'ok')
            else:
                s = (c, list(my[a].items()) if fa.kind == 'map' else list(c), 'ok')
            attempt_change(lambda: x.set(**{b: c}), [(b, s)], m, 'assigning the contents of field %s to %s' % (a, b))
        elif name == 'item':
            n = names[op[2] % len(names)]
            f = fds[n]
            c = getattr(x, n)
            if c is None:
                continue
            e = f.elem(op[3])
            i = op[4]
            if f.kind == 'vec':
                fn, new = [(lambda: c.append(e), m[n] + [e]), (lambda: c.extend([e, e]), m[n] + [e, e]),
                           (lambda: c.set(0, e), [e] + m[n][1:]), (lambda: c.evolver().append(e).persistent(), m[n] + [e]),
                           (lambda: c + [e], m[n] + [e])][op[5]]
                added = [e]
            elif f.kind == 'set':
                fn, new = (lambda: c.add(e)) if op[5] % 2 else (lambda: c.update([e])), m[n] | {e}
                added = [e]
            else:
                val = f.good2[i % len(f.good2)] if f.good2 and op[5] else ELEMS[op[3] % NEL]
                fn, new = (lambda: c.set(e, val)) if op[5] % 2 else (lambda: c.update({e: val})), {**m[n], e: val}
                added = [(e, val)]
            k, r = attempt(fn)
            j = f.judge(added)
            if j:
                n_bad += 1
                check(k == 'exc' and isinstance(r, CheckedTypeError if j == 'type' else InvariantException),
                      'adding %s to field %s gives %s', short(e), n, short(r))
            else:
                check(k == 'ok', 'adding %s to field %s raises %s', short(e), n, short(r))
                check(type(r) is type(c), 'adding an item gives a %s', type(r).__name__)
                attempt_change(lambda: x.set(**{n: r}), [(n, (r, list(new.items()) if f.kind == 'map' else list(new), 'ok'))], m, 'assigning after adding')
        elif name == 'transform':
            n = names[op[2] % len(names)]
            f = fds[n]
            c = getattr(x, n)
            if not c:
                continue
            e = f.elem(op[3])
            if callable(e):
                continue
            if f.kind == 'vec':
                i = op[4] % len(c)
                new = m[n][:i] + [e] + m[n][i + 1:]
                j = f.judge([e]) if e is not m[n][i] else None
                fn = lambda: x.transform([n, i], e)
            elif f.kind == 'map':
                k0 = list(m[n])[op[4] % len(c)]
                val = f.good2[op[3] % len(f.good2)] if op[4] < 3 else ELEMS[op[3] % NEL]
                if callable(k0) or callable(val):
                    continue
                new = {**m[n], k0: val}
                j = f.judge([(k0, val)]) if val is not m[n][k0] else None
                fn = lambda: x.transform([n, k0], val)
            else:
                new = m[n] | {e}
                j = f.judge([e])
                fn = lambda: x.transform([n], lambda q: q.add(e))
            k, r = attempt(fn)
            if not j and f.finv and not f.finv(new):
                j = 'inv'
            if j:
                n_bad += 1
                check(k == 'exc' and isinstance(r, TypeError if j == 'type' else InvariantException), 'transform of field %s gives %s', n, short(r))
            else:
                check(k == 'ok', 'transform of field %s with valid data raises %s', n, short(r))
                n_ok += 1
                put(r, {**m, n: new}, 'transform of field %s' % n)
        elif name == 'pickle':
            y = [lambda: copy.copy(x), lambda: copy.deepcopy(x), lambda: pickle.loads(pickle.dumps(x)), lambda: pickle.loads(pickle.dumps(x, 2))][op[2]]()
            verify(y, m, 'copy')
            for n in names:
                check(type(getattr(x, n)) is type(getattr(y, n)), 'copy of field %s is a %s', n, type(getattr(y, n)).__name__)
        verify(x, m, 'original after ' + name)
    for x, m in pool:
        verify(x, m, 'at the end')
    stats.nontrivial = n_ok >= 1 and n_bad >= 1 and any(c for _, m in pool for c in m.values())
