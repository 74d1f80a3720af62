"""C22: an immutable tuple type updates only the requested, unfrozen members."""
import keyword
from collections import namedtuple
from hypothesis import strategies as st
import core
from core import fail, check, short, expect_exc, attempt, key, val
from gen import *
from pyrsistent import immutable

WORDS = ['x', 'y', 'id_', 'z', 'name_', 'a1', 'kwargs', 'fields_to_modify', 'frozen_fields', 'value', 'long_name_', 'X', 'b_c', 'd__', 'args',
         'index_', 'members', 'f', 'item', 'key_', 'cls_', 'none', 'e', 'frozen_', 'map_']
# any other identifier that a named tuple accepts as a member and that is not the name of the method
ident = st.from_regex(r'\A[a-zA-Z][a-zA-Z0-9_]{0,7}\Z').filter(lambda w: not keyword.iskeyword(w) and w != 'set')
NAMES = ['Point', 'Immutable', 'P2', 'Long_Name', 'Rec']


class Refused(Exception):
    pass


def strategies(spec):
    upd = st.lists(st.tuples(st.integers(0, 30), st.integers(0, 200)), max_size=5)
    upd = st.one_of(upd, upd, st.lists(st.tuples(st.integers(0, 30), st.integers(0, 200)), max_size=14))
    table = {'set': (6, [pool_tok, upd]), 'set_none': (1, [pool_tok]), 'new': (2, [st.lists(st.integers(0, 200), min_size=9, max_size=9), st.integers(0, 4)]),
             'read': (1, [pool_tok]), 'assign': (1, [pool_tok, st.integers(0, 9)]), 'one': (3, [pool_tok, st.integers(0, 30), st.integers(0, 200)]),
             'all': (1, [pool_tok, st.integers(0, 200)]), 'keep': (1, [pool_tok])}
    return [('types', case(1, 12, table, members=st.one_of(st.lists(st.integers(0, len(WORDS) - 1), max_size=8, unique=True), st.lists(st.integers(0, len(WORDS) - 1), min_size=8, max_size=24, unique=True), st.lists(st.one_of(ident, st.integers(0, len(WORDS) - 1)), max_size=6, unique=True)), form=st.integers(0, 5),
                           name=st.integers(0, len(NAMES) - 1), sub=st.lists(st.integers(0, 5), max_size=3)), 1)]


def value(t):
    return val(t) if t < 60 else key(t - 60) if t < 160 else [t] if t % 2 else {'k': t}


def flags(t):
    return type(t) is int and t >= 14 and t % 5 == 4


def run_case(case, stats):
    ms = list(dict.fromkeys(WORDS[i] if type(i) is int else i for i in case['members']))
    form = case['form']
    spec = [', '.join(ms), ' '.join(ms), ms, tuple(ms), ','.join(ms), '  '.join(ms) + ' '][form]
    name = NAMES[case['name']]
    base = immutable(spec, name=name) if case['name'] != 1 else immutable(spec)
    cls = base
    validators = []
    calls = []
    for i, kind in enumerate(case['sub']):
        d = {'__slots__': ()}
        if kind % 3 == 1:
            def mk(i, parent):
                def __new__(cls, *args, **kw):
                    calls.append(i)
                    self = parent.__new__(cls, *args, **kw)
                    if any(flags(v) for v in self):
                        raise Refused(i)
                    return self
                return __new__
            d['__new__'] = mk(i, cls)
            validators.append(i)
        elif kind % 3 == 2:
            d['extra'] = lambda self: ('extra', len(self))
        cls = type('Sub%d' % i, (cls,), d)
    n = len(ms)
    frozen = {m for m in ms if m.endswith('_')}
    refuse = bool(validators)

    def model_ok(vals):
        return not (refuse and any(flags(v) for v in vals))

    def verify(p, vals, what):
        check(type(p) is cls, '%s: result is a %s', what, type(p).__name__)
        check(len(p) == n and tuple.__len__(p) == n and all(a is b for a, b in zip(p, vals)), '%s: %s, expected %s', what, short(p), short(vals))
        for m, v in zip(ms, vals):
            check(getattr(p, m) is v, '%s: %s is %s, expected %s', what, m, short(getattr(p, m)), short(v))
        check(isinstance(p, tuple) and p == tuple(vals), '%s: not equal to the tuple', what)
        check(p._asdict() == dict(zip(ms, vals)) and p._fields == tuple(ms), '%s: as a dict', what)

    pool = []

    def put(p, vals, what):
        verify(p, vals, what)
        if len(pool) < 8:
            pool.append((p, vals))
        else:
            pool[(len(pool) + case['form']) % 8] = (p, vals)

    vals = [i * 10 for i in range(n)]
    put(cls(*vals), vals, 'constructor')
    sets = refusals = 0
    for op in case['ops']:
        what = op[0]
        stats.hit(what)
        if what == 'new':
            vals = [value(t) for t in (op[1] * 4)[:n]]
            kw = dict(zip(ms, vals))
            f = [lambda: cls(*vals), lambda: cls(**kw), lambda: cls(*vals[:n // 2], **{m: kw[m] for m in ms[n // 2:]}),
                 lambda: cls(*vals, 1), lambda: cls(*vals[:-1])][op[2]]
            if op[2] == 3 or op[2] == 4 and n:
                expect_exc(TypeError, f)
            elif model_ok(vals):
                put(f(), vals, 'constructor')
            else:
                expect_exc(Refused, f)
            continue
        p, vals = pool[op[1] % len(pool)]
        before = list(vals)
        if what == 'set_none':
            check(p.set() is p, 'set() gives another object')
        elif what == 'read':
            verify(p, vals, 'read')
            check(hash(p) == hash(tuple(vals)) if all(not isinstance(v, (list, dict)) for v in vals) else True, 'hash')
            if all(type(v) is int for v in vals):
                want = '%s(%s)' % (cls.__name__, ', '.join('%s=%r' % z for z in zip(ms, vals)))
                check(repr(p) == want, 'repr is %s, expected %s', repr(p), want)
        elif what == 'assign':
            m = ms[op[2] % n] if n and op[2] < 8 else 'brandnew'
            expect_exc(AttributeError, setattr, p, m, 1)
            if m in ms:
                expect_exc(AttributeError, delattr, p, m)
        else:
            if what == 'set':
                ch = [(t, value(v)) for t, v in op[2]]
                kw = {}
                for t, v in ch:
                    free = [m for m in ms if m not in frozen]
                    if t >= 28:
                        kw[['nomember', 'xx', 'set'][t - 28]] = v
                    elif t >= 24 and frozen:
                        kw[sorted(frozen)[t % len(frozen)]] = v
                    elif free:
                        kw[free[t % len(free)]] = v
            elif what == 'one':
                kw = {(ms + ['nomember', 'set', 'y2'])[op[2] % (n + 3)]: value(op[3])}
            elif what == 'keep':        # the values it already has, as different objects where possible
                kw = {m: v for m, v in zip(ms, vals) if m not in frozen}
            else:
                kw = {m: value(op[2]) for m in ms if m not in frozen}
            if not kw:
                check(p.set(**kw) is p, 'set() gives another object')
                continue
            bad = [m for m in kw if m not in ms or m in frozen]
            new = [kw.get(m, v) for m, v in zip(ms, vals)]
            given = dict(kw)
            del calls[:]
            if bad:
                refusals += 1
                stats.hit('frozen or unknown member')
                expect_exc(AttributeError, p.set, **kw)
            elif not model_ok(new):
                refusals += 1
                stats.hit('refused by the constructor of a subclass')
                expect_exc(Refused, p.set, **kw)
            else:
                sets += 1
                q = p.set(**kw)
                put(q, new, 'set %s' % short(given))
                check(set(calls) >= set(validators), 'set does not go through the constructors of the subclass')
        verify(p, before, 'original after ' + what)
    for p, vals in pool:
        verify(p, vals, 'at the end')
    stats.nontrivial = n >= 2 and sets >= 1 and (refusals >= 1 or bool(case['sub']))
