"""C24: declared constraints bind every direct and indirect subclass."""
from hypothesis import strategies as st
import core
from core import fail, check, short
import fieldlib
from fieldlib import F, Oracle, publish, run_history, field_tok, global_tok, make_global, REC, CLS, NAMES
from gen import *
from pyrsistent import PRecord, PClass, CheckedPVector, CheckedPSet, CheckedPMap
import checks.c15 as c15


class Mixin0:
    __slots__ = ()

    def hello(self):
        return 'hello'


# bases: earlier classes; fields / global invariant for records; type / invariant tokens for collections
bases = st.lists(st.integers(0, 5), max_size=3)
rec_cls = st.tuples(bases, st.lists(field_tok, max_size=2), st.lists(global_tok, max_size=1), st.sampled_from([0, 0, 0, 1]))
coll_cls = st.tuples(bases, st.sampled_from([None, None] + list(range(1, len(c15.TYPES)))), st.sampled_from([None, None] + list(range(1, len(c15.TYPES)))),
                     st.sampled_from([0, 0, 1, 2, 3, 4]), st.sampled_from([0, 0, 0, 1]))


def strategies(spec):
    def short_ops(t):
        return oplist(op_strategy(t), 1, 8)
    rec = lambda k, t: st.fixed_dictionaries({'kind': st.just(k), 'classes': st.lists(rec_cls, min_size=3, max_size=5), 'target': st.integers(0, 9), 'shape': st.integers(0, len(SHAPES) - 1), 'names': st.integers(0, 3), 'gap': st.sampled_from([0, 0, 0, 0, 1, 3, 8, 15]),
                                              'ops': short_ops(t)})
    col = lambda k, t: st.fixed_dictionaries({'kind': st.just(k), 'classes': st.lists(coll_cls, min_size=3, max_size=5), 'target': st.integers(0, 9), 'shape': st.integers(0, len(SHAPES) - 1), 'names': st.integers(0, 3), 'gap': st.sampled_from([0, 0, 0, 0, 1, 3, 8, 15]),
                                              'ops': short_ops(t)})
    return [('records', rec('rec', REC), 2), ('classes', rec('cls', CLS), 2), ('vectors', col('vec', c15.VEC), 1),
            ('sets', col('set', c15.SET), 1), ('maps', col('map', c15.MAP), 1)]


SHAPES = [
    None, None,
    [[], [0], [1], [2], [3]],               # a line: fields may be declared again, the nearest declaration binds
    [[], [0], [0], [1, 2], [3]],            # diamond
    [[], [], [0, 1], [2], [3]],             # two roots
    [[], [], [], [0, 1, 2], [3]],
    [[], [0], [], [2], [1, 3]],
    [[], [0], [1], [0], [2, 3]],
    [[], [], [0, 1], [1, 0], [2]],
]


LINE = 2


class C:
    """One class of the hierarchy."""


def hierarchy(root, specs, namespace, prefix, shape, names=0, gap=0):
    """Create the classes; bases that Python itself refuses to combine are dropped."""
    out = []
    for i, spec in enumerate(specs):
        parents = []
        for b in spec[0]:
            if i and (b % i) not in parents:
                parents.append(b % i)
        if i and not parents:
            parents = [i - 1]
        if SHAPES[shape]:
            parents = list(SHAPES[shape][i])
        c = C()
        c.index = i
        while True:
            anc = set(parents)
            for p in parents:
                anc |= out[p].ancestors
            c.ancestors = anc
            own = namespace(c, spec, anc, out)
            # a base that is an ancestor of another base comes after it or is left out
            keep = [p for p in parents if not any(p in out[q].ancestors for q in parents)]
            bs = tuple(out[p].cls for p in keep) or (root,)
            if spec[-1]:
                bs = (type('Mixin%d' % i, (Mixin0,), {'__slots__': ()}),) + bs
            try:
                # classes may well have equal names
                c.cls = type(root)('%s%d' % (prefix, [i, i, 0, i % 2][names]), bs, dict(own))
                for j in range(gap if i == 0 else 0):      # a long line of classes that declare nothing
                    c.cls = type(root)('%sgap%d' % (prefix, j), (c.cls,), {})
                c.parents = keep
                break
            except TypeError as e:
                if len(parents) <= 1 or not any(w in str(e) for w in ('layout', 'lay-out', 'MRO', 'resolution')):
                    raise
                parents = parents[:-1]
        out.append(c)
    return out


def run_case(case, stats):
    kind = case['kind']
    if kind in ('rec', 'cls'):
        names = iter('g%d' % i for i in range(20))
        declared = {}
        if case['shape'] == LINE:
            names = iter('g%d' % (i % 3) for i in range(20))

        def namespace(c, spec, anc, out):
            if c.index not in declared:
                fs = {}
                for t in spec[1]:
                    n = next(names)
                    fs[n] = F(n, t, kind)
                declared[c.index] = fs
            c.fields = declared[c.index]
            c.globals = []
            d = {n: f.declare() for n, f in c.fields.items()}
            known = [n for a in sorted(anc) for n in out[a].fields] + list(c.fields)
            if spec[2] and known:
                inv, orc = make_global(spec[2][0], known)
                d['__invariant__'] = inv
                c.globals = [orc]
            return d
        cs = hierarchy(PRecord if kind == 'rec' else PClass, case['classes'], namespace, 'H', case['shape'], case.get('names', 0), case.get('gap', 0))
        t = cs[-1 - case['target'] % len(cs) if case['target'] < 5 else -1]
        fields, globs = {}, []
        for a in sorted(t.ancestors | {t.index}):
            if set(fields) & set(cs[a].fields):
                stats.hit('field declared again')
            fields.update(cs[a].fields)
            globs += cs[a].globals
        if not fields:
            return
        publish(t.cls)
        o = Oracle(kind, t.cls, fields, globs)
        r = run_history(o, case, stats)
        inherited = sum(len(cs[a].fields) + len(cs[a].globals) for a in t.ancestors)
        count(stats, t, cs)
        stats.nontrivial = inherited >= 1 and r.valid >= 1 and r.rejected >= 1
        return
    root = {'vec': CheckedPVector, 'set': CheckedPSet, 'map': CheckedPMap}[kind]
    invs = c15.MINVS if kind == 'map' else c15.INVS

    def namespace(c, spec, anc, out):
        d = {}
        c.t1 = c.t2 = None
        c.inv = 0
        # a class declares a type only if none of its ancestors has: what a second declaration means is not specified
        if spec[1] is not None and not any(out[a].t1 is not None for a in anc):
            c.t1 = spec[1]
            d['__key_type__' if kind == 'map' else '__type__'] = c15.TYPES[c.t1][0]
        if kind == 'map' and spec[2] is not None and not any(out[a].t2 is not None for a in anc):
            c.t2 = spec[2]
            d['__value_type__'] = c15.TYPES[c.t2][0]
        if spec[3]:
            c.inv = spec[3]
            d['__invariant__'] = invs[c.inv][0]
        return d
    cs = hierarchy(root, case['classes'], namespace, 'H', case['shape'], case.get('names', 0), case.get('gap', 0))
    t = cs[-1 - case['target'] % len(cs) if case['target'] < 5 else -1]
    line = [cs[a] for a in sorted(t.ancestors | {t.index})]
    D = object.__new__(c15.Decl)
    D.kind, D.cls, D.parent = kind, t.cls, None
    D.name = t.cls.__name__
    publish_in(c15, t.cls)
    k1 = [c15.TYPES[c.t1][1] for c in line if c.t1 is not None]
    k2 = [c15.TYPES[c.t2][1] for c in line if c.t2 is not None]
    D.ok1 = (lambda x: any(f(x) for f in k1)) if k1 else lambda x: True
    D.ok2 = (lambda x: any(f(x) for f in k2)) if k2 else lambda x: True
    D.errs = [invs[c.inv][1] for c in line if c.inv]
    D.nested = False
    D.converts = any(c.t1 is not None and c15.has_inner(c.t1) or c.t2 is not None and c15.has_inner(c.t2) for c in line)
    D.plain = {'vec': c15.Plain, 'set': c15.PlainSet, 'map': c15.PlainMap}[kind]
    D.sibling = D.plain
    if len(t.parents) == 1 and kind != 'map':
        # an instance of the parent class is checked again
        p = cs[t.parents[0]]
        D.parent = p.cls
        pl = [cs[a] for a in p.ancestors | {p.index}]
        errs = [invs[c.inv][1] for c in pl if c.inv]
        perr = lambda x: [e for f in errs for e in f(x)]
        own = D.errs
        D.errs = [perr] + ([invs[t.inv][1]] if t.inv else [])
    c15.run_with(D, case, stats)
    count(stats, t, cs)
    stats.nontrivial = stats.nontrivial and any(c.inv or c.t1 is not None or c.t2 is not None for c in line if c is not t)


def publish_in(mod, cls):
    setattr(mod, cls.__name__, cls)
    cls.__module__ = mod.__name__


def count(stats, t, cs):
    stats.hit('depth %d' % depth(t, cs))
    if len(t.parents) > 1:
        stats.hit('multiple inheritance')
    elif any(len(cs[a].parents) > 1 for a in t.ancestors):
        stats.hit('multiple inheritance above')


def depth(t, cs):
    return 1 + max([depth(cs[p], cs) for p in t.parents], default=0)
