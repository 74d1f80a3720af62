"""C16: a record instance always satisfies its field declarations."""
from hypothesis import strategies as st
from gen import case
from fieldlib import *
from pyrsistent import PRecord, PClass

KIND = 'rec'
BASE = PRecord
_cache = {}


# fields to which almost anything can be assigned
simple_tok = st.tuples(st.sampled_from([0, 1, 2, 3]), st.sampled_from([0, 0, 0, 0, 1, 4]), st.sampled_from([0, 0, 0, 1, 2]), st.integers(0, len(VALUES) - 1), st.sampled_from([False, False, True]), st.sampled_from([0, 0, 5]))
initial_tok = st.tuples(st.sampled_from([0, 1, 2, 3]), st.sampled_from([0, 0, 0, 4]), st.sampled_from([1, 1, 1, 2, 0]), st.integers(0, len(VALUES) - 1), st.sampled_from([False, False, True]), st.just(0))


def strategies(spec):
    t = REC if KIND == 'rec' else CLS
    return [('histories', case(1, 14, t, fields=st.one_of(st.lists(field_tok, min_size=1, max_size=5), st.lists(field_tok, min_size=3, max_size=5)), globals=st.lists(global_tok, max_size=1)), 5),
            ('wide', case(1, 10, t, fields=st.lists(field_tok, min_size=1, max_size=4), globals=st.lists(global_tok, max_size=1), wide=st.one_of(st.lists(simple_tok, min_size=6, max_size=22), st.lists(initial_tok, min_size=10, max_size=22))), 1)]


def declare(case, kind, base):
    toks = list(case['fields']) + list(case.get('wide', ()))
    key = core.dumps([kind, toks, case['globals']])
    if key in _cache:
        return _cache[key]
    fs = {NAMES[i]: F(NAMES[i], t, kind) for i, t in enumerate(toks)}
    d = {n: f.declare() for n, f in fs.items()}
    gs = [make_global(t, list(fs)) for t in case['globals']]
    if gs:
        d['__invariant__'] = gs[0][0]
    if len(_cache) > 50:
        _cache.clear()
    # all of them have the same name
    cls = publish(type(base)('D', (base,), dict(d, __qualname__='D%d' % len(_cache))))
    _cache[key] = Oracle(kind, cls, fs, [g[1] for g in gs])
    return _cache[key]


def run_case(case, stats):
    o = declare(case, KIND, BASE)
    r = run_history(o, case, stats)
    stats.nontrivial = r.valid >= 2 and r.rejected >= 1
