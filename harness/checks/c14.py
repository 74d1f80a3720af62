"""C14: transform updates exactly the elements its path matches."""
import functools
import operator
import re
import types
import zlib
from hypothesis import strategies as st
import core
from core import fail, check, short, key, attempt, expect_exc
from gen import *
from pyrsistent import (pvector, pmap, PRecord, PClass, field, CheckedPVector, CheckedPMap, discard, ny, rex, inc, get_in)


class Rec(PRecord):
    a = field()
    b = field()
    k1 = field()
    k2 = field()
    copy = field()          # named like methods
    values = field()


class Cls(PClass):
    a = field()
    b = field()
    k1 = field()


class CV(CheckedPVector):
    pass


class CM(CheckedPMap):
    pass


MKEYS = ['a', 'b', 'k1', 'k2', 'k33', 0, 1, 2, None, (1, 2), core.Coll(1), core.Coll(2), core.Ident(5), 1.5, 'set', '', 'copy', 'values', 'ak1', 'ba', 'K1', False]
leaf = st.tuples(st.just('e'), st.integers(0, 40))
FALSY = [None, 0, '', False, (), 0.0, None, b'', 0, None]


def _ext(ch):
    some = st.one_of(st.lists(ch, max_size=4), st.tuples(ch, ch, ch).map(list))
    mp = st.lists(st.tuples(st.integers(0, len(MKEYS) - 1), ch), max_size=5)
    return st.one_of(
        st.tuples(st.just('vec'), some, st.sampled_from([1, 1, 1, 1, 11, 20, 1, 1, 1, 33, 270])),
        st.tuples(st.just('map'), mp, st.sampled_from([0, 0, 0, 12, 0, 0, 40])),
        st.tuples(st.just('vec'), some, st.just(1)),
        st.tuples(st.just('map'), mp, st.just(0)),
        st.tuples(st.just('rec'), ch, ch, st.integers(0, 7)),
        st.tuples(st.just('cls'), ch, ch, st.integers(0, 3)),
        st.tuples(st.just('cvec'), some),
        st.tuples(st.just('cmap'), mp),
    )


tree = st.recursive(leaf, _ext, max_leaves=14)
top = st.one_of(_ext(tree), _ext(_ext(tree)), _ext(_ext(_ext(leaf))))
step = st.tuples(st.integers(0, 20), st.integers(0, 20), st.integers(0, 5))
trans = st.tuples(st.lists(step, min_size=0, max_size=4), st.integers(0, 19), st.integers(0, 20), st.one_of(leaf, tree))


# chains of collections inside each other, and long paths into them
chain = st.tuples(st.just('deep'), st.lists(st.tuples(st.sampled_from(['vec', 'map', 'map', 'rec', 'cmap', 'cvec']), st.integers(0, 5)), min_size=4, max_size=14), tree)
lead = st.tuples(st.integers(0, 5), st.integers(0, 3), st.integers(0, 5))
long_trans = st.tuples(st.lists(st.one_of(lead, lead, lead, step), min_size=4, max_size=16), st.integers(0, 19), st.integers(0, 20), st.one_of(leaf, tree))


def strategies(spec):
    return [('transform', st.fixed_dictionaries({'x': top, 'ts': st.lists(trans, min_size=1, max_size=4),
                                                 'gets': st.lists(st.lists(st.integers(0, 12), max_size=4), max_size=2)}), 6),
            ('deep', st.fixed_dictionaries({'x': chain, 'ts': st.lists(long_trans, min_size=1, max_size=3),
                                            'gets': st.lists(st.lists(st.integers(0, 12), max_size=16), max_size=2)}), 1),
            ('many', st.fixed_dictionaries({'x': top, 'ts': st.lists(trans, min_size=5, max_size=16), 'gets': st.just([])}), 1)]


def build(s, room=600):
    """The structure; room bounds the factor by which wide collections inside each other multiply."""
    k = s[0]
    if k == 'e':
        t = s[1]
        return t * 1000 if t < 20 else key(t) if t < 31 else FALSY[t - 31]
    if k in ('vec', 'cvec'):
        times = s[2] if k == 'vec' and s[2] <= room else 1
        c = [build(x, room // times) for x in s[1]]
        if k == 'cvec':
            return CV(c)
        return pvector(c * times)
    if k in ('map', 'cmap'):
        more = s[2] if k == 'map' and s[2] <= room else 0
        d = {MKEYS[a]: build(b, room // (more or 1)) for a, b in s[1]}
        if k == 'map':
            if more and d:
                first = next(iter(d.values()))
                for i in range(more):
                    d['x%d' % i] = first
            return pmap(d)
        return CM(d)
    if k == 'deep':
        x = build(s[2], 40)
        for kind, more in s[1]:
            if kind in ('vec', 'cvec'):
                x = (pvector if kind == 'vec' else CV)([x] + list(range(more)))
            elif kind == 'rec':
                x = Rec(a=x, b=more)
            else:
                x = (pmap if kind == 'map' else CM)({'a': x, 0: more} if more else {'a': x})
        return x
    cls = Rec if k == 'rec' else Cls
    kw = {'a': build(s[1], room)}
    if s[3] & 1:
        kw['b'] = build(s[2], room)
    if s[3] & 2:
        kw['k1'] = build(s[2], room)
    if s[3] & 4:
        kw['copy'] = build(s[2], room)
    return cls(**kw)


PV, PM = type(pvector()), type(pmap())
FIELDS = {'rec': ['a', 'b', 'k1', 'k2', 'copy', 'values'], 'cls': ['a', 'b', 'k1']}


class N:
    """A node of the model.  obj: the persistent value it stands for while unchanged."""
    __slots__ = ('kind', 'ch', 'obj')

    def __init__(self, kind, ch, obj):
        self.kind, self.ch, self.obj = kind, ch, obj


def model(x):
    t = type(x)
    if t is PV or t is CV:
        return N('vec' if t is PV else 'cvec', [model(e) for e in x], x)
    if t is PM or t is CM or t is Rec:
        return N({PM: 'map', CM: 'cmap', Rec: 'rec'}[t], {k: model(v) for k, v in x.items()}, x)
    if t is Cls:
        return N('cls', {f: model(getattr(x, f)) for f in FIELDS['cls'] if hasattr(x, f)}, x)
    return x


TYPES = {'vec': PV, 'cvec': CV, 'map': PM, 'cmap': CM, 'rec': Rec, 'cls': Cls}


class Expected(Exception):
    def __init__(self, typ):
        self.typ = typ


MISSING = object()


def is_seq(n):
    return n.kind in ('vec', 'cvec')


def matches(n, st_):
    """[(key, child)] of the model for a path step (kind, literal or predicate)."""
    if st_[0] == 'bad':
        raise Expected(ValueError)
    if st_[0] == 'lit':
        k = st_[1]
        if is_seq(n):
            i = k + len(n.ch) if k < 0 else k
            return [(k, n.ch[i] if 0 <= i < len(n.ch) else MISSING)]
        return [(k, n.ch.get(k, MISSING))]
    items = list(enumerate(n.ch)) if is_seq(n) else list(n.ch.items())
    return [(k, v) for k, v in items if st_[2](k, v)]


def apply(n, path, cmd):
    if not path:
        return cmd.model(n)
    m = matches(n, path[0])
    ch = list(n.ch) if is_seq(n) else dict(n.ch)
    changed = False
    if len(path) == 1 and cmd.discard:
        if is_seq(n):
            dead = {k + len(ch) if k < 0 else k for k, v in m}
            ch = [c for i, c in enumerate(ch) if i not in dead]
            changed = bool(dead)
        else:
            for k, v in m:
                if v is not MISSING:
                    del ch[k]
                    changed = True
        return N(n.kind, ch, None) if changed else n
    for k, v in m:
        empty = v is MISSING
        if empty:
            if cmd.discard:
                continue
            v = N('map', {}, None)
        r = apply(v, path[1:], cmd)
        if r is not v or empty:
            if is_seq(n):
                i = k + len(ch) if k < 0 else k
                if 0 <= i < len(ch):
                    ch[i] = r
                elif k == len(ch):
                    ch.append(r)
                else:
                    raise Expected(IndexError)
            else:
                if n.kind in FIELDS and k not in FIELDS[n.kind]:
                    raise Expected(AttributeError)
                ch[k] = r
            changed = True
    return N(n.kind, ch, None) if changed else n


class Box:
    def __init__(self, x):
        self.x = x


class Call:
    """All of them are equal, what they do differs."""

    def __init__(self, result):
        self.result = result

    def __call__(self, x):
        return self.result

    def method(self, x):
        return self.result

    def __eq__(self, other):
        return type(other) is Call

    def __hash__(self):
        return 1


class Cmd:
    """A command and what it means in the model."""
    discard = False

    def __init__(self, kind, tok, sub):
        kind = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 1, 5, 12, 13, 14, 15, 16, 3][kind]
        self.kind = kind
        if kind == 5 or kind == 8:
            self.discard = True
            self.real = discard
        elif kind == 0:
            self.value = ('const', tok)
            self.real = self.value
        elif kind == 1:
            self.value = build(sub, 45)
            self.real = self.value
            self.m = model(self.value)
        elif kind == 2:
            self.real = lambda x: x + 1 if type(x) is int else x
        elif kind == 3:
            self.real = lambda x: x
        elif kind == 4:
            self.real = lambda x: ('size', tok) if hasattr(x, 'evolver') else ('leaf', x)
        elif kind == 6:
            self.marker = ('marker', tok)
            self.real = lambda x: self.marker
        elif kind == 9:
            self.value = FALSY[tok % len(FALSY)]
            self.real = self.value
        elif kind == 10:
            self.real = lambda x: x - 1
        elif kind == 11:
            # bound to an argument
            self.real = functools.partial(lambda how, x: ('size', how) if hasattr(x, 'evolver') else ('leaf', x), tok)
        elif kind == 12:
            # classes, callable objects, methods and builtins
            self.real = Box
        elif kind == 13:
            self.real = type
        elif kind == 14:
            self.marker = ('called', tok)
            self.real = Call(self.marker)
        elif kind == 15:
            self.marker = ('method', tok)
            self.real = Call(self.marker).method
        elif kind == 16:
            self.real = operator.neg
        else:
            self.real = inc
        if callable(self.real) and not self.discard and kind == 1:
            self.real = self.value = ('noncallable', tok)
            self.m = self.value

    def applicable(self, nodes):
        """inc needs integers."""
        if self.kind in (7, 10, 16):
            return all(type(n) in (int, float) for n in nodes)
        if self.kind == 13:
            return all(not isinstance(n, N) and not hasattr(type(n), 'evolver') for n in nodes)
        return True

    def model(self, n):
        k = self.kind
        if k == 0:
            return self.value
        if k == 1:
            return self.m
        if k == 2:
            return n + 1 if type(n) is int else n
        if k == 3:
            return n
        if k == 9:
            return self.value
        if k == 10:
            return n - 1
        if k in (4, 11):
            return ('size', None) if isinstance(n, N) else ('leaf', n)
        if k in (6, 14, 15):
            return self.marker
        if k == 12:
            return Box(n)
        if k == 13:
            return TYPES[n.kind] if isinstance(n, N) else type(n)
        if k == 16:
            return -n
        return n + 1


def crc(k):
    return zlib.crc32(repr(k).encode() if not isinstance(k, core.Ident) else b'ident')


PATTERNS = ['k.*', 'k1', 'a|b', '', 'x[0-4]$', 'zz', 'k[0-9]+$', '[0-9]', '1', '3|b', '(?i)k', 'a$', '^k', '(?=.*1)']


class Even:
    def __init__(self, m, r):
        self.m, self.r = m, r

    def __call__(self, k):
        return crc(k) % self.m == self.r

    def key_is(self, k):
        return self(k)

    def both(self, k, v):
        return self(k) and not hasattr(v, 'evolver')

    @staticmethod
    def static(k):
        return crc(k) % 2


def _two(k, v):
    return crc(k) % 2 == 0 and v is not None


class Same1:
    def __init__(self, r):
        self.r = r

    def __call__(self, k):
        return crc(k) % 2 == self.r

    def __eq__(self, other):
        return isinstance(other, Same1)

    def __hash__(self):
        return 7


class Same2(Same1):
    def __call__(self, k, v):
        return crc(k) % 2 == self.r

    __hash__ = Same1.__hash__


def _kw(flag, k, *, how=True):
    return crc(k) % 2 == flag if how else False


def _same(k, v):
    return k == v if not isinstance(v, N) else False


def make_step(tok, nodes):
    """A path step that is meaningful for all nodes: (kind, real, model predicate)."""
    mode, a, b = tok
    n = nodes[0]
    has_cls = any(x.kind == 'cls' for x in nodes)
    if mode <= 4 or has_cls:
        seqs = [x for x in nodes if is_seq(x)]
        if seqs:
            if len(seqs) != len(nodes):
                if has_cls:
                    return None
                return ('pred', ny, lambda k, v: True)
            size = len(seqs[a % len(seqs)].ch)
            if mode == 4:
                i = [size, -1, size + 3, -size, size, -size - 1][b]
            else:
                i = a % size if size else 0
            return ('lit', i)
        if has_cls:
            common = [f for f in FIELDS['cls'] if all(f in x.ch for x in nodes)]
            if not common:
                return None
            return ('lit', common[a % len(common)])
        if mode <= 2:
            own = list(n.ch)
            if own:
                return ('lit', own[a % len(own)])
        k = MKEYS[(a + b) % len(MKEYS)]
        if callable(k):
            k = 'a'
        return ('lit', k)
    m, r = b % 3 + 1, a % 3 % (b % 3 + 1)
    if mode == 5:
        return ('pred', ny, lambda k, v: True)
    if mode == 6:
        p = PATTERNS[a % len(PATTERNS)]
        c = re.compile(p)
        return ('pred', rex(p), lambda k, v: isinstance(k, str) and c.match(k) is not None)
    if mode == 7:
        return ('pred', lambda k: crc(k) % m == r, lambda k, v: crc(k) % m == r)
    if mode == 8:
        return ('pred', Even(m, r), lambda k, v: crc(k) % m == r)
    if mode == 9:
        return ('pred', lambda k, v: crc(k) % m == r and hasattr(v, 'evolver'), lambda k, v: crc(k) % m == r and isinstance(v, N))
    if mode == 10:
        return ('pred', lambda key, value: not hasattr(value, 'evolver') and type(value) is int and value % 3 == r,
                lambda k, v: type(v) is int and v % 3 == r)
    if mode == 11:
        return ('pred', lambda k, extra=5: crc(k) % m == r, lambda k, v: crc(k) % m == r)
    if mode == 12:
        # callables that Python does not define itself, and methods
        return [('pred', operator.truth, lambda k, v: bool(k)), ('pred', operator.not_, lambda k, v: not k),
                ('pred', operator.eq, _same), ('pred', callable, lambda k, v: False),
                ('pred', Even(m, r).key_is, lambda k, v: crc(k) % m == r),
                ('pred', Even(m, r).both, lambda k, v: crc(k) % m == r and not isinstance(v, N)),
                ('pred', Even.static, lambda k, v: crc(k) % 2),
                ('pred', {0: 1, 'k1': 1, None: 1}.__contains__, lambda k, v: k in (0, 'k1', None))][a % 8]
    if mode == 13:
        return [('pred', functools.partial(_kw, r), lambda k, v: crc(k) % 2 == r),
                ('pred', functools.partial(_kw, r, how=False), lambda k, v: False),
                ('pred', functools.partial(operator.eq, 'k1'), lambda k, v: k == 'k1'),
                ('pred', functools.partial(operator.ne, 1), lambda k, v: k != 1)][a % 4]
    if mode == 14:
        return [('pred', lambda k, /: crc(k) % m == r, lambda k, v: crc(k) % m == r),
                ('pred', lambda k, /, v: crc(k) % m == r and v is not None, lambda k, v: crc(k) % m == r and v is not None),
                ('pred', lambda k, *more: crc(k) % m == r and not more, lambda k, v: crc(k) % m == r),
                ('pred', lambda k, v, extra=3, **kw: crc(k) % m == r and extra == 3 and not kw, lambda k, v: crc(k) % m == r),
                ('pred', lambda k, *, only=5: crc(k) % m == r and only == 5, lambda k, v: crc(k) % m == r)][a % 5]
    if mode == 15:
        # any true value counts as a match, any false one does not
        return [('pred', lambda k: [1] if crc(k) % m == r else [], lambda k, v: crc(k) % m == r),
                ('pred', lambda k: None if crc(k) % m == r else 'yes', lambda k, v: crc(k) % m != r),
                ('pred', lambda k, v: v, lambda k, v: bool(v.ch) if isinstance(v, N) and v.kind != 'cls' else bool(v))][a % 3]
    if mode == 17 or mode == 18:
        # of different arity, written on one line, and with one body but different defaults
        f, g, i = (lambda k: crc(k) % m == r), (lambda k, v: crc(k) % m == r and hasattr(v, 'evolver')), (lambda k, v=0: crc(k) % m == r)
        j = types.FunctionType(_two.__code__, globals(), '_two', (r,))
        q = lambda k, v: crc(k) % m == r
        return [('pred', f, q), ('pred', g, lambda k, v: crc(k) % m == r and isinstance(v, N)), ('pred', i, q), ('pred', _two, lambda k, v: crc(k) % 2 == 0 and v is not None),
                ('pred', j, lambda k, v: crc(k) % 2 == 0), ('pred', Same1(r), lambda k, v: crc(k) % 2 == r), ('pred', Same2(r), lambda k, v: crc(k) % 2 == r)][a % 7]
    if mode == 16 and a < 6 and all(x.ch for x in nodes):
        return ('bad', [lambda: True, lambda k, v, w: True, lambda *all: True, lambda **all: True,
                        functools.partial(_kw, 1, 2), lambda k=1: True][a])
    p = PATTERNS[(a + 7) % len(PATTERNS)]
    c = re.compile(p)
    return ('pred', rex(p), lambda k, v: isinstance(k, str) and c.match(k) is not None)


def judge(x, n, what):
    if not isinstance(n, N):
        if type(n) is tuple and n and n[0] == 'size' and type(x) is tuple and len(x) == 2 and x[0] == 'size':
            return
        if type(n) is tuple and len(n) == 2 and n[0] == 'leaf':
            check(type(x) is tuple and len(x) == 2 and x[0] == 'leaf', '%s: %s, expected %s', what, short(x), short(n))
            judge(x[1], n[1], what)
            return
        if type(n) is Box:
            check(type(x) is Box, '%s: %s, expected %s', what, short(x), short(n))
            judge(x.x, n.x, what)
            return
        check(x is n or (type(x) is type(n) and type(n) in (int, float) and x == n), '%s: %s, expected %s', what, short(x), short(n))
        return
    if n.obj is not None:
        check(x is n.obj, '%s: untouched part is not the same object: %s', what, short(x))
        return
    check(type(x) is TYPES[n.kind], '%s: %s became %s', what, n.kind, short(x))
    if is_seq(n):
        check(len(x) == len(n.ch), '%s: length %d, expected %d', what, len(x), len(n.ch))
        for i, (a, b) in enumerate(zip(x, n.ch)):
            judge(a, b, '%s[%d]' % (what, i))
    elif n.kind == 'cls':
        for f in FIELDS['cls']:
            check(hasattr(x, f) == (f in n.ch), '%s.%s: present: %s', what, f, hasattr(x, f))
            if f in n.ch:
                judge(getattr(x, f), n.ch[f], '%s.%s' % (what, f))
    else:
        check(len(x) == len(n.ch), '%s: keys %s, expected %s', what, short(list(x)), short(list(n.ch)))
        for k, c in n.ch.items():
            check(k in x, '%s: key %s missing', what, short(k))
            judge(x[k], c, '%s[%s]' % (what, short(k, 40)))


def run_case(case, stats):
    x = build(case['x'])
    n0 = n = model(x)
    args = []
    real_changes = 0
    depth_max = 0
    expected = None
    for toks, ck, ct, sub in case['ts']:
        if not isinstance(n, N):
            break
        cmd = Cmd(ck, ct, sub)
        path = []
        nodes = [n]
        for tok in toks:
            if not nodes or not all(isinstance(q, N) for q in nodes):
                break
            s = make_step(tok, nodes)
            if s is None:
                break
            path.append(s)
            if s[0] == 'bad':
                nodes = []
                break
            nxt = []
            for q in nodes:
                for k, v in matches(q, s):
                    if v is MISSING:
                        v = N('map', {}, None)
                    nxt.append(v)
            nodes = nxt
        if not path and cmd.discard:
            continue
        if cmd.discard and path[-1][0] == 'lit' and not any(s[0] == 'bad' for s in path):
            # discarding a vector index that is not there is not specified, nor is a missing class field
            par = [n]
            for s in path[:-1]:
                par = [v for q in par for k, v in matches(q, s) if v is not MISSING]
            if any(is_seq(q) and matches(q, path[-1])[0][1] is MISSING for q in par if isinstance(q, N)):
                continue
        if not cmd.applicable(nodes):
            continue
        depth_max = max(depth_max, len(path))
        steps = [s[1] for s in path]
        args += [tuple(steps) if ct % 5 == 4 else pvector(steps) if ct % 7 == 6 else steps, cmd.real]
        try:
            n2 = apply(n, path, cmd)
        except Expected as e:
            expected = e.typ
            stats.hit('expected %s' % e.typ.__name__)
            break
        if n2 is not n:
            real_changes += 1
        else:
            stats.hit('transformation without effect')
        if cmd.discard:
            stats.hit('discard')
        n = n2
    before = deep(x)
    if expected:
        expect_exc(expected, x.transform, *args)
    else:
        r = x.transform(*args)
        if n is n0:
            check(r is x, 'transform without effect gave a different object: %s', short(r))
        judge(r, n, 'result')
    check(deep(x) == before, 'transform changed its input')
    for g in case['gets']:
        read(x, n0, g)
    stats.nontrivial = depth_max >= 2 and real_changes >= 1


def deep(x):
    n = model(x)

    def f(n):
        if not isinstance(n, N):
            return id(n)
        if is_seq(n):
            return (n.kind, id(n.obj), [f(c) for c in n.ch])
        return (n.kind, id(n.obj), {id(k): f(c) for k, c in n.ch.items()})
    return f(n)


def read(x, n, toks):
    path = []
    q = n
    for t in toks:
        if isinstance(q, N) and q.kind != 'cls':
            if is_seq(q):
                k = t - 3
                path.append(k)
                i = k + len(q.ch) if k < 0 else k
                q = q.ch[i] if 0 <= i < len(q.ch) else MISSING
            else:
                own = list(q.ch)
                k = own[t % len(own)] if own and t % 3 else 'nokey'
                path.append(k)
                q = q.ch.get(k, MISSING)
        elif isinstance(q, N):
            path.append('a')
            q = MISSING             # class instances are not subscriptable
        else:
            break
        if q is MISSING:
            break
    d = object()
    if q is not MISSING:
        for dflt in (0, None, 'd'):
            e = q.obj if isinstance(q, N) else q
            check(get_in(path, x, dflt) is e and get_in(tuple(path), x, default=dflt) is e,
                  'get_in %s with default %s gives %s, expected %s', short(path), dflt, short(get_in(path, x, dflt)), short(e))
    else:
        check(get_in(path, x, 0) == 0 and get_in(path, x, default='d') == 'd', 'get_in %s: default', short(path))
    r = get_in(path, x, d)
    if q is MISSING:
        check(r is d and get_in(path, x) is None, 'get_in %s of a missing path gives %s', short(path), short(r))
        expect_exc((KeyError, IndexError, TypeError), get_in, path, x, no_default=True)
        expect_exc((KeyError, IndexError, TypeError), get_in, path, x, 'd', True)
        expect_exc((KeyError, IndexError, TypeError), get_in, tuple(path), x, default=d, no_default=True)
    else:
        e = q.obj if isinstance(q, N) else q
        check(r is e and get_in(path, x, no_default=True) is e and get_in(path, x, d, True) is e, 'get_in %s gives %s, expected %s', short(path), short(r), short(e))
