"""C13: freeze and thaw are deep, faithful inverses."""
import collections
from hypothesis import strategies as st
import core
from core import fail, check, short, key, Ident, Violation
from gen import *
from pyrsistent import (freeze, thaw, mutant, pvector, pmap, pset, plist, pdeque, pbag, v, m, PRecord, PClass, field, CheckedPVector,
                        CheckedPMap, CheckedPSet)

PV, PM, PS = type(pvector()), type(pmap()), type(pset())


class Rec(PRecord):
    a = field()
    b = field()


class Cls(PClass):
    a = field()


class CV(CheckedPVector):
    pass


class CM(CheckedPMap):
    pass


class CS(CheckedPSet):
    pass


# subclasses of the container types are not container types of these functions: they stay what they are
Point = collections.namedtuple('Point', 'x y')


class SubList(list):
    pass


class SubSet(set):
    pass


leaf = st.one_of(st.tuples(st.just('e'), key_tok), st.tuples(st.just('o'), st.integers(0, 10)))
keys = st.integers(0, 60)


def tree(kinds):
    def ext(ch):
        some = st.lists(ch, max_size=4)
        mp = st.lists(st.tuples(keys, ch), max_size=4)
        table = {
            'list': st.tuples(st.just('list'), some),
            'dict': st.tuples(st.just('dict'), mp),
            'defaultdict': st.tuples(st.just('defaultdict'), mp),
            'tuple': st.tuples(st.just('tuple'), some),
            'vec': st.tuples(st.just('vec'), some),
            'map': st.tuples(st.just('map'), mp),
            'rec': st.tuples(st.just('rec'), ch, ch),
            'cvec': st.tuples(st.just('cvec'), some),
            'cmap': st.tuples(st.just('cmap'), mp),
        }
        wide = st.tuples(st.just('wide'), st.sampled_from([k for k in kinds if k not in ('rec',)]), ch,
                         st.sampled_from([5, 31, 32, 33, 40, 65, 130]))
        twice = st.tuples(st.just('twice'), st.sampled_from([k for k in kinds if k not in ('rec', 'dict', 'defaultdict', 'map', 'cmap')]),
                          ch, st.integers(2, 4))
        deep = st.tuples(st.just('deep'), st.sampled_from([k for k in kinds if k not in ('rec',)]), ch, st.sampled_from([6, 15, 17, 24, 40]))
        return st.one_of(*([table[k] for k in kinds] * 2 + [wide, twice, deep]))
    sets = []
    if 'list' in kinds:
        sets.append(st.tuples(st.just('set'), st.lists(keys, max_size=5)))
    if 'vec' in kinds:
        sets.append(st.tuples(st.just('pset'), st.lists(keys, max_size=5), st.integers(0, 2)))
    base = st.one_of(leaf, *sets)
    t = st.recursive(base, ext, max_leaves=12)
    return st.one_of(t, ext(t), ext(ext(t)))


PY = ['list', 'dict', 'defaultdict', 'tuple', 'list', 'dict']
PER = ['vec', 'map', 'tuple', 'vec', 'map']
MIX = ['list', 'dict', 'tuple', 'vec', 'map', 'list', 'dict', 'vec', 'map']
MIXD = MIX + ['defaultdict']


def strategies(spec):
    return [
        ('python', st.fixed_dictionaries({'mode': st.just('py'), 'x': tree(PY), 'chain': st.sampled_from([0, 0, 0, 1, 1, 2, 2, 3, 4])}), 3),
        ('persistent', st.fixed_dictionaries({'mode': st.just('per'), 'x': tree(PER), 'chain': st.sampled_from([0, 0, 0, 1, 1, 2, 2, 3, 4])}), 2),
        ('mixed', st.fixed_dictionaries({'mode': st.just('mix'), 'x': tree(MIXD), 'strict': st.booleans()}), 3),
        ('thawmix', st.fixed_dictionaries({'mode': st.just('thaw'), 'x': tree(MIX + ['rec', 'cvec', 'cmap']), 'strict': st.booleans()}), 2),
        ('mutant', st.fixed_dictionaries({'mode': st.just('mutant'), 'args': st.lists(tree(MIXD), max_size=3),
                                          'kw': st.lists(st.tuples(st.integers(0, 5), tree(MIXD)), max_size=2),
                                          'ret': tree(MIXD), 'echo': st.booleans()}), 2),
    ]


def E(t):
    return key(t)


def others(t):
    return [plist([1, [2]]), pdeque([3]), pbag([1, 1]), Cls(a=[1, {2: 3}]), frozenset([1, 2]), Ident(9), Point(1, [2]),
            collections.OrderedDict([(1, [2])]), SubList([1, [2]]), collections.deque([1, [2]]), SubSet([1])][t]


def wrapped(k, c, d):
    if k in ('list', 'tuple', 'vec', 'cvec'):
        return c if k == 'list' else tuple(c) if k == 'tuple' else pvector(c) if k == 'vec' else CV(c)
    if k == 'defaultdict':
        return collections.defaultdict(list, d)
    return d if k == 'dict' else pmap(d) if k == 'map' else CM(d)


def build(s):
    k = s[0]
    if k == 'e':
        return E(s[1])
    if k == 'o':
        return others(s[1])
    if k == 'wide':
        # many elements, the last of them the given structure, some before it as well
        n = s[3]
        c = [build(s[2]) if i in (n - 1, n // 2, 0) else i for i in range(n)]
        return wrapped(s[1], c, {i: e for i, e in enumerate(c)})
    if k == 'deep':
        x = build(s[2])
        for i in range(s[3]):
            x = wrapped(s[1], [x], {i: x})
        return x
    if k == 'twice':
        # one object in several places, next to an equal but different one
        x = build(s[2])
        return wrapped(s[1], [x] * s[3] + [build(s[2])], None)
    if k in ('list', 'tuple', 'vec', 'cvec'):
        c = [build(x) for x in s[1]]
        return c if k == 'list' else tuple(c) if k == 'tuple' else pvector(c) if k == 'vec' else CV(c)
    if k in ('dict', 'defaultdict', 'map', 'cmap'):
        d = {E(a): build(b) for a, b in s[1]}
        if k == 'defaultdict':
            return collections.defaultdict(list, d)
        return d if k == 'dict' else pmap(d) if k == 'map' else CM(d)
    if k == 'rec':
        return Rec(a=build(s[1]), b=build(s[2]))
    if k == 'set':
        return {E(a) for a in s[1]}
    e = [E(a) for a in s[1]]
    return pset(e) if s[2] == 0 else CS(e) if s[2] == 1 else pmap(dict.fromkeys(e, 1)).keys()


DICTS = (dict, collections.defaultdict)


def snap(x):
    """Identity snapshot of everything reachable through containers of both sides."""
    t = type(x)
    if t is list or t is tuple or isinstance(x, (PV, CheckedPVector)):
        return (t, id(x), [snap(e) for e in x])
    if t in DICTS or isinstance(x, PM):
        return (t, id(x), {id(k): snap(v) for k, v in x.items()}, len(x))
    if t is set or isinstance(x, PS):
        return (t, id(x), {id(k) for k in x}, len(x))
    return id(x)


def check_frozen(x, f, strict, path='value'):
    """f is what freeze(x, strict) must be."""
    t = type(x)
    if t in DICTS or (strict and t is PM):
        check(type(f) is PM, '%s: %s became %s', path, t.__name__, type(f).__name__)
        check(len(f) == len(x), '%s: %d keys became %d', path, len(x), len(f))
        for k in x:
            check(k in f, '%s: key %s lost', path, short(k))
            check_frozen(x[k], f[k], strict, '%s[%s]' % (path, short(k, 30)))
    elif t is list or (strict and t is PV):
        check(type(f) is PV, '%s: %s became %s', path, t.__name__, type(f).__name__)
        check(len(f) == len(x), '%s: length %d became %d', path, len(x), len(f))
        for i, (a, b) in enumerate(zip(x, f)):
            check_frozen(a, b, strict, '%s[%d]' % (path, i))
    elif t is tuple:
        check(type(f) is tuple and len(f) == len(x), '%s: tuple became %s', path, short(f))
        for i, (a, b) in enumerate(zip(x, f)):
            check_frozen(a, b, strict, '%s[%d]' % (path, i))
    elif t is set:
        check(type(f) is PS, '%s: set became %s', path, type(f).__name__)
        check({id(e) for e in f} == {id(e) for e in x} and len(f) == len(x), '%s: set contents differ', path)
    else:
        check(f is x, '%s: %s was not left as it is: %s', path, short(x), short(f))


def check_thawed(x, f, strict, path='value'):
    t = type(x)
    if isinstance(x, PM) or (strict and t is dict):
        check(type(f) is dict, '%s: %s became %s', path, t.__name__, type(f).__name__)
        check(len(f) == len(x), '%s: %d keys became %d', path, len(x), len(f))
        for k in x:
            check(k in f, '%s: key %s lost', path, short(k))
            check_thawed(x[k], f[k], strict, '%s[%s]' % (path, short(k, 30)))
    elif isinstance(x, (PV, CheckedPVector)) or (strict and t is list):
        check(type(f) is list, '%s: %s became %s', path, t.__name__, type(f).__name__)
        check(len(f) == len(x), '%s: length %d became %d', path, len(x), len(f))
        for i, (a, b) in enumerate(zip(x, f)):
            check_thawed(a, b, strict, '%s[%d]' % (path, i))
    elif t is tuple:
        check(type(f) is tuple and len(f) == len(x), '%s: tuple became %s', path, short(f))
        for i, (a, b) in enumerate(zip(x, f)):
            check_thawed(a, b, strict, '%s[%d]' % (path, i))
    elif isinstance(x, PS):
        check(type(f) is set, '%s: %s became %s', path, t.__name__, type(f).__name__)
        check({id(e) for e in f} == {id(e) for e in x}, '%s: set contents differ', path)
    else:
        check(f is x, '%s: %s was not left as it is: %s', path, short(x), short(f))


def mutate(x, only=None):
    """Change every mutable container of the Python side reachable in x."""
    t = type(x)
    if t is list:
        for e in x:
            mutate(e)
        x.append('mutated')
        x[0] = 'mutated'
    elif t in DICTS:
        for e in x.values():
            mutate(e)
        for k in list(x):
            x[k] = 'mutated'
        x['new'] = 1
    elif t is set:
        x.clear()
        x.add('mutated')
    elif t is tuple or isinstance(x, (PV, CheckedPVector)):
        for e in x:
            mutate(e)
    elif isinstance(x, PM):
        for e in x.values():
            mutate(e)


def plain(x):
    """Equal structure with the containers thaw(freeze()) must give, built independently."""
    t = type(x)
    if t is list:
        return [plain(e) for e in x]
    if t in DICTS:
        return {k: plain(v) for k, v in x.items()}
    if t is tuple:
        return tuple(plain(e) for e in x)
    if t is set:
        return set(x)
    return x


def same_shape(a, b):
    if type(a) is not type(b):
        return False
    if type(a) in (list, tuple):
        return len(a) == len(b) and all(same_shape(x, y) for x, y in zip(a, b))
    if type(a) is dict:
        return len(a) == len(b) and all(k in b and same_shape(a[k], b[k]) for k in a)
    if type(a) is set:
        return a == b
    return a is b


def wrap(x, n, per):
    for i in range(n * 7 if n < 4 else 60 + n):
        x = (pvector([x]) if i % 2 else pmap({'k': x})) if per else ([x] if i % 2 else {'k': x})
    return x


def depth(s):
    return core.dumps(s).count('[')


def run_case(case, stats):
    mode = case['mode']
    stats.hit(mode)
    if mode == 'mutant':
        return run_mutant(case, stats)
    x = build(case['x'])
    if mode in ('py', 'per'):
        x = wrap(x, case['chain'], mode == 'per')
    before = snap(x)
    if mode == 'py':
        f = freeze(x)
        check_frozen(x, f, True)
        check(snap(x) == before, 'freeze modified its input: %s', short(x))
        expected = plain(x)
        back = thaw(f)
        check(same_shape(back, expected), 'thaw(freeze(x)) is %s, x is %s', short(back), short(x))
        fs = snap(f)
        check(snap(f) == fs, 'thaw changed the frozen value')
        g = freeze(x, strict=False)
        check_frozen(x, g, False)
        b2 = thaw(g, strict=False)
        check(same_shape(b2, expected), 'thaw(freeze(x)) with strict off is %s, x is %s', short(b2), short(x))
        mutate(x)
        check(snap(f) == fs, 'mutation of the input shows in the frozen value: %s', short(f))
        check_frozen(x, freeze(x), True, 'frozen again after a change')
        check_frozen(x, freeze(x, strict=False), False, 'frozen again after a change')
        mutate(back)
        check(snap(f) == fs, 'mutation of the thawed value shows in the frozen value: %s', short(f))
        check(same_shape(thaw(f), expected), 'thawed again after a change of the thawed value: %s', short(thaw(f)))
    elif mode == 'per':
        t = thaw(x)
        check_thawed(x, t, True)
        check(snap(x) == before, 'thaw modified its input')
        y = freeze(t)
        check(y == x, 'freeze(thaw(y)) is %s, y is %s', short(y), short(x))
        check_frozen(t, y, True)
        z = freeze(x)
        check(z == x, 'freeze of a frozen value differs: %s', short(z))
        mutate(t)
        check(snap(x) == before, 'mutation of the thawed value shows in the original: %s', short(x))
        check_thawed(x, thaw(x), True, 'thawed again')
    elif mode == 'mix':
        f = freeze(x, strict=case['strict']) if not case['strict'] else freeze(x)
        check_frozen(x, f, case['strict'])
        check(snap(x) == before, 'freeze modified its input: %s', short(x))
        fs = snap(f)
        if case['strict']:
            mutate(x)
            check(snap(f) == fs, 'mutation of the input shows in the frozen value: %s', short(f))
    else:
        t = thaw(x, strict=case['strict'])
        check_thawed(x, t, case['strict'])
        check(snap(x) == before, 'thaw modified its input: %s', short(x))
    stats.nontrivial = depth(case['x']) >= 3


def run_mutant(case, stats):
    args = [build(a) for a in case['args']]
    kw = {'kw%d' % a: build(b) for a, b in case['kw']}
    ret = build(case['ret'])
    before = snap([args, kw, ret])[2]
    seen = []

    @mutant
    def fn(*a, **k):
        seen.append((a, k))
        return (a, dict(k), ret) if case['echo'] else ret
    r = fn(*args, **kw)
    check(len(seen) == 1, 'mutant called the function %d times', len(seen))
    a, k = seen[0]
    check(len(a) == len(args) and set(k) == set(kw), 'mutant: arguments differ')
    for x, y in zip(args, a):
        check_frozen(x, y, True, 'mutant argument')
    for n in kw:
        check_frozen(kw[n], k[n], True, 'mutant keyword argument')
    check_frozen((a, dict(k), ret) if case['echo'] else ret, r, True, 'mutant result')
    check(snap([args, kw, ret])[2] == before, 'mutant modified its arguments')
    stats.nontrivial = depth(case['ret']) + sum(depth(a) for a in case['args']) >= 4
