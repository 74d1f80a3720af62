"""C23: threads sharing persistent values see results as if run alone, under every interleaving.

The threads are real threads, but only the one that holds the baton runs.  A trace function of its own in each thread is called
before every source line (or every bytecode) of the library, the elements and the operations, and hands the baton on where the
schedule says so.
"""
import sys
import threading
import time
from hypothesis import strategies as st
import core
from core import fail, check, short
from gen import *
from anyops import *

SELF = __file__

# ------------------------------------------------------------------ what is compared


def canon(x, deep=6):
    """Contents and types of a result, independent of the identity of what was made during the operation."""
    if deep < 0:
        return '...'
    k = kind_of(x)
    d = deep - 1
    if k in ('vec', 'cvec', 'list', 'imm'):
        return (type(x).__name__, [canon(e, d) for e in x])
    if k == 'deque':
        return (type(x).__name__, x.maxlen, [canon(e, d) for e in x])
    if k in ('map', 'cmap', 'rec'):
        return (type(x).__name__, sorted(((canon(p, d), canon(q, d)) for p, q in x.items()), key=repr), len(x))
    if k in ('set', 'cset', 'bag'):
        return (type(x).__name__, sorted((canon(e, d) for e in x), key=repr), len(x))
    if k == 'cls':
        return ('Cls', [canon(getattr(x, f, 'unset'), d) for f in ('a', 'b', 'c', 'xs', 'mp')])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [canon(e, d) for e in x])
    if isinstance(x, dict):
        return ('dict', sorted(((canon(p, d), canon(q, d)) for p, q in x.items()), key=repr))
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, sorted((canon(e, d) for e in x), key=repr))
    if isinstance(x, BaseException):
        return ('raised', type(x).__name__)
    if isinstance(x, CheckedPVector) or isinstance(x, CheckedPSet):
        return (type(x).__name__, sorted((canon(e, d) for e in x), key=repr))
    if isinstance(x, PRecord) or isinstance(x, CheckedPMap):
        return (type(x).__name__, sorted(((canon(p, d), canon(q, d)) for p, q in x.items()), key=repr))
    if isinstance(x, (int, float, str, bool, type(None))):
        return (type(x).__name__, x)
    return (type(x).__name__, getattr(x, 'n', None))


# ------------------------------------------------------------------ operations on the module itself

def _declare_rec(x, a, b, o):
    item = [int, str, float, (int, str), bool][a % 5]

    class Loc(PRecord):
        xs = pvector_field(item)
        ss = pset_field(item, optional=b % 2 == 0)
        mp = pmap_field(item, item)
        n = field(type=(int, str), initial=a)
    bad = []
    for q in (object(), None, 3.5j):
        try:
            Loc(xs=[q])
            bad.append('accepted')
        except (TypeError, InvariantException):
            bad.append('refused')
    good = {int: [1, 2], str: ['a'], float: [1.5], bool: [True]}.get(item, [1, 'b'])
    r = Loc(xs=good, ss=good, mp={g: g for g in good})
    return [bad, sorted(r.items(), key=lambda t: t[0]), r.set(n='q').serialize(), [type(r.xs).__name__, type(r.ss).__name__, type(r.mp).__name__],
            pickle.loads(pickle.dumps(r.xs)), pickle.loads(pickle.dumps(r.mp))]


def _declare_cls(x, a, b, o):
    class Loc(PClass):
        p = field(type=int, mandatory=True, invariant=lambda n: (n >= a, 'small'))
        q = field(initial=b)
        __invariant__ = lambda s: (s.p != a + 1, 'bad')
    out = []
    for n in (a - 1, a, a + 1, a + 2, 'x'):
        try:
            i = Loc(p=n)
            out.append((i.p, i.q, i.set(q=n).q))
        except (InvariantException, TypeError) as e:
            out.append(type(e).__name__)
    return out


class Even(CheckedPVector):
    __type__ = 'checks.c23.Elem'


class Elem(PRecord):
    n = field(type='builtins.int')
    kids = field(type=CheckedPVector)


def _named(x, a, b, o):
    e = Even([Elem(n=i) for i in range(a % 4)])
    out = [len(e), e.serialize()]
    try:
        e.append(3)
    except TypeError as t:
        out.append('TypeError')
    return out + [Even.create([{'n': 1}, {'n': b}]).serialize()]


def _imm(x, a, b, o):
    T = immutable('p%d, q_' % a, name='T%d' % b)
    t = T(a, b)
    out = [tuple(t), tuple(t.set(**{'p%d' % a: 5})), repr(t)]
    try:
        t.set(q_=1)
    except AttributeError:
        out.append('frozen')
    return out


MODULE = {
    'declare_rec': _declare_rec,
    'declare_cls': _declare_cls,
    'named': _named,
    'immutable': _imm,
    'freeze': lambda x, a, b, o: freeze({'a': [1, {2: {a}}, (b, [3])], 'b': x}),
    'make': lambda x, a, b, o: [make(k, a, b % 40)[0] for k in ('vec', 'map', 'set', 'bag', 'list', 'deque')],
    'make_checked': lambda x, a, b, o: [make(k, a, b % 40)[0] for k in ('cvec', 'cmap', 'cset', 'rec', 'cls', 'imm')],
    'empty': lambda x, a, b, o: [pvector().append(a), pmap().set(a, b), pset().add(a), plist().cons(a), pdeque().append(b), pbag([]).add(a),
                                 pvector(), pmap(), pset(), plist(), pdeque(), pbag([])],
    'iterate': lambda x, a, b, o: [[e for e in x] if hasattr(x, '__iter__') else None],
    'compare': lambda x, a, b, o: [x == twin(x), x != twin(x), hash_of(x) == hash_of(twin(x)) if twin(x) is not None else None],
    'hash2': lambda x, a, b, o: [hash_of(x), hash_of(x)],
}
MODOPS = sorted(MODULE.items())


NAMED = dict(sorted(NEST.items()) + MODOPS)


def step_for(x, tok):
    if isinstance(tok, str):
        return tok, dict(OPS[kind_of(x)]).get(tok) or NAMED[tok]
    if tok % 4 == 3:
        return MODOPS[tok // 4 % len(MODOPS)]
    return op_for(x, tok)


# ------------------------------------------------------------------ the scheduler

class Stuck(Exception):
    pass


class Sched:
    """quanta: after how many steps the running thread hands over, round robin; afterwards threads run to their end."""

    def __init__(self, n, quanta, opcodes):
        self.n = n
        self.quanta = list(quanta)
        self.left = self.quanta.pop(0) if self.quanta else None
        self.opcodes = opcodes
        self.cur = 0
        self.done = [False] * n
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.lock = threading.Lock()
        self.steps = [0] * n
        self.total = 0
        self.switches = 0

    def tracer(self, tid):
        def local(frame, event, arg):
            if event == ('opcode' if self.opcodes else 'line'):
                self.point(tid)
            return local

        def glob(frame, event, arg):
            f = frame.f_code.co_filename
            if f == SELF or f.startswith('/usr/lib') or 'threading' in f or 'hypothesis' in f:
                if f != SELF or frame.f_code.co_name not in TRACED:
                    return None
            if self.opcodes:
                frame.f_trace_opcodes = True
            return local
        return glob

    def point(self, tid):
        self.steps[tid] += 1
        self.total += 1
        if self.cur != tid:
            self.wait(tid)          # the baton was taken while this thread was blocked
        if self.left is None:
            return
        if self.left > 0:
            self.left -= 1
            return
        self.left = self.quanta.pop(0) if self.quanta else None
        nxt = self.other(tid)
        if nxt is None:
            return
        self.switches += 1
        self.cur = nxt
        self.sems[nxt].release()
        self.wait(tid)

    def other(self, tid):
        for k in range(1, self.n):
            t = (tid + k) % self.n
            if not self.done[t]:
                return t
        return None

    def wait(self, tid):
        t0 = time.time()
        seen = -1
        while not self.sems[tid].acquire(timeout=0.25):
            # the running thread may be waiting for a lock that a waiting thread holds
            if seen == self.total and self.cur != tid:
                with self.lock:
                    self.cur = tid
                return
            seen = self.total
            if time.time() - t0 > 120:
                raise core.HarnessError('the threads do not make progress')

    def finish(self, tid):
        self.done[tid] = True
        if self.cur == tid:
            nxt = self.other(tid)
            if nxt is not None:
                self.left = self.quanta.pop(0) if self.quanta else None
                self.cur = nxt
                self.sems[nxt].release()


TRACED = {'_declare_rec', '_declare_cls', '_named', '_imm', '<lambda>', '<listcomp>'}


def program(world, ops):
    """A list of thunks over the shared values."""
    def mk(tok, a, b, tgt):
        def go():
            x = world[tgt % len(world)]

            def o(kind):
                same = [y for y in world if kind_of(y) == kind]
                return same[a % len(same)] if same else make(kind, a, b % 12)[0]
            name, fn = step_for(x, tok)
            try:
                return fn(x, a, b, o)
            except Exception as e:
                return e
        return go
    return [mk(*op) for op in ops]


def build_world(spec):
    return [make(k, a, n)[0] for k, a, n in spec]


def run_threads(case, quanta, opcodes, order):
    """One execution under a schedule; (results per thread, world, snapshots before, scheduler)"""
    world = build_world(case['world'])
    before = [snap(x) for x in world]
    progs = [program(world, ops) for ops in case['threads']]
    progs = [progs[i] for i in order]
    n = len(progs)
    sched = Sched(n, quanta, opcodes)
    results = [[] for _ in range(n)]
    crash = []

    def main(tid):
        try:
            sched.sems[tid].acquire()
            tr = sched.tracer(tid)
            for go in progs[tid]:
                sys.settrace(tr)
                try:
                    r = go()
                finally:
                    sys.settrace(None)
                results[tid].append(r)
        except BaseException as e:
            crash.append(e)
        finally:
            sched.finish(tid)
    ts = [threading.Thread(target=main, args=(i,), daemon=True) for i in range(n)]
    for t in ts:
        t.start()
    sched.sems[0].release()
    for t in ts:
        t.join(150)
        if t.is_alive():
            raise core.HarnessError('a thread does not end')
    if crash:
        raise crash[0] if isinstance(crash[0], (core.Violation, core.HarnessError)) else core.HarnessError('thread failed: %r' % crash[0])
    out = [None] * n
    for pos, i in enumerate(order):
        out[i] = results[pos]
    return out, world, before, sched


def compare(case, expect, quanta, opcodes, order, stats):
    got, world, before, sched = run_threads(case, quanta, opcodes, order)
    for i, ops in enumerate(case['threads']):
        for j in range(len(ops)):
            c = canon(got[i][j])
            if c != expect[i][j]:
                names = [[step_for(world[t % len(world)], tok)[0] for tok, a, b, t in p] for p in case['threads']]
                fail('thread %d of %s, operation %d gives %s instead of %s (schedule: %s %s after %s, first thread %d)', i, names, j,
                     short(c), short(expect[i][j]), sched.switches, 'bytecode switches' if opcodes else 'line switches', quanta, order[0])
    for x, s0 in zip(world, before):
        check(snap(x) == s0, 'a shared value was changed: %s', short(x))
        y = twin(x)
        if y is not None:
            check(hash_of(x) == hash_of(y), 'the hash of a shared value differs from that of an equal value: %s', short(x))
            check(x == y, 'a shared value differs from its copy: %s', short(x))
    stats.hit('schedules')
    if sched.switches:
        stats.hit('schedules with a switch')
        stats.nontrivial = True
    return sched


# ------------------------------------------------------------------ cases

kinds = st.sampled_from(['vec', 'map', 'set', 'bag', 'list', 'deque', 'cvec', 'cset', 'cmap', 'rec', 'cls', 'imm', 'nest', 'map', 'vec', 'set'])
sizes = st.sampled_from([0, 1, 2, 3, 6, 8, 12, 20, 33, 40, 66])
val3 = st.tuples(kinds, st.integers(0, 30), sizes)
op4 = st.tuples(st.integers(0, 400), st.integers(0, 60), st.integers(0, 60), st.integers(0, 2))
CAP = {'quick': 30, 'thorough': 90}
TIER = ['quick']


def strategies(spec):
    TIER[0] = spec['tier']
    world = st.lists(val3, min_size=1, max_size=3)
    prog = st.lists(op4, min_size=1, max_size=3)
    return [
        ('single', st.fixed_dictionaries(dict(mode=st.just('single'), world=world, threads=st.tuples(prog, prog).map(list))), 3),
        # both threads do the same thing to the same value
        ('same', st.fixed_dictionaries(dict(mode=st.just('single'), world=world, threads=prog.map(lambda p: [p, p]))), 2),
        ('random', st.fixed_dictionaries(dict(mode=st.just('random'), world=world, threads=st.lists(prog, min_size=2, max_size=3),
                                              schedules=st.lists(st.tuples(st.booleans(), st.lists(st.integers(0, 25), min_size=1, max_size=30)),
                                                                 min_size=1, max_size=4))), 2),
    ]


ARGS = [(3, 9, 11, 22), (7, 30, 8, 30), (0, 1, 5, 17)]


def enumerated(spec):
    """Every operation of every kind, by two threads at once with different arguments."""
    names = [(k, o) for k in sorted(OPS) for o, _ in OPS[k]] + [('nest', o) for o in sorted(NEST)] + [('map', o) for o, _ in MODOPS]
    for q, (k, o) in enumerate(names):
        if q % 4 == spec['shard'] // 2:
            for v in range(1 if spec['tier'] == 'quick' else 3):
                a, b, c, d = ARGS[(q + v) % 3]
                yield {'mode': 'one', 'world': [[k, 5 + q % 3, [12, 33, 4][(q // 3 + v) % 3]]], 'threads': [[[o, a, b, 0]], [[o, c, d, 0]]]}


def run_case(case, stats):
    # the operations one after the other, each thread on a world of its own
    expect = []
    for ops in case['threads']:
        world = build_world(case['world'])
        expect.append([canon(go()) for go in program(world, ops)])
    n = len(case['threads'])
    stats.hit('threads', n)
    if case['mode'] in ('single', 'one'):
        cap = CAP[TIER[0]]
        for order in ([0, 1], [1, 0]):
            s = compare(case, expect, [], False, order, stats)
            total = s.steps[0]                       # steps of the thread that starts
            points = range(total) if total <= cap else sorted({total * i // cap for i in range(cap)} | {0, 1, 2, 3, total - 1, total - 2})
            for p in points:
                # the first thread is stopped before step p, the other runs to its end
                compare(case, expect, [p], False, order, stats)
            if case['mode'] == 'one' or case['threads'][0] == case['threads'][1]:
                break
        if total <= 12:
            for p in range(total):
                compare(case, expect, [p, p // 2 + 1, 1], False, [0, 1], stats)
    else:
        for opcodes, quanta in case['schedules']:
            compare(case, expect, list(quanta) * 3, opcodes, list(range(n)), stats)
    for ops in case['threads']:
        for tok, a, b, t in ops:
            stats.hit('op ' + step_for(world[t % len(world)], tok)[0])
