"""Helpers for map, set and bag checks."""
import core
from core import fail, check, short, KEYS, NKEYS, key

SENT = object()


def bulk_keys(base, n, stride=1):
    return [key(NKEYS + (base + i * stride) * 1) for i in range(n)]


_PROBES = [0, 1, 2, 5, 9, 14, 20, 24, 30, 35, 36, 37, 44, 46, 48, 50, 53, 57, 60, 64]


def check_map(m, d, what, probes=True):
    """The map m holds exactly the items of the dict d (values by identity)."""
    n = len(d)
    if len(m) != n:
        fail('%s: len is %d, expected %d', what, len(m), n)
    items = list(m.items())
    if len(items) != n:
        fail('%s: %d items iterated, expected %d', what, len(items), n)
    seen = set()
    for k, v in items:
        w = d.get(k, SENT)
        if w is SENT:
            fail('%s: has unexpected key %s', what, short(k))
        if w is not v:
            fail('%s: value of %s is %s, expected %s', what, short(k), short(v), short(w))
        seen.add(k)
    if len(seen) != n:
        fail('%s: a key occurs twice', what)
    ks = list(d) if n <= 200 else list(d)[:60] + list(d)[-60:] + list(d)[n // 2:n // 2 + 40]
    for k in ks:
        if k not in m:
            fail('%s: key %s not found', what, short(k))
        try:
            v = m[k]
        except KeyError:
            fail('%s: lookup of %s fails', what, short(k))
        if v is not d[k]:
            fail('%s: [%s] is %s, expected %s', what, short(k), short(v), short(d[k]))
    if probes:
        for p in _PROBES:
            k = KEYS[p]
            if k not in d:
                if k in m:
                    fail('%s: missing key %s found', what, short(k))
                if m.get(k, SENT) is not SENT:
                    fail('%s: get of missing key %s', what, short(k))


def check_set(s, model, what, probes=True):
    n = len(model)
    if len(s) != n:
        fail('%s: len is %d, expected %d', what, len(s), n)
    items = list(s)
    if len(items) != n:
        fail('%s: %d elements iterated, expected %d', what, len(items), n)
    if set(items) != model:
        fail('%s: elements differ: %s', what, short(set(items) ^ model))
    for k in (items if n <= 200 else items[:100]):
        if k not in s:
            fail('%s: element %s not found', what, short(k))
    if probes:
        for p in _PROBES:
            k = KEYS[p]
            if (k in s) is not (k in model):
                fail('%s: membership of %s is %s', what, short(k), k in s)


class Merge:
    """A pure merge function that gives the same object for the same arguments."""

    def __init__(self):
        self.memo = {}
        self.keep = []

    def __call__(self, l, r):
        k = (id(l), id(r))
        if k not in self.memo:
            x = ('merged', len(self.memo))
            self.memo[k] = x
            self.keep.append((l, r))
        return self.memo[k]
