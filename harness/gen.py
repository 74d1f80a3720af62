"""Strategies and symbolic-token resolution shared by the checks.

A case only contains tokens (small integers, names); they are turned into indices, sizes, keys, ... while the
case runs, relative to the current state, so every generated case is meaningful and nothing is filtered.
"""
from hypothesis import strategies as st

# ---- vector sizes ---------------------------------------------------------------------------
SMALL = [0, 1, 2, 3, 5, 8, 16, 30, 31, 32, 33, 34, 40, 63, 64, 65, 66, 96, 97, 100]
MID = [1023, 1024, 1025, 1055, 1056, 1057, 1058, 1087, 1088, 1089, 2080, 2081]
LARGE = [32767, 32768, 32769, 32799, 32800, 32801, 32831, 32832, 32833, 33824, 33825]

size_small = st.sampled_from(SMALL)
size_any = st.sampled_from(SMALL * 6 + MID * 5 + LARGE)
size_mid = st.sampled_from(SMALL * 3 + MID * 3)

# ---- indices --------------------------------------------------------------------------------
_IDX = [
    lambda n: 0, lambda n: 1, lambda n: -1, lambda n: n - 1, lambda n: n, lambda n: n // 2,
    lambda n: -2, lambda n: n - 2, lambda n: -n, lambda n: n + 1, lambda n: -n - 1,
    lambda n: (max(n - 1, 0) // 32) * 32, lambda n: (max(n - 1, 0) // 32) * 32 - 1,
    lambda n: (max(n - 1, 0) // 32) * 32 + 1, lambda n: (max(n - 1, 0) // 32) * 32 - 32,
    lambda n: 31, lambda n: 32, lambda n: 33, lambda n: n - 32, lambda n: n - 33, lambda n: n - 31,
    lambda n: -31, lambda n: -32, lambda n: -33, lambda n: 63, lambda n: 64,
    lambda n: 1023, lambda n: 1024, lambda n: 1055, lambda n: 1056, lambda n: -n // 2,
    lambda n: 32767, lambda n: 32768, lambda n: n + 31, lambda n: n + 32, lambda n: 2 ** 33, lambda n: -2 ** 33,
    lambda n: 2 ** 70, lambda n: -2 ** 70,
]
NIDX = len(_IDX)
_FRAC = 64


def idx(tok, n):
    if tok < NIDX:
        return _IDX[tok](n)
    tok -= NIDX
    if tok < _FRAC:
        return n * tok // _FRAC
    return tok - _FRAC


idx_tok = st.integers(0, NIDX + _FRAC + 39)


def inr(tok, n):
    """An index in range(n), n > 0."""
    i = idx(tok, n)
    return i % n


# ---- bounds near a position, for index(x, start, stop) -----------------------------------------
near_tok = st.integers(0, 9)


def near(tok, p, n):
    return [None, p, p + 1, p - 1, p - n, p + 1 - n, p - 1 - n, n, 0, -n][tok]


# ---- slices ---------------------------------------------------------------------------------
_STEPS = [None, 1, 2, -1, -2, 3, -3, 5, 31, 32, 33, -32, 1000, -1000]
bound_tok = st.one_of(st.none(), idx_tok)
step_tok = st.integers(0, len(_STEPS) - 1)
slice_tok = st.tuples(bound_tok, bound_tok, step_tok)


def mkslice(tok, n):
    a, b, s = tok
    return slice(None if a is None else idx(a, n), None if b is None else idx(b, n), _STEPS[s])


# ---- operations -----------------------------------------------------------------------------

def op_strategy(table):
    """table: name -> (weight, [argument strategies])."""
    branches = []
    for name, (w, args) in table.items():
        # one_of ignores repetitions of the same strategy, so each repetition is a strategy of its own
        branches.extend([st.tuples(st.just(name), *args).map(_own()) for _ in range(w)])
    return st.one_of(*branches)


def _own():
    return lambda x: x


def case(min_ops, max_ops, table, **fields):
    d = dict(fields)
    d['ops'] = oplist(op_strategy(table), min_ops, max_ops)
    return st.fixed_dictionaries(d)


def oplist(ops, min_ops, max_ops):
    """Short programs (which shrink best) and long ones in equal parts."""
    return st.one_of(st.lists(ops, min_size=min_ops, max_size=max_ops),
                     st.lists(ops, min_size=max(min_ops, max_ops * 2 // 3), max_size=max_ops))


byte = st.integers(0, 255)
pool_tok = st.integers(0, 11)
key_tok = st.integers(0, 120)
val_tok = st.integers(0, 40)
