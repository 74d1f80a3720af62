"""C17: a class instance always satisfies its field declarations and stays frozen."""
import importlib
from gen import case
from fieldlib import *
from pyrsistent import PClass
from checks.c16 import declare


def strategies(spec):
    return [('histories', case(1, 14, CLS, fields=st.lists(field_tok, min_size=1, max_size=5), globals=st.lists(global_tok, max_size=1)), 1)]


def run_case(case, stats):
    o = declare(case, 'cls', PClass)
    r = run_history(o, case, stats)
    stats.nontrivial = r.valid >= 2 and r.rejected >= 1
