"""Reference models of the input checks for well-formed input (numpy data of matching length, no constant column, pysal weights).

The checks themselves are the subject of B01; the relations of the D properties are stated for input that passes them."""
import ast
from terms import *

SRC = '''
import numpy as np
import spreg.sputils as spu

def check_arrays(*arrays):
    for a in arrays:
        if a is not None:
            return a.shape[0]

def check_numeric_bool(array):
    return None

def check_y(y, n, name_y=None):
    return y, name_y

def check_endog(arrays, names):
    return (*arrays, *names)

def check_weights(w, y, w_required=False, time=False, slx_lags=0, allow_wk=False):
    return w

def check_robust(robust, wk):
    return None

def check_reg_list(regimes, name_regimes, n):
    return regimes, name_regimes

def check_regimes(reg_set, N=None, K=None):
    return None

def check_constant(x, name_x=None, just_rem=False):
    if just_rem:
        return x, name_x, None
    return np.hstack((np.ones((x.shape[0], 1)), x)), name_x, None

def check_coords(data, name_coords):
    return data, name_coords
'''
NAMES = [n.name for n in ast.parse(SRC).body if isinstance(n, ast.FunctionDef)]


def install(eng):
    if "spreg.zzstub" not in eng.modules:
        Module = type(eng.modules["spreg.utils"])
        eng.modules["spreg.zzstub"] = Module("spreg.zzstub", "zzstub", ast.parse(SRC))
    env = eng.module("spreg.zzstub").env

    withconst = set()

    def mon(e, f, args, kw, st, node):
        if f.qual == "user_output.check_constant" and not kw and args and args[0] in withconst:
            return mk("tuple", args[0], args[1] if len(args) > 1 else NONE, NONE)
        if f.qual == "user_output.check_constant" and f.mod.name.endswith(".user_output"):
            r = e.call(env["check_constant"], args, kw, st, node)
            if isinstance(r, T) and r.op == "tuple" and r.a[0] is not args[0]:
                withconst.add(r.a[0])
            return r
        if f.qual.startswith("user_output.") and f.qual[12:] in NAMES and f.mod.name.endswith(".user_output"):
            return e.call(env[f.qual[12:]], args, kw, st, node)
        return None
    eng.monitor_call = mon
