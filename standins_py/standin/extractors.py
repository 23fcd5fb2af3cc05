"""Stand-in of the compiled module triqs.operators.util.extractors."""
import numpy as np
from triqs.operators.operators import Operator


def _t(ind):
    return tuple(ind)


def extract_h_dict(H, ignore_irrelevant=False):
    r = {}
    for m, v in H:
        if len(m) == 2 and m[0][0] and not m[1][0]:
            r[(_t(m[0][1]), _t(m[1][1]))] = v
        elif not ignore_irrelevant:
            raise RuntimeError("extract_h_dict: irrelevant term")
    return r


def extract_U_dict2(H, ignore_irrelevant=False):
    r = {}
    for m, v in H:
        if len(m) == 4 and [d for d, i in m] == [True, True, False, False] and m[0][1] == m[3][1] and m[1][1] == m[2][1]:
            r[(_t(m[0][1]), _t(m[1][1]))] = r[(_t(m[1][1]), _t(m[0][1]))] = v
        elif not ignore_irrelevant:
            raise RuntimeError("extract_U_dict2: irrelevant term")
    return r


def extract_U_dict4(H, ignore_irrelevant=False):
    r = {}
    for m, v in H:
        if len(m) == 4 and [d for d, i in m] == [True, True, False, False]:
            a, b, c, d = (_t(x[1]) for x in m)
            r[(a, b, d, c)] = r[(b, a, c, d)] = 0.5 * v
            r[(a, b, c, d)] = r[(b, a, d, c)] = -0.5 * v
        elif not ignore_irrelevant:
            raise RuntimeError("extract_U_dict4: irrelevant term")
    return r


def dict_to_matrix(d, gf_struct):
    pos, n = {}, 0
    for name, size in gf_struct:
        for i in range(size):
            pos[(name, i)] = n
            n += 1
    rank = len(next(iter(d))) if d else 2
    r = np.zeros((n,) * rank, dtype=complex if any(isinstance(v, complex) for v in d.values()) else float)
    for k, v in d.items():
        r[tuple(pos[i] for i in k)] = v
    return r


def quadratic_terms(H):
    return Operator(_terms={m: v for m, v in H._t.items() if len(m) == 2})


def quartic_terms(H):
    return Operator(_terms={m: v for m, v in H._t.items() if len(m) == 4})
