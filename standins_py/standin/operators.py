"""Stand-in of the compiled module triqs.operators.operators: the fermionic algebra, with canonical monomials
c+_1 < c+_2 < ... < c_2 < c_1 as keys of a dictionary. Operators are immutable; small coefficients vanish as in C++."""
from numbers import Number

EPS = 100 * 2.220446049250313e-16


def _ikey(ind):
    return tuple((0, i, "") if not isinstance(i, str) else (1, 0, i) for i in ind)


class _Op(tuple):
    """(dagger, indices)"""


def _less(a, b):
    if a[0] != b[0]:
        return a[0]
    return _ikey(a[1]) < _ikey(b[1]) if a[0] else _ikey(b[1]) < _ikey(a[1])


def _mkey(m):
    pos = {}
    key = []
    for d, i in m:
        key.append((0 if d else 1, _ikey(i) if d else _Rev(_ikey(i))))
    return (len(m), key)


class _Rev:
    def __init__(self, k):
        self.k = k

    def __lt__(self, o):
        return o.k < self.k

    def __eq__(self, o):
        return self.k == o.k


def _normal(m, coef, target):
    m = list(m)
    while True:
        for n in range(1, len(m)):
            a, b = m[n - 1], m[n]
            if a == b:
                return
            if _less(b, a):
                if a[1] == b[1]:
                    _normal(m[:n - 1] + m[n + 1:], coef, target)
                coef = -coef
                m[n - 1], m[n] = b, a
                break
        else:
            break
    _insert(target, tuple(m), coef)


def _insert(target, m, coef):
    if m in target:
        v = target[m] + coef
        if abs(v) < EPS:
            del target[m]
        else:
            target[m] = v
    else:
        target[m] = coef


def _num(x):
    if isinstance(x, complex) or (hasattr(x, "dtype") and x.dtype.kind == "c"):
        return complex(x)
    return float(x)


class Operator:
    __array_ufunc__ = None

    def __init__(self, x=None, _terms=None):
        self._t = dict(_terms) if _terms is not None else {}
        if x is not None:
            if isinstance(x, Operator):
                self._t = dict(x._t)
                return
            x = float(x)
            if abs(x) >= EPS:
                self._t[()] = x

    def is_zero(self):
        return not self._t

    def _items(self):
        return sorted(self._t.items(), key=lambda kv: _mkey(kv[0]))

    def __iter__(self):
        for m, v in self._items():
            yield [(d, list(i)) for d, i in m], v

    @property
    def real(self):
        return Operator(_terms={m: float(v.real) for m, v in self._t.items() if abs(v.real) >= EPS})

    @property
    def imag(self):
        return Operator(_terms={m: float(v.imag) for m, v in self._t.items() if abs(v.imag) >= EPS})

    def __neg__(self):
        return Operator(_terms={m: -v for m, v in self._t.items()})

    def __add__(self, o):
        if isinstance(o, Operator):
            t = dict(self._t)
            for m, v in o._t.items():
                _insert(t, m, v)
            return Operator(_terms=t)
        if isinstance(o, Number):
            o = _num(o)
            t = dict(self._t)
            if abs(o) >= EPS:
                _insert(t, (), o)
            return Operator(_terms=t)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        return self + (-o) if isinstance(o, (Operator, Number)) else NotImplemented

    def __rsub__(self, o):
        return (-self) + o if isinstance(o, Number) else NotImplemented

    def __mul__(self, o):
        if isinstance(o, Operator):
            t = {}
            for m, v in self._t.items():
                for k, w in o._t.items():
                    _normal(m + k, v * w, t)
            return Operator(_terms=t)
        if isinstance(o, Number):
            o = _num(o)
            return Operator(_terms={} if abs(o) < EPS else {m: v * o for m, v in self._t.items()})
        return NotImplemented

    def __rmul__(self, o):
        return self * o if isinstance(o, Number) else NotImplemented

    def __truediv__(self, o):
        return self * (1 / _num(o)) if isinstance(o, Number) else NotImplemented

    def __eq__(self, o):
        return isinstance(o, Operator) and (self - o).is_zero()

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __str__(self):
        def num(v):
            return ("%g" % v) if not isinstance(v, complex) else "(%g%+gj)" % (v.real, v.imag)

        def ind(i):
            return ",".join("'%s'" % x if isinstance(x, str) else "%d" % x for x in i)
        if not self._t:
            return "0"
        return " + ".join(num(v) + "".join("*" + ("c_dag" if d else "c") + "(" + ind(i) + ")" for d, i in m) for m, v in self._items())

    __repr__ = __str__


def _index(args):
    assert len(args) <= 2
    return tuple(a if isinstance(a, str) else int(a) for a in args)


def c(*ind):
    return Operator(_terms={((False, _index(ind)),): 1.0})


def c_dag(*ind):
    return Operator(_terms={((True, _index(ind)),): 1.0})


def n(*ind):
    return Operator(_terms={((True, _index(ind)), (False, _index(ind))): 1.0})


def dagger(op):
    return Operator(_terms={tuple((not d, i) for d, i in reversed(m)): v.conjugate() for m, v in op._t.items()})


def is_op_hermitian(op, tolerance=0.0):
    return all(abs(v) <= tolerance for v in (op - dagger(op))._t.values())


def _to_dict(self):
    return {"terms": repr(sorted(self._t.items(), key=lambda kv: _mkey(kv[0])))}


def _from_dict(cls, name, d):
    import ast
    return Operator(_terms=dict(ast.literal_eval(d["terms"])))


Operator.__reduce_to_dict__ = _to_dict
Operator.__factory_from_dict__ = classmethod(_from_dict)
try:
    from h5.formats import register_class
    register_class(Operator)
except ImportError:
    pass
