"""Stand-in for triqs.gf.gf_fnt: every callable here becomes a method of Gf, so nothing else may be defined in this module"""


def density(g, *a, **k):
    from standin_impl import density as f
    return f(g, *a, **k)


def is_gf_hermitian(g, tolerance=1e-12):
    from standin_impl import is_gf_hermitian as f
    return f(g, tolerance)


def is_gf_real_in_tau(g, tolerance=1e-12):
    from standin_impl import is_gf_real_in_tau as f
    return f(g, tolerance)


def fit_hermitian_tail(g, known_moments=None):
    from standin_impl import fit_hermitian_tail as f
    return f(g, known_moments)


def fit_tail(g, known_moments=None):
    from standin_impl import fit_hermitian_tail as f
    return f(g, known_moments)


def set_from_fourier(g, *a, **k):
    from standin_impl import record
    record("set_from_fourier", g, a, k)


def set_from_legendre(g, *a, **k):
    from standin_impl import record
    record("set_from_legendre", g, a, k)


def set_from_imfreq(g, *a, **k):
    from standin_impl import record
    record("set_from_imfreq", g, a, k)


def set_from_imtime(g, *a, **k):
    from standin_impl import record
    record("set_from_imtime", g, a, k)


def fit_tail_on_window(*a, **k):
    raise NotImplementedError("compiled code")


def fit_hermitian_tail_on_window(*a, **k):
    raise NotImplementedError("compiled code")


def replace_by_tail(*a, **k):
    raise NotImplementedError("compiled code")


def replace_by_tail_in_fit_window(*a, **k):
    raise NotImplementedError("compiled code")


def rebinning_tau(*a, **k):
    raise NotImplementedError("compiled code")


def enforce_discontinuity(*a, **k):
    raise NotImplementedError("compiled code")
