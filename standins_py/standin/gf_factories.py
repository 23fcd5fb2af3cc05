from standin_impl import make_hermitian


def _no(name):
    def f(*a, **k):
        raise NotImplementedError(name + " is compiled code")
    f.__name__ = name
    return f


for _n in ["make_gf_from_fourier", "make_real_in_tau", "make_gf_dlr", "fit_gf_dlr", "make_gf_dlr_imtime", "make_gf_dlr_imfreq", "make_gf_imtime", "make_gf_imfreq"]:
    globals()[_n] = _no(_n)
