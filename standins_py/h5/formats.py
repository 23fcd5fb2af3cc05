_classes, _back = {}, {}


def register_class(cls, doc=None, read_fun=None, hdf5_format=None):
    n = hdf5_format or getattr(cls, "_hdf5_format_", None) or cls.__dict__.get("_hdf5_data_scheme_") or cls.__name__
    assert n not in _classes or _classes[n].__name__ == cls.__name__, "class %s is already registered" % n
    _classes[n] = cls


def register_backward_compatibility_method(old, new, f=None):
    _back[old] = (new, f)


def name_of(cls):
    for n, c in _classes.items():
        if c is cls:
            return n
    for n, c in _classes.items():
        if issubclass(cls, c):
            return n
    raise TypeError("class %s is not registered" % cls)


def lookup(fmt):
    if fmt in _back:
        n, f = _back[fmt]
        return _classes[n], f
    return _classes[fmt], None
