# Python 2 text, translated like the analysed code.
def _rebuild(x, f):
    cls = type(x)
    o = object.__new__(cls)
    for k, v in x.__dict__.items():
        o.__dict__[k] = f(v)
    return o

def _atom(x):
    return x is None or isinstance(x, (int, float, str, bool, type, long)) or callable(x) and not hasattr(x, '__dict__')

def copy(x):
    if isinstance(x, list):
        return x[:]
    if isinstance(x, tuple) or _atom(x):
        return x
    if hasattr(x, '__copy__'):
        return x.__copy__()
    if isinstance(x, dict):
        return x.copy()
    if isinstance(x, set):
        return set(x)
    return _rebuild(x, lambda v: v)

def deepcopy(x, memo=None):
    if memo is None:
        memo = []
    for a, b in memo:
        if a is x:
            return b
    if isinstance(x, list):
        r = []
        memo.append((x, r))
        for v in x:
            r.append(deepcopy(v, memo))
        return r
    if isinstance(x, tuple):
        return tuple([deepcopy(v, memo) for v in x])
    if _atom(x):
        return x
    if hasattr(x, '__deepcopy__'):
        return x.__deepcopy__(memo)
    if isinstance(x, dict):
        r = {}
        memo.append((x, r))
        for k in x.keys():
            r[deepcopy(k, memo)] = deepcopy(x[k], memo)
        return r
    if isinstance(x, set):
        return set([deepcopy(v, memo) for v in x])
    return _rebuild(x, lambda v: deepcopy(v, memo))
