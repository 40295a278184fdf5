# Python 2 text, translated like the analysed code.
class partial(object):
    def __init__(self, func, *args, **keywords):
        self.func = func
        self.args = args
        self.keywords = keywords
    def __call__(self, *a, **k):
        kw = dict(self.keywords)
        kw.update(k)
        return self.func(*(self.args + a), **kw)

WRAPPER_ASSIGNMENTS = ('__module__', '__name__', '__doc__')
WRAPPER_UPDATES = ('__dict__',)

def update_wrapper(wrapper, wrapped, assigned=WRAPPER_ASSIGNMENTS, updated=WRAPPER_UPDATES):
    for a in assigned:
        setattr(wrapper, a, getattr(wrapped, a))
    return wrapper

def wraps(wrapped, *x, **k):
    return lambda wrapper: update_wrapper(wrapper, wrapped)

reduce = reduce

def cmp_to_key(mycmp):
    class K(object):
        def __init__(self, obj):
            self.obj = obj
        def __cmp__(self, other):
            return mycmp(self.obj, other.obj)
        def __lt__(self, other):
            return mycmp(self.obj, other.obj) < 0
    return K

def total_ordering(cls):
    if '__lt__' in cls.__dict__:
        cls.__gt__ = lambda self, o: not (self < o or self == o)
        cls.__le__ = lambda self, o: self < o or self == o
        cls.__ge__ = lambda self, o: not self < o
    return cls
