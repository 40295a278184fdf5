# Python 2 text, translated like the analysed code.
class defaultdict(dict):
    def __init__(self, default_factory=None, *a, **k):
        dict.__init__(self)
        self.default_factory = default_factory
        if a or k:
            self.update(*a, **k)
    def __getitem__(self, k):
        if k in self:
            return dict.__getitem__(self, k)
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        self[k] = v
        return v

class OrderedDict(dict):
    # a Python 3 dict, on which the analysis stands, keeps the order
    def popitem(self, last=True):
        k = self.keys()[-1 if last else 0]
        return k, self.pop(k)

class Counter(dict):
    def __init__(self, it=(), **k):
        dict.__init__(self)
        self.update(it, **k)
    def __getitem__(self, k):
        return dict.__getitem__(self, k) if k in self else 0
    def update(self, it=(), **k):
        if isinstance(it, dict):
            for x in it:
                self[x] = self[x] + it[x]
        else:
            for x in it:
                self[x] = self[x] + 1
        for x in k:
            self[x] = self[x] + k[x]
    def elements(self):
        for x in self:
            for i in range(self[x]):
                yield x

class deque(object):
    def __init__(self, it=(), maxlen=None):
        self._xs = []
        self.maxlen = maxlen
        for x in it:
            self.append(x)
    def append(self, x):
        self._xs.append(x)
        if self.maxlen is not None and len(self._xs) > self.maxlen:
            self._xs.pop(0)
    def appendleft(self, x):
        self._xs.insert(0, x)
        if self.maxlen is not None and len(self._xs) > self.maxlen:
            self._xs.pop()
    def pop(self):
        if not self._xs:
            raise IndexError('pop from an empty deque')
        return self._xs.pop()
    def popleft(self):
        if not self._xs:
            raise IndexError('pop from an empty deque')
        return self._xs.pop(0)
    def extend(self, it):
        for x in it:
            self.append(x)
    def extendleft(self, it):
        for x in it:
            self.appendleft(x)
    def remove(self, x):
        self._xs.remove(x)
    def clear(self):
        self._xs = []
    def rotate(self, n=1):
        for i in range(abs(n)):
            if n > 0:
                self._xs.insert(0, self._xs.pop())
            else:
                self._xs.append(self._xs.pop(0))
    def __len__(self):
        return len(self._xs)
    def __iter__(self):
        return iter(self._xs)
    def __getitem__(self, i):
        return self._xs[i]
    def __setitem__(self, i, v):
        self._xs[i] = v
    def __contains__(self, x):
        return x in self._xs
    def __eq__(self, o):
        return isinstance(o, deque) and self._xs == o._xs
    def __nonzero__(self):
        return bool(self._xs)

def namedtuple(name, fields, verbose=False, rename=False):
    if isinstance(fields, str):
        fields = fields.replace(',', ' ').split()
    fields = tuple(fields)
    class T(tuple):
        _fields = fields
        def __new__(cls, *a, **k):
            vs = list(a)
            for f in fields[len(a):]:
                if f not in k:
                    raise TypeError('missing argument ' + f)
                vs.append(k.pop(f))
            if k or len(vs) != len(fields):
                raise TypeError('wrong arguments')
            return tuple.__new__(cls, vs)
        def _replace(self, **k):
            return T(*[k.get(f, self[i]) for i, f in enumerate(fields)])
        def _asdict(self):
            return OrderedDict([(f, self[i]) for i, f in enumerate(fields)])
        @classmethod
        def _make(cls, it):
            return cls(*it)
    T.__name__ = name
    def field(i):
        return property(lambda self: tuple.__getitem__(self, i))
    for i, f in enumerate(fields):
        setattr(T, f, field(i))
    return T
