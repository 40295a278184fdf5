# Python 2 text, translated like the analysed code.
def add(a, b): return a + b
def sub(a, b): return a - b
def mul(a, b): return a * b
def div(a, b): return a / b
def truediv(a, b): return a / float(b)
def floordiv(a, b): return a // b
def mod(a, b): return a % b
def pow(a, b): return a ** b
def neg(a): return -a
def pos(a): return +a
def invert(a): return ~a
inv = invert
def and_(a, b): return a & b
def or_(a, b): return a | b
def xor(a, b): return a ^ b
def lshift(a, b): return a << b
def rshift(a, b): return a >> b
def not_(a): return not a
def truth(a): return bool(a)
def is_(a, b): return a is b
def is_not(a, b): return a is not b
def eq(a, b): return a == b
def ne(a, b): return a != b
def lt(a, b): return a < b
def le(a, b): return a <= b
def gt(a, b): return a > b
def ge(a, b): return a >= b
def contains(a, b): return b in a
def concat(a, b): return a + b
def getitem(a, b): return a[b]
def setitem(a, b, c): a[b] = c
def delitem(a, b): del a[b]
def countOf(a, b):
    n = 0
    for x in a:
        if x == b:
            n += 1
    return n
def indexOf(a, b):
    for i, x in enumerate(a):
        if x == b:
            return i
    raise ValueError('sequence.index(x): x not in sequence')
def iadd(a, b):
    a += b
    return a
abs = abs
index = int

def itemgetter(*ks):
    if len(ks) == 1:
        k = ks[0]
        return lambda o: o[k]
    return lambda o: tuple([o[k] for k in ks])

def attrgetter(*ns):
    def one(o, n):
        for x in n.split('.'):
            o = getattr(o, x)
        return o
    if len(ns) == 1:
        return lambda o: one(o, ns[0])
    return lambda o: tuple([one(o, n) for n in ns])

def methodcaller(name, *a, **k):
    return lambda o: getattr(o, name)(*a, **k)
