"""Symbolic values and the path explorer.

SymInt   exact integer: signed bit-vector of the run's width plus an interval;
         an operation whose interval could leave the width raises EngineLimit
         (never wraps silently).
SymBool  boolean term.
SymReal  real term (ratings).
SymStr   string of concrete length whose characters are 1-char strings or
         SymInt codes, or Num(i) = decimal text of a symbolic integer.
"""
import time
import operator as _operator
import z3


class Steer(BaseException):
    """path-steering exceptions: never caught by the code under test"""


class PathEnd(Steer):
    """this path is over (assumption failed)"""


class EngineLimit(Steer):
    """the engine cannot represent something: the obligation is inconclusive"""


class EngineFault(Steer):
    """the engine contradicts itself: nothing it says about this obligation counts"""


class SpecAbort(Steer):
    """speculative (merged) evaluation is not possible, fall back to forking"""


class Budget(Steer):
    pass


class Violation(Steer):
    def __init__(self, label, values, detail=''):
        Steer.__init__(self, label)
        self.label, self.values, self.detail = label, values, detail


CUR = None          # the running Explorer


def cur():
    return CUR


# ---------------------------------------------------------------- booleans
class SymBool(object):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return CUR.branch(self.t)

    def __invert__(self):
        return ~as_int(self)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return b_and(self, o)
        return as_int(self) & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return b_or(self, o)
        return as_int(self) | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return b_ne(self, o)
        return as_int(self) ^ o
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return b_not(b_ne(self, o))
        if isinstance(o, (int, SymInt)):
            return as_int(self) == o
        return False

    def __ne__(self, o):
        return b_not(self.__eq__(o))
    __hash__ = None

    def __repr__(self):
        return '<SymBool %s>' % self.t

    def __str__(self):
        raise EngineLimit('str of symbolic bool')


def _ib(name):
    def f(self, o):
        return getattr(as_int(self), name)(o)
    return f


for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__lt__', '__le__', '__gt__',
           '__ge__', '__floordiv__', '__mod__', '__rshift__', '__lshift__', '__rlshift__', '__rrshift__'):
    setattr(SymBool, _n, _ib(_n))
SymBool.__neg__ = lambda self: -as_int(self)
SymBool.__index__ = lambda self: CUR.concretize(as_int(self))


def mkbool(t):
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def bt(x):
    """z3 term of a bool-like value"""
    if x is True:
        return z3.BoolVal(True)
    if x is False:
        return z3.BoolVal(False)
    if isinstance(x, SymBool):
        return x.t
    raise EngineLimit('not a boolean: %r' % (x,))


def b_not(a):
    if isinstance(a, bool):
        return not a
    if isinstance(a, SymBool):
        t = a.t
        if z3.is_not(t):
            return SymBool(t.arg(0))
        return SymBool(z3.Not(t))
    raise EngineLimit('not of %r' % (a,))


def b_and(*xs):
    ts = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        ts.append(x.t)
    if not ts:
        return True
    if len(ts) == 1:
        return SymBool(ts[0])
    return SymBool(z3.And(ts))


def b_or(*xs):
    ts = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        ts.append(x.t)
    if not ts:
        return False
    if len(ts) == 1:
        return SymBool(ts[0])
    return SymBool(z3.Or(ts))


def b_ne(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a != b
    if isinstance(a, bool):
        a, b = b, a
    if isinstance(b, bool):
        return b_not(a) if b else a
    return mkbool(z3.Xor(a.t, b.t))


# ---------------------------------------------------------------- integers
MAXATOMS = 80


class SymInt(object):
    """term, interval and (unless it is an atom) its linear form
    (constant, {ast id: (coefficient, term, lo, hi)})"""
    __slots__ = ('_t', 'lo', 'hi', 'lin')

    def __init__(self, t, lo, hi, lin=None):
        self._t, self.lo, self.hi, self.lin = t, lo, hi, lin

    @property
    def t(self):
        r = self._t
        if r is None:
            k, d = self.lin
            r = None
            neg = None
            for c, t, lo, hi in d.values():
                if c > 0:
                    x = t if c == 1 else t * bvv(c)
                    r = x if r is None else r + x
                else:
                    x = t if c == -1 else t * bvv(-c)
                    neg = x if neg is None else neg + x
            if r is None:
                r = bvv(k) - neg
            else:
                if k:
                    r = r + bvv(k)
                if neg is not None:
                    r = r - neg
            self._t = r
        return r

    def form(self):
        if self.lin is None:
            t = self._t
            return (0, {t.get_id(): (1, t, self.lo, self.hi)})
        return self.lin

    def narrow(self, lo, hi):
        lo, hi = max(lo, self.lo), min(hi, self.hi)
        if lo == hi:
            return lo
        return SymInt(self._t, lo, hi, self.lin)

    # arithmetic ------------------------------------------------
    def __add__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, int):
            if o == 0:
                return self
            k, d = self.form()
            return mklin(k + o, d, self.lo + o, self.hi + o)
        k, d = lin_add(self.form(), o.form(), 1)
        return mklin(k, d, self.lo + o.lo, self.hi + o.hi)
    __radd__ = __add__

    def __sub__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, int):
            return self + (-o)
        if o is self:
            return 0
        k, d = lin_add(self.form(), o.form(), -1)
        return mklin(k, d, self.lo - o.hi, self.hi - o.lo)

    def __rsub__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * CUR.concretize(self)
        o = _coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, int):
            if o == 0:
                return 0
            if o == 1:
                return self
            a, b = self.lo * o, self.hi * o
            k, d = self.form()
            return mklin(k * o, dict((i, (c * o, t, lo, hi)) for i, (c, t, lo, hi) in d.items()), min(a, b),
                         max(a, b))
        ps = [self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi]
        lo, hi = min(ps), max(ps)
        if o is self and lo < 0:
            lo = 0
        return mk(self.t * o.t, lo, hi)

    def __rmul__(self, o):
        return self.__mul__(o)

    def __neg__(self):
        return self * -1

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self.hi <= 0:
            return -self
        return mk(z3.If(self.t < 0, -self.t, self.t), 0, max(-self.lo, self.hi))

    def __invert__(self):
        return -self - 1

    def __floordiv__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return _floordiv(self, o)

    def __rfloordiv__(self, o):
        return _floordiv(_coerce(o), self)

    def __mod__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return _mod(self, o)

    def __rmod__(self, o):
        return _mod(_coerce(o), self)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __truediv__(self, o):
        return to_real(self) / o

    def __rtruediv__(self, o):
        return to_real(o) / self

    # bits --------------------------------------------------------
    def __and__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, int):
            if o == 0:
                return 0
            if o > 0 and self.lo >= 0 and (o & (o + 1)) == 0 and self.hi <= o:
                return self
            olo = ohi = o
        else:
            olo, ohi = o.lo, o.hi
        t = self.t & (bvv(o) if isinstance(o, int) else o.t)
        if olo >= 0 and self.lo >= 0:
            return mk(t, 0, min(self.hi, ohi))
        if olo >= 0:
            return mk(t, 0, ohi)
        if self.lo >= 0:
            return mk(t, 0, self.hi)
        m = bitbound(self.lo, self.hi, olo, ohi)
        return mk(t, -m - 1, m)
    __rand__ = __and__

    def __or__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, int) and o == 0:
            return self
        olo, ohi = (o, o) if isinstance(o, int) else (o.lo, o.hi)
        t = self.t | (bvv(o) if isinstance(o, int) else o.t)
        m = bitbound(self.lo, self.hi, olo, ohi)
        if olo >= 0 and self.lo >= 0:
            return mk(t, max(self.lo, olo), m)
        return mk(t, -m - 1, m)
    __ror__ = __or__

    def __xor__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        olo, ohi = (o, o) if isinstance(o, int) else (o.lo, o.hi)
        t = self.t ^ (bvv(o) if isinstance(o, int) else o.t)
        m = bitbound(self.lo, self.hi, olo, ohi)
        if olo >= 0 and self.lo >= 0:
            return mk(t, 0, m)
        return mk(t, -m - 1, m)
    __rxor__ = __xor__

    def __lshift__(self, o):
        if isinstance(o, SymBool):
            o = as_int(o)
        if isinstance(o, SymInt):
            if o.lo < 0:
                if CUR.truth(o < 0):
                    raise ValueError('negative shift count')
                o = o.narrow(0, o.hi)
            vals = [self.lo << o.lo, self.lo << o.hi, self.hi << o.lo, self.hi << o.hi]
            return mk(self.t << o.t, min(vals), max(vals))
        if o < 0:
            raise ValueError('negative shift count')
        return self * (1 << o)

    def __rlshift__(self, o):
        return SymInt(bvv(o), o, o).__lshift__(self)

    def __rshift__(self, o):
        if isinstance(o, SymBool):
            o = as_int(o)
        if isinstance(o, SymInt):
            if o.lo < 0:
                if CUR.truth(o < 0):
                    raise ValueError('negative shift count')
                o = o.narrow(0, o.hi)
            vals = [self.lo >> o.lo, self.lo >> o.hi, self.hi >> o.lo, self.hi >> o.hi]
            return mk(self.t >> o.t, min(vals), max(vals))
        if o < 0:
            raise ValueError('negative shift count')
        return mk(self.t >> min(o, CUR.W - 1), self.lo >> o, self.hi >> o)

    def __rrshift__(self, o):
        return SymInt(bvv(o), o, o).__rshift__(self)

    def __pow__(self, o):
        if isinstance(o, SymReal):
            return to_real(self) ** o
        o = _coerce(o)
        if isinstance(o, SymInt):
            o = CUR.concretize(o)
        if o is None or o < 0:
            return NotImplemented
        r = 1
        for i in range(o):
            r = r * self
        return r

    def __rpow__(self, o):
        if o == 2:
            if self.lo < 0:
                raise EngineLimit('2**negative')
            return 1 << self
        return o ** CUR.concretize(self)

    # comparisons -----------------------------------------------
    def __lt__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        olo, ohi = (o, o) if isinstance(o, int) else (o.lo, o.hi)
        if self.hi < olo:
            return True
        if self.lo >= ohi:
            return False
        return lin_lt(self, o, 0)

    def __le__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        olo, ohi = (o, o) if isinstance(o, int) else (o.lo, o.hi)
        if self.hi <= olo:
            return True
        if self.lo > ohi:
            return False
        return lin_lt(self, o, 1)

    def __gt__(self, o):
        r = self.__le__(o)
        return r if r is NotImplemented else b_not(r)

    def __ge__(self, o):
        r = self.__lt__(o)
        return r if r is NotImplemented else b_not(r)

    def __eq__(self, o):
        o = _coerce(o)
        if o is None:
            return False
        if isinstance(o, SymReal):
            return to_real(self) == o
        if isinstance(o, int):
            if o < self.lo or o > self.hi:
                return False
            k, d = self.form()
            k -= o
        else:
            if o is self:
                return True
            if o.lo > self.hi or o.hi < self.lo:
                return False
            k, d = lin_add(self.form(), o.form(), -1)
        if not d:
            return k == 0
        if len(d) == 1:
            (i, (c, t, lo, hi)), = d.items()
            x = CUR.dom.get(i)
            if x is not None:
                lo, hi = max(lo, x[0]), min(hi, x[1])
            if k % c:
                return False
            v = -k // c
            if v == lo == hi:
                return True
            if v < lo or v > hi:
                return False
            return atom_eq(t, v)
        lo, hi = lin_bounds(k, d)
        if lo > 0 or hi < 0:
            return False
        l, r = lin_sides(k, d)
        if l is None:
            return mkbool(self.t == it(o))
        return mkbool(l == r)

    def __ne__(self, o):
        return b_not(self.__eq__(o))
    __hash__ = None

    def __bool__(self):
        r = self.__ne__(0)
        return r if isinstance(r, bool) else CUR.branch(r.t)

    def __index__(self):
        return CUR.concretize(self)
    __int__ = __index__

    def __float__(self):
        raise EngineLimit('float of symbolic int')

    def __repr__(self):
        return '<SymInt [%d,%d] %s>' % (self.lo, self.hi, str(self.t)[:60])

    def __str__(self):
        # reached only from native code: exact by forking
        return str(CUR.concretize(self))


def lin_add(a, b, s):
    ka, da = a
    kb, db = b
    d = dict(da)
    for i, (c, t, lo, hi) in db.items():
        x = d.get(i)
        if x is None:
            d[i] = (s * c, t, lo, hi)
        else:
            n = x[0] + s * c
            if n == 0:
                del d[i]
            else:
                d[i] = (n, t, max(lo, x[2]), min(hi, x[3]))
    return ka + s * kb, d


def lin_bounds(k, d):
    lo = hi = k
    dom = CUR.dom
    for i, (c, t, l, h) in d.items():
        x = dom.get(i)
        if x is not None:
            if x[0] > l:
                l = x[0]
            if x[1] < h:
                h = x[1]
        if c > 0:
            lo += c * l
            hi += c * h
        else:
            lo += c * h
            hi += c * l
    return lo, hi


def bounds(x):
    """interval of x given what the path has established"""
    k, d = x.form()
    lo, hi = lin_bounds(k, d)
    return max(lo, x.lo), min(hi, x.hi)


def mklin(k, d, lo, hi):
    """integer from a linear form; [lo,hi] is what the operation implies"""
    if not d:
        return k
    l2, h2 = lin_bounds(k, d)
    lo, hi = max(lo, l2), min(hi, h2)
    if lo >= hi:
        return lo
    W = CUR.W
    m = 1 << (W - 1)
    if lo < -m or hi >= m:
        raise EngineLimit('interval [%d,%d] does not fit %d bits' % (lo, hi, W))
    # partial sums may wrap but the exact result fits, so two's complement
    # arithmetic gives it exactly
    if len(d) == 1 and k == 0:
        c, t, _, _ = next(iter(d.values()))
        if c == 1:
            return SymInt(t, lo, hi)
    if not (-m <= k < m) or any(not (-m < c < m) for c, _, _, _ in d.values()):
        raise EngineLimit('linear form does not fit %d bits' % W)
    r = SymInt(None, lo, hi, (k, d))
    if len(d) > MAXATOMS:
        return SymInt(r.t, lo, hi)
    return r


def lin_sides(k, d):
    """terms (positive part, negative part) of k + d, or None when a part may
    not fit the width"""
    m = 1 << (CUR.W - 1)
    pos, neg = (k, 0) if k > 0 else (0, -k)
    plo, phi = pos, pos
    nlo, nhi = neg, neg
    pt = bvv(pos) if pos and pos < m else None
    nt = bvv(neg) if neg and neg < m else None
    if pos >= m or neg >= m:
        return None, None
    for c, t, lo, hi in d.values():
        a = abs(c)
        if a >= m:
            return None, None
        x = t if a == 1 else t * bvv(a)
        if c > 0:
            plo, phi = plo + a * lo, phi + a * hi
            pt = x if pt is None else pt + x
        else:
            nlo, nhi = nlo + a * lo, nhi + a * hi
            nt = x if nt is None else nt + x
    if min(plo, nlo) < -m or max(phi, nhi) >= m:
        return None, None
    return (pt if pt is not None else bvv(0)), (nt if nt is not None else bvv(0))


def z3_kind(t):
    return z3.Z3_get_decl_kind(t.ctx_ref(), z3.Z3_get_app_decl(t.ctx_ref(), t.as_ast())) if z3.is_app(t) else -1


def const_cmp(t):
    """(term, constant) of `term == constant` / `term <= constant`"""
    a, b = t.arg(0), t.arg(1)
    if z3.is_bv_value(b):
        return a, b.as_signed_long()
    if z3_kind(t) == z3.Z3_OP_EQ and z3.is_bv_value(a):
        return b, a.as_signed_long()
    return None, None


def is_bit(t):
    """c when t is the term If(c, 1, 0)"""
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        a, b = t.arg(1), t.arg(2)
        if z3.is_bv_value(a) and z3.is_bv_value(b) and a.as_long() == 1 and b.as_long() == 0:
            return t.arg(0)
    return None


def atom_eq(t, v):
    c = is_bit(t)
    if c is not None:
        return mkbool(c) if v == 1 else b_not(mkbool(c))
    return mkbool(t == bvv(v))


def lin_lt(a, o, plus):
    """a < o + plus, exactly (plus 1 gives <=)"""
    if isinstance(o, int):
        k, d = a.form()
        k -= o
    else:
        k, d = lin_add(a.form(), o.form(), -1)
    k -= plus
    # k + d < 0
    if not d:
        return k < 0
    lo, hi = lin_bounds(k, d)
    if hi < 0:
        return True
    if lo >= 0:
        return False
    if len(d) == 1:
        (i, (c, t, l, h)), = d.items()
        x = CUR.dom.get(i)
        if x is not None:
            l, h = max(l, x[0]), min(h, x[1])
        if c > 0:
            # t <= floor((-k-1)/c)
            v = (-k - 1) // c
            if v >= h:
                return True
            if v < l:
                return False
            b = is_bit(t)
            if b is not None:
                return b_not(mkbool(b))
            if v == l:
                return atom_eq(t, l)
            return mkbool(t <= bvv(v))
        # t > k/-c  <=>  t >= floor(k/-c)+1
        v = k // (-c) + 1
        if v <= l:
            return True
        if v > h:
            return False
        b = is_bit(t)
        if b is not None:
            return mkbool(b)
        if v == h:
            return atom_eq(t, h)
        return b_not(mkbool(t <= bvv(v - 1)))
    l, r = lin_sides(k, d)
    if l is None:
        return mkbool(a.t <= it(o)) if plus else mkbool(a.t < it(o))
    return mkbool(l < r)


_bits = {}


def bit(c):
    """0/1 integer of a condition"""
    neg = False
    while z3.is_not(c):
        c, neg = c.arg(0), not neg
    t = z3.If(c, bvv(1), bvv(0))
    x = SymInt(t, 0, 1)
    return 1 - x if neg else x


def bitbound(*xs):
    m = 0
    for x in xs:
        m = max(m, (x if x >= 0 else -x - 1).bit_length())
    return (1 << m) - 1


def _coerce(o):
    if isinstance(o, SymInt):
        return o
    if isinstance(o, bool):
        return int(o)
    if isinstance(o, int):
        return o
    if isinstance(o, SymBool):
        return as_int(o)
    return None


_bvv = {}


def bvv(v):
    W = CUR.W
    k = (W, v)
    r = _bvv.get(k)
    if r is None:
        if v < -(1 << (W - 1)) or v >= (1 << (W - 1)):
            raise EngineLimit('constant %d does not fit %d bits' % (v, W))
        r = _bvv[k] = z3.BitVecVal(v, W)
    return r


def mk(t, lo, hi):
    if lo == hi:
        return lo
    W = CUR.W
    if lo < -(1 << (W - 1)) or hi >= (1 << (W - 1)):
        raise EngineLimit('interval [%d,%d] does not fit %d bits' % (lo, hi, W))
    return SymInt(t, lo, hi)


def as_int(x):
    if isinstance(x, SymBool):
        return bit(x.t)
    if isinstance(x, bool):
        return int(x)
    return x


def it(x):
    return x.t if isinstance(x, SymInt) else bvv(int(x))


def iv(x):
    return (x.lo, x.hi) if isinstance(x, SymInt) else (int(x), int(x))


def narrow_op(f, ta, tb, *ivs):
    """f(ta, tb) worked out in as few bits as the operands' intervals need"""
    m = max(abs(x) for x in ivs) + 1
    n = m.bit_length() + 2
    w = ta.size()
    if n >= w:
        return f(ta, tb)
    return z3.SignExt(w - n, f(z3.Extract(n - 1, 0, ta), z3.Extract(n - 1, 0, tb)))


def _floordiv(a, b):
    blo, bhi = iv(b)
    alo, ahi = iv(a)
    if blo <= 0 <= bhi:
        if CUR.truth(b == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        if blo == 0:
            blo = 1
        if bhi == 0:
            bhi = -1
    if isinstance(b, int) and b > 0 and (b & (b - 1)) == 0:
        return a >> (b.bit_length() - 1) if isinstance(a, SymInt) else a // b
    ta, tb = it(a), it(b)
    if alo >= 0 and blo > 0:
        return mk(narrow_op(z3.UDiv, ta, tb, alo, ahi, blo, bhi), alo // bhi, ahi // blo)

    def div(ta, tb):
        q = ta / tb            # truncates
        r = z3.SRem(ta, tb)
        return z3.If(z3.And(r != 0, (r < 0) != (tb < 0)), q - 1, q)
    m = max(abs(alo), abs(ahi))
    lo, hi = -m - 1, m
    if isinstance(b, int):
        lo, hi = min(alo // b, ahi // b), max(alo // b, ahi // b)
    return mk(narrow_op(div, ta, tb, alo, ahi, blo, bhi), lo, hi)


def _mod(a, b):
    blo, bhi = iv(b)
    alo, ahi = iv(a)
    if blo <= 0 <= bhi:
        if CUR.truth(b == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        if blo == 0:
            blo = 1
        if bhi == 0:
            bhi = -1
    if isinstance(b, int) and b > 0 and (b & (b - 1)) == 0 and isinstance(a, SymInt):
        if alo >= 0 and ahi < b:
            return a
        return mk(a.t & bvv(b - 1), 0, b - 1)
    ta, tb = it(a), it(b)
    if alo >= 0 and blo > 0:
        if ahi < blo:
            return a
        return mk(narrow_op(z3.URem, ta, tb, alo, ahi, blo, bhi), 0, min(bhi - 1, ahi))

    def rem(ta, tb):
        r = z3.SRem(ta, tb)
        return z3.If(z3.And(r != 0, (r < 0) != (tb < 0)), r + tb, r)
    m = max(abs(blo), abs(bhi)) - 1
    return mk(narrow_op(rem, ta, tb, alo, ahi, blo, bhi), -m if blo < 0 else 0, m if bhi > 0 else 0)


# ---------------------------------------------------------------- reals
IEEE = False      # floats are IEEE double terms instead of reals
F64 = z3.Float64()


def teq(a, b):
    return z3.fpEQ(a, b) if IEEE else a == b


class NeedReals(Steer):
    """a real term is wanted by a solver set up for bit-vectors: the obligation
    is run again with one for all theories"""


def need_reals():
    if CUR is not None and CUR.logic == 'QF_BV':
        raise NeedReals('real arithmetic')


class SymReal(object):
    # q: (n, k) when the value is the integer n over 2**k; the term is built
    # when it is wanted
    __slots__ = ('_t', 'q')

    def __init__(self, t, q=None):
        if not IEEE and not (q is not None and callable(t)):
            need_reals()
        self._t = t
        self.q = q

    @property
    def t(self):
        if callable(self._t):
            if not IEEE:
                need_reals()
            self._t = self._t()
        return self._t

    def _o(self, o):
        return to_real(o).t if isinstance(o, (int, float, SymInt, SymBool, SymReal)) else None

    def __bool__(self):
        if self.q is not None and not IEEE:
            return CUR.truth(self.q[0] != 0)
        return CUR.branch(z3.Not(teq(self.t, to_real(0).t)))
    __hash__ = None

    def __pos__(self):
        return self

    def __neg__(self):
        if self.q is not None and not IEEE:
            return SymReal(lambda: -self.t, (-self.q[0], self.q[1]))
        return SymReal(-self.t)

    def __abs__(self):
        if self.q is not None and not IEEE:
            return SymReal(lambda: z3.If(self.t < 0, -self.t, self.t), (abs(self.q[0]), self.q[1]))
        return SymReal(z3.fpAbs(self.t) if IEEE else z3.If(self.t < 0, -self.t, self.t))

    def __pow__(self, n):
        if isinstance(n, SymInt):
            n = CUR.concretize(n)
        if isinstance(n, int):
            if n < 0:
                return 1.0 / (self ** (-n))
            r = to_real(1)
            for i in range(n):
                r = r * self
            return r
        return CUR.real_pow(self, n)

    def __rpow__(self, b):
        return CUR.real_pow(b, self)

    def __repr__(self):
        return '<SymReal %s>' % self.t

    def __truediv__(self, o):
        if self.q is not None and not IEEE and isinstance(o, (int, float)) and o > 0 and o == int(o) \
                and int(o) & (int(o) - 1) == 0 and self.q[1] + int(o).bit_length() <= 12:
            return SymReal(lambda: self.t / to_real(o).t, (self.q[0], self.q[1] + int(o).bit_length() - 1))
        o = self._o(o)
        if o is None:
            return NotImplemented
        if IEEE:
            if CUR.branch(z3.fpIsZero(o)):
                raise ZeroDivisionError('float division by zero')
        elif z3.is_rational_value(o):
            if o.numerator_as_long() == 0:
                raise ZeroDivisionError('float division by zero')
        elif CUR.branch(o == 0):
            raise ZeroDivisionError('float division by zero')
        return SymReal(self.t / o)

    def __rtruediv__(self, o):
        return to_real(o).__truediv__(self)


def quarters(a, b, name):
    if a is None or b is None:
        return None
    try:
        if name == 'mul':
            return (a[0] * b[0], a[1] + b[1])
        k = max(a[1], b[1])
        x, y = a[0] << (k - a[1]), b[0] << (k - b[1])
        return (x + y if name == 'add' else x - y, k)
    except EngineLimit:
        return None


def _rop(name, f, ref=False):
    kind = name.strip('_').lstrip('r')

    def g(self, o):
        if not isinstance(o, (int, float, SymInt, SymBool, SymReal)):
            return NotImplemented
        o = to_real(o)
        a, b = (o, self) if ref else (self, o)
        q = None if IEEE else quarters(a.q, b.q, kind)
        if q is not None and q[1] <= 12:
            return SymReal(lambda: f(a.t, b.t), q)
        return SymReal(f(a.t, b.t))
    setattr(SymReal, name, g)


for _n, _f in (('add', lambda a, b: a + b), ('sub', lambda a, b: a - b), ('mul', lambda a, b: a * b)):
    _rop('__%s__' % _n, _f)
    _rop('__r%s__' % _n, _f, True)


def _rcmp(name, f):
    def g(self, o):
        if not isinstance(o, (int, float, SymInt, SymBool, SymReal)):
            return False if name == '__eq__' else (True if name == '__ne__' else NotImplemented)
        o = to_real(o)
        if self.q is not None and o.q is not None and not IEEE:
            k = max(self.q[1], o.q[1])
            try:
                return getattr(_operator, name)(self.q[0] << (k - self.q[1]), o.q[0] << (k - o.q[1]))
            except EngineLimit:
                pass
        return mkbool(z3.simplify(f(self.t, o.t)))
    setattr(SymReal, name, g)


for _n, _f in (('lt', lambda a, b: a < b), ('le', lambda a, b: a <= b), ('gt', lambda a, b: a > b),
               ('ge', lambda a, b: a >= b), ('eq', lambda a, b: teq(a, b)), ('ne', lambda a, b: z3.Not(teq(a, b)))):
    _rcmp('__%s__' % _n, _f)
SymReal.__hash__ = None


def to_real(x):
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymBool):
        x = as_int(x)
    if IEEE:
        if isinstance(x, SymInt):
            return SymReal(z3.fpSignedToFP(z3.RNE(), x.t, F64))
        if isinstance(x, (bool, int, float)):
            return SymReal(z3.FPVal(float(x), F64))
    if isinstance(x, SymInt):
        return SymReal(lambda: z3.ToReal(z3.BV2Int(x.t, is_signed=True)), (x, 0))
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return SymReal(lambda: z3.RealVal(x), (x, 0))
    if isinstance(x, float):
        import fractions
        fr = fractions.Fraction(x)
        k = fr.denominator.bit_length() - 1
        t = z3.RealVal('%d/%d' % (fr.numerator, fr.denominator))
        if k <= 8:
            return SymReal(lambda: t, (fr.numerator, k))
        return SymReal(t)
    raise EngineLimit('not a number: %r' % (x,))


def real_floor(x):
    if IEEE or x.q is None:
        raise EngineLimit('floor of a real')
    return to_real(x.q[0] >> x.q[1])


def real_ceil(x):
    return -real_floor(-x)


def real_round(x):
    """halves go away from zero"""
    if IEEE or x.q is None:
        raise EngineLimit('round of a real')
    h = to_real(0.5)
    if CUR.truth(x < 0):
        return -real_floor(-x + h)
    return real_floor(x + h)


def real_int(x):
    """int() of a symbolic float"""
    if not IEEE:
        if x.q is None:
            raise EngineLimit('int of a real')
        n, k = x.q
        if k == 0:
            return n
        d = n >> k
        if isinstance(n, int):
            return d if n >= 0 else -((-n) >> k)
        if n.lo >= 0:
            return d
        neg = bt(n < 0)
        return ite(neg, -((-n) >> k), d)
    top = 1 << (CUR.W - 2)
    lo, hi = to_real(-top).t, to_real(top - 1).t
    if not CUR.branch(z3.And(x.t >= lo, x.t <= hi)):
        raise EngineLimit('int of a float out of range')
    return mk(z3.fpToSBV(z3.RTZ(), x.t, z3.BitVecSort(CUR.W)), -top, top - 1)


SYMNUM = (SymInt, SymBool, SymReal)


# ---------------------------------------------------------------- merging
class Unmergeable(Exception):
    pass


def ite(c, a, b):
    """value equal to a if c else b (c: z3 BoolRef)"""
    if a is b:
        return a
    ta, tb = type(a), type(b)
    if ta in (bool, SymBool) and tb in (bool, SymBool):
        if ta is bool and tb is bool:
            if a == b:
                return a
            return SymBool(c) if a else SymBool(z3.Not(c))
        return mkbool(z3.If(c, bt(a), bt(b)))
    if ta in (int, SymInt, bool, SymBool) and tb in (int, SymInt, bool, SymBool):
        a, b = as_int(a), as_int(b)
        if type(a) is int and type(b) is int and a == b:
            return a
        (al, ah), (bl, bh) = iv(a), iv(b)
        lo, hi = min(al, bl), max(ah, bh)
        fa = (a, {}) if type(a) is int else a.form()
        fb = (b, {}) if type(b) is int else b.form()
        bc = bit(c)
        if type(bc) is SymInt:
            # inside the branches the condition is known
            bf = bc.form()
            (bid, bx), = bf[1].items()
            one = bx[0] == 1
            for f, v in ((0, 1 if one else 0), (1, 0 if one else 1)):
                q = (fa, fb)[f]
                if bid in q[1]:
                    d = dict(q[1])
                    x = d.pop(bid)
                    q = (q[0] + x[0] * v, d)
                    if f == 0:
                        fa = q
                    else:
                        fb = q
                    nv = mklin(q[0], q[1], *lin_bounds(*q))
                    if f == 0:
                        a = nv
                    else:
                        b = nv
        if len(fa[1]) == len(fb[1]) and all(i in fa[1] and fa[1][i][0] == x[0] for i, x in fb[1].items()):
            # they differ by a constant only
            d = dict((i, (x[0], x[1], min(x[2], fa[1][i][2]), max(x[3], fa[1][i][3]))) for i, x in fb[1].items())
            dif = fa[0] - fb[0]
            if dif:
                k, d = lin_add((fb[0], d), (bit(c) * dif).form(), 1)
            else:
                k = fb[0]
            return mklin(k, d, lo, hi)
        return mk(z3.If(c, it(a), it(b)), lo, hi)
    if SymReal in (ta, tb) and ta in (int, float, SymReal, SymInt) and tb in (int, float, SymReal, SymInt):
        a, b = to_real(a), to_real(b)
        if a.q is not None and b.q is not None and not IEEE:
            k = max(a.q[1], b.q[1])
            return SymReal(lambda: z3.If(c, a.t, b.t), (ite(c, a.q[0] << (k - a.q[1]), b.q[0] << (k - b.q[1])), k))
        return SymReal(z3.If(c, a.t, b.t))
    if ta is tuple and tb is tuple and len(a) == len(b):
        return tuple([ite(c, x, y) for x, y in zip(a, b)])
    if ta is tb and ta in (str, float) and a == b:
        return a
    if ta.__name__ in ('str', 'SymStr') and tb.__name__ in ('str', 'SymStr'):
        from . import symstr
        return symstr.ite_str(c, a, b)
    raise Unmergeable()


# ---------------------------------------------------------------- explorer
class Decision(object):
    __slots__ = ('kind', 'data', 'taken', 'alt', 'pushed')

    def __init__(self, kind, data, taken, alt):
        self.kind, self.data, self.taken, self.alt, self.pushed = kind, data, taken, alt, False


class Stats(object):
    FIELDS = ('paths', 'dead_paths', 'queries', 'sat', 'unsat', 'unknown', 'branches', 'asserts', 'assert_queries',
              'summaries', 'summary_paths', 'limited')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.reach = {}
        self.functions = set()

    def as_dict(self):
        d = dict((f, getattr(self, f)) for f in self.FIELDS)
        d['solver_s'] = round(self.solver_s, 3)
        d['reach'] = dict(self.reach)
        d['functions'] = sorted(self.functions)
        return d


class Explorer(object):
    def __init__(self, width=16, logic='QF_BV', max_ticks=200000, query_ms=60000, deadline=None, summarize=True):
        self.W = width
        self.logic = logic
        global IEEE
        IEEE = logic == 'FP'
        if IEEE:
            logic = 'QF_FP'
        self.solver = z3.SolverFor(logic) if logic else z3.Solver()
        self.query_ms = query_ms
        self.solver.set('timeout', query_ms)
        self.stack = []
        self.pos = 0
        self.model = None
        self.inputs = {}          # name -> (kind, value)
        self.input_order = []
        self.ranges = {}
        self.max_ticks = max_ticks
        self.ticks = 0
        self.stats = Stats()
        self.deadline = deadline
        self.known = {}           # ast id -> (bool, ast) facts on this path
        self.spec = 0             # speculative depth: no forking
        self.summarize = summarize
        self.sum_stack = []
        self.no_summary = set()
        self.fresh = {}
        self.notes = []
        self.preals = None
        self.dom = {}
        self.base_asserts = 0
        self.collect = None       # labels -> violation when not stopping at first
        self.pathno = 0
        self.symbolic = True
        self.slice_end = 1e18
        self.sum_root = '/repo'
        self.sum_limit = 200

    # ---- solver -----------------------------------------------------
    def _check(self, extra=None):
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget')
        s = self.solver
        t0 = time.time()
        if extra is not None:
            s.push()
            s.add(extra)
            r = s.check()
            m = s.model() if r == z3.sat else None
            s.pop()
        else:
            r = s.check()
            m = s.model() if r == z3.sat else None
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
            raise EngineLimit('solver answered unknown: %s' % s.reason_unknown())
        return r == z3.sat, m

    def ensure_model(self, assuming=False):
        if self.model is None:
            ok, m = self._check()
            if not ok:
                if not assuming:
                    # every branch taken was checked feasible: nothing but an
                    # assumption can make a path infeasible
                    raise EngineFault('path condition became infeasible without an assumption')
                raise PathEnd()
            self.model = m
        return self.model

    def model_true(self, t):
        v = self.model.eval(t, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def truth(self, b):
        if isinstance(b, bool):
            return b
        return self.branch(b.t)

    def fact(self, t):
        v = True
        while z3.is_not(t):
            t, v = t.arg(0), not v
        k = self.known.get(t.get_id())
        if k is not None:
            return k[0] == v
        if self.dom:
            k = z3_kind(t)
            if k == z3.Z3_OP_EQ or k == z3.Z3_OP_SLEQ:
                x, c = const_cmp(t)
                if x is not None:
                    d = self.dom.get(x.get_id())
                    if d is not None:
                        if k == z3.Z3_OP_EQ:
                            if c < d[0] or c > d[1]:
                                return not v
                            if d[0] == d[1]:
                                return v
                        elif d[1] <= c:
                            return v
                        elif d[0] > c:
                            return not v
            elif k == z3.Z3_OP_AND or k == z3.Z3_OP_OR:
                und = False
                for a in t.children():
                    f = self.fact(a)
                    if f is None:
                        und = True
                    elif f != (k == z3.Z3_OP_AND):
                        return (k != z3.Z3_OP_AND) == v
                if not und:
                    return (k == z3.Z3_OP_AND) == v
        return None

    def note_fact(self, t, v):
        while z3.is_not(t):
            t, v = t.arg(0), not v
        self.known[t.get_id()] = (v, t)
        k = z3_kind(t)
        if k == z3.Z3_OP_EQ or k == z3.Z3_OP_SLEQ:
            x, c = const_cmp(t)
            if x is not None:
                i = x.get_id()
                m = 1 << (self.W - 1)
                lo, hi, _ = self.dom.get(i) or (-m, m, x)
                if k == z3.Z3_OP_EQ:
                    if v:
                        lo = hi = c
                    elif lo == c:
                        lo = c + 1
                    elif hi == c:
                        hi = c - 1
                elif v:
                    hi = min(hi, c)
                else:
                    lo = max(lo, c + 1)
                self.dom[i] = (lo, hi, x)
            return
        if v and z3.is_and(t):
            for c in t.children():
                self.note_fact(c, True)
        elif not v and z3.is_or(t):
            for c in t.children():
                self.note_fact(c, False)

    def branch(self, t):
        """decide a boolean term on this path, forking when both are possible"""
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        f = self.fact(t)
        if f is not None:
            return f
        if self.spec:
            raise SpecAbort()
        if self.pos < len(self.stack):
            d = self.stack[self.pos]
            self.pos += 1
            if d.kind != 'b':
                raise EngineFault('nondeterministic replay')
            if d.pushed is False:
                # prefix decision received from another process
                d.pushed = True
                self.solver.push()
                self.solver.add(t if d.taken else z3.Not(t))
                self.model = None
            self.note_fact(t, d.taken)
            d.data = t
            return d.taken
        self.stats.branches += 1
        self.ensure_model()
        mv = self.model_true(t)
        if mv is None:
            mv = True
            ok, m = self._check(t)
            if not ok:
                mv = False
            else:
                self.model = m
        other = z3.Not(t) if mv else t
        ok, m2 = self._check(other)
        if not ok:
            # forced: remember it so replays need no query
            d = Decision('b', t, mv, False)
            d.pushed = None
            self.stack.append(d)
            self.pos += 1
            self.note_fact(t, mv)
            return mv
        if not mv:
            # always True first: the order of exploration (and so the order of
            # the outcomes of a merged call) must not depend on the solver's model
            mv = True
            self.model = m2
        d = Decision('b', t, mv, True)
        d.pushed = True
        self.solver.push()
        self.solver.add(t if mv else z3.Not(t))
        self.stack.append(d)
        self.pos += 1
        self.note_fact(t, mv)
        return mv

    def concretize(self, x):
        """exact value of a symbolic integer on this path (forks over values)"""
        if isinstance(x, SymBool):
            x = as_int(x)
        if not isinstance(x, SymInt):
            return x
        if self.spec:
            raise SpecAbort()
        lo, hi = x.lo, x.hi
        if hi - lo > 4096:
            raise EngineLimit('concretizing a wide value')
        # binary-free linear enumeration from the low end, infeasible values pruned
        v = lo
        while v < hi:
            if self.branch(x.t == bvv(v)):
                return v
            v += 1
        return hi

    # ---- inputs -------------------------------------------------------
    def new_int(self, name, lo, hi):
        if name in self.inputs:
            if self.ranges[name] != (lo, hi):
                raise EngineFault('input %s declared twice with different ranges' % name)
            return self.inputs[name][1]
        self.ranges[name] = (lo, hi)
        t = z3.BitVec(name, self.W)
        if lo == hi:
            v = lo
        else:
            v = mk(t, lo, hi)
        self.inputs[name] = ('i', v)
        self.input_order.append(name)
        if lo != hi:
            self.base(z3.And(t >= bvv(lo), t <= bvv(hi)))
        return v

    def new_bool(self, name):
        if name in self.inputs:
            return self.inputs[name][1]
        v = SymBool(z3.Bool(name))
        self.inputs[name] = ('b', v)
        self.input_order.append(name)
        return v

    def new_real(self, name):
        if name in self.inputs:
            return self.inputs[name][1]
        if IEEE:
            raise EngineLimit('real input among IEEE floats')
        v = SymReal(z3.Real(name))      # (wants a solver with reals)
        self.inputs[name] = ('r', v)
        self.input_order.append(name)
        return v

    def base(self, t):
        """constraint on an input itself, or an axiom: holds on every path"""
        self.solver.add(t)
        n = self.solver.num_scopes()
        if n:
            # declared below a decision: added again when that is taken back
            self.late.append([n, t])
        self.nbase += 1
        self.model = None

    def pop(self):
        self.solver.pop()
        n = self.solver.num_scopes()
        for e in self.late:
            if e[0] > n:
                self.solver.add(e[1])
                e[0] = n
        if n == 0:
            self.late = []

    def assume(self, c):
        c = as_cond(c)
        if c is True:
            return
        if c is False:
            raise PathEnd()
        f = self.fact(c.t)
        if f is True:
            return
        if f is False:
            raise PathEnd()
        # an assumption is a decision with a single allowed outcome
        if self.pos < len(self.stack):
            d = self.stack[self.pos]
            self.pos += 1
            if d.kind != 'a':
                raise EngineFault('nondeterministic replay')
            if d.pushed is False:
                d.pushed = True
                self.solver.push()
                self.solver.add(c.t)
                self.model = None
            self.note_fact(c.t, True)
            return
        d = Decision('a', c.t, True, False)
        d.pushed = True
        self.solver.push()
        self.solver.add(c.t)
        self.stack.append(d)
        self.pos += 1
        self.note_fact(c.t, True)
        if self.model is not None and self.model_true(c.t) is not True:
            self.model = None
        self.ensure_model(True)

    # ---- obligations -----------------------------------------------------
    def check(self, c, label, detail=''):
        c = as_cond(c)
        self.stats.asserts += 1
        if c is True:
            return
        if c is False:
            self.ensure_model()
            raise Violation(label, self.values(self.model), detail)
        f = self.fact(c.t)
        if f is True:
            return
        self.stats.assert_queries += 1
        neg = z3.Not(c.t)
        if self.model is not None and self.model_true(neg) is True:
            raise Violation(label, self.values(self.model), detail)
        ok, m = self._check(neg)
        if ok:
            raise Violation(label, self.values(m), detail)
        self.note_fact(c.t, True)

    def reach(self, label):
        if label not in self.stats.reach:
            self.ensure_model()
            # the twin obligation assert(False) here must be violated
            ok, m = self._check()
            if not ok:
                raise EngineFault('reached point has no model')
            self.stats.reach[label] = 0
        self.stats.reach[label] += 1

    def random_model(self, rnd, tries=8):
        """a model of this path with some inputs drawn at random"""
        self.ensure_model()
        m = self.model
        names = [n for n in self.input_order if self.inputs[n][0] in 'ib' and not isinstance(self.inputs[n][1], int)]
        if not names:
            return m
        self.solver.push()
        try:
            misses = 0
            for n in rnd.sample(names, min(tries, len(names))):
                k, v = self.inputs[n]
                c = v.t == bvv(rnd.randint(v.lo, v.hi)) if k == 'i' else v.t == rnd.choice([True, False])
                if self.fact(c) is False:
                    continue
                ok, m2 = self._check(c)
                if ok:
                    self.solver.add(c)
                    m = m2
                else:
                    misses += 1
                    if misses > 3:
                        break
        except EngineLimit:
            pass
        finally:
            self.pop()
        return m

    def values(self, m):
        out = {}
        for n in self.input_order:
            k, v = self.inputs[n]
            if k == 'i':
                if isinstance(v, int):
                    out[n] = v
                else:
                    out[n] = m.eval(v.t, model_completion=True).as_signed_long()
            elif k == 'b':
                out[n] = z3.is_true(m.eval(v.t, model_completion=True))
            elif k == 'r':
                q = m.eval(v.t, model_completion=True)
                if z3.is_algebraic_value(q):
                    q = q.approx(20)
                if not z3.is_rational_value(q):
                    q = z3.simplify(q)
                out[n] = '%s' % q.as_fraction() if z3.is_rational_value(q) else '0'
        return out

    # ---- running ---------------------------------------------------------
    def tick(self):
        self.ticks += 1
        if self.ticks > self.max_ticks:
            raise NonTermination()
        if self.deadline and (self.ticks & 1023) == 0 and time.time() > self.deadline:
            raise Budget('time budget')

    def run(self, fn, prefix=(), max_paths=None):
        """explore every path of fn below the prefix.  Returns (violation or
        None, remaining prefixes)."""
        global CUR
        old, CUR = CUR, self
        self.late, self.nbase = [], 0
        self.stack = []
        self.base_n = len(prefix)
        for kind, taken in prefix:
            d = Decision(kind, None, taken, False)
            self.stack.append(d)
        n = 0
        try:
            while True:
                self.pos = 0
                self.ticks = 0
                self.known = {}
                self.dom = {}
                self.fresh = {}
                self.spec = 0
                self.sum_stack = []
                self.pathno += 1
                try:
                    fn(self)
                    self.stats.paths += 1
                except PathEnd:
                    self.stats.dead_paths += 1
                except EngineLimit as e:
                    # this path is left undecided; the others go on
                    self.stats.limited += 1
                    if len(self.notes) < 5:
                        self.notes.append(limit_text(e))
                except Violation as v:
                    return v, []
                n += 1
                # backtrack
                st = self.stack
                while st and not st[-1].alt:
                    d = st.pop()
                    if d.pushed:
                        self.pop()
                if not st:
                    return None, []
                d = st[-1]
                self.pop()
                d.alt = False
                d.taken = not d.taken
                self.solver.push()
                self.solver.add(d.data if d.taken else z3.Not(d.data))
                self.model = None
                if (max_paths is not None and n >= max_paths) or time.time() > self.slice_end:
                    return None, self.frontier()
        finally:
            CUR = old

    def frontier(self):
        """prefixes covering everything not explored yet"""
        out = [[(d.kind, d.taken) for d in self.stack]]
        for i, d in enumerate(self.stack):
            if d.alt:
                out.append([(x.kind, x.taken) for x in self.stack[:i]] + [('b', not d.taken)])
        return out

    # ---- merged calls --------------------------------------------------------
    def call(self, f, a, k):
        """f(*a, **k) with all its paths explored at once and merged when f is
        free of side effects and returns a scalar; otherwise executed inline"""
        fn = getattr(f, '__func__', f)
        code = fn.__code__
        if code.co_flags & 0x20 or not code.co_filename.startswith(self.sum_root):
            return f(*a, **k)
        key = (code.co_filename, code.co_firstlineno, code.co_name)
        if self.pos < len(self.stack):
            # follow the record: a replay must take a call the way it was taken
            d = self.stack[self.pos]
            self.pos += 1
            if d.kind == 'n':
                return f(*a, **k)
            if d.kind != 's':
                raise EngineFault('nondeterministic replay (call %s)' % (key,))
            if d.data is None:
                at = self.pos
                groups = self.explore_call(f, a, k, code, key)
                if groups is None:
                    raise EngineFault('merged call no longer merges (call %s)' % (key,))
                self.pos = at
                d.data = (code, groups)
            elif d.data[0] is not code:
                raise EngineFault('nondeterministic replay (call %s)' % (key,))
            return self.outcome(d.data[1])
        groups = None if key in self.no_summary else self.explore_call(f, a, k, code, key)
        if groups is None:
            self.no_summary.add(key)
            self.stack.append(Decision('n', None, True, False))
            self.stack[-1].pushed = None
            self.pos += 1
            return f(*a, **k)
        d = Decision('s', (code, groups), True, False)
        d.pushed = None
        self.stack.append(d)
        self.pos += 1
        return self.outcome(groups)

    def outcome(self, groups):
        for i, (c, kind, v) in enumerate(groups):
            if i == len(groups) - 1 or self.branch(c):
                if kind == 'v':
                    return v
                raise v.with_traceback(None)

    def explore_call(self, f, a, k, code, key):
        frame = SumFrame()
        outer = (self.stack, self.pos, self.known, self.model, self.spec, self.ticks)
        outdom = self.dom
        nbase = self.nbase
        self.sum_stack.append(frame)
        self.stack = []
        self.spec = 0
        outs = []
        n = 0
        maxticks = outer[5]
        try:
            while True:
                self.pos = 0
                self.known = dict(outer[2])
                self.dom = dict(outdom)
                self.ticks = outer[5]
                frame.fresh = {}
                try:
                    v = f(*a, **k)
                    if not is_scalar(v):
                        return None
                    out = ('v', v)
                except Exception as e:
                    if isinstance(e, NonTermination):
                        return None
                    out = ('e', e)
                maxticks = max(maxticks, self.ticks)
                n += 1
                self.stats.summary_paths += 1
                if n > self.sum_limit:
                    return None
                cs = []
                for d in self.stack:
                    if d.kind == 'b' and d.pushed:
                        cs.append(d.data if d.taken else z3.Not(d.data))
                outs.append((z3.And(cs) if len(cs) > 1 else (cs[0] if cs else None), out))
                st = self.stack
                while st and not st[-1].alt:
                    d = st.pop()
                    if d.pushed:
                        self.pop()
                if not st:
                    break
                d = st[-1]
                self.pop()
                d.alt = False
                d.taken = not d.taken
                self.solver.push()
                self.solver.add(d.data if d.taken else z3.Not(d.data))
                self.model = None
        except Impure:
            return None
        finally:
            for d in self.stack:
                if d.pushed:
                    self.pop()
            self.stack, self.pos, self.known, self.model, self.spec, self.ticks = outer
            self.dom = outdom
            if self.nbase != nbase:
                self.model = None
            self.ticks = maxticks
            self.sum_stack.pop()
        self.stats.summaries += 1
        # group
        groups = []
        for c, (kind, v) in outs:
            for g in groups:
                if g[1] != kind:
                    continue
                if kind == 'v':
                    try:
                        g[2] = ite(c, v, g[2])
                    except Unmergeable:
                        continue
                    g[0] = z3.Or(g[0], c)
                    break
                if type(g[2]) is type(v) and g[2].args is not None and same_args(g[2].args, v.args):
                    g[0] = z3.Or(g[0], c)
                    break
            else:
                groups.append([c, kind, v])
        return [tuple(g) for g in groups]

    # ---- reals -------------------------------------------------------------
    def real_pow(self, base, e):
        from . import reals
        return reals.rpow(self, base, e)


def limit_text(e):
    import traceback
    fs = [f for f in traceback.extract_tb(e.__traceback__) if '/checks/' in f.filename or '/repo/' in f.filename]
    return '%s (%s)' % (str(e)[:200], ' < '.join('%s:%d' % (f.filename.rpartition('/')[2], f.lineno)
                                                for f in fs[::-1][:4]))


class SumFrame(object):
    __slots__ = ('fresh', 'impure')

    def __init__(self):
        self.fresh, self.impure = {}, False


class Impure(Steer):
    """a merged call tried to change something it did not create"""


def is_scalar(v):
    if v is None or type(v) in (bool, int, str, float, SymBool, SymInt, SymReal):
        return True
    if type(v) is tuple:
        return all(is_scalar(x) for x in v)
    return type(v).__name__ == 'SymStr'


def same_args(a, b):
    return len(a) == len(b) and all(type(x) is type(y) and type(x) in (str, int) and x == y for x, y in zip(a, b))


class NonTermination(Exception):
    """loop bound exceeded: visible to the harness as an ordinary outcome"""


def as_cond(c):
    if isinstance(c, (bool, SymBool)):
        return c
    if isinstance(c, SymInt):
        return c != 0
    if isinstance(c, int):
        return c != 0
    if c is None:
        return False
    raise EngineLimit('condition %r' % (c,))
