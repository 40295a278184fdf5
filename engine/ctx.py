"""What a harness sees: symbolic mode (and concrete mode on the same engine)."""
from fractions import Fraction
from . import sym, rt, symstr
from .sym import SymInt, SymBool, SymReal, PathEnd, Violation, SpecAbort, Impure, EngineLimit


def as_float(text):
    """the float for a rational number, the same in the encoding and in the real interpreter"""
    f = Fraction(text)
    n, d = f.numerator, f.denominator
    m = n < 0 and -n or n
    while m >= 10 ** 300 or d >= 10 ** 300:
        m, d = m // 10 ** 20, d // 10 ** 20
    v = float(m) / float(d or 1)
    return n < 0 and -v or v


class Ctx(object):
    symbolic = True

    def __init__(self, params, fixed=None, ex=None):
        self.params = params
        self.symbolic = fixed is None
        self.fixed = fixed          # concrete values (validation / replay runs)
        self.trace = []
        self.ex = ex
        self.failed = None
        self.pre = ''               # what the names of inputs begin with

    def _pure(self):
        ex = self.ex
        if ex is None:
            return
        if ex.spec:
            raise SpecAbort()
        if ex.sum_stack:
            raise Impure()

    def param(self, name, default=None):
        return self.params.get(name, default)

    # ---- inputs
    def int(self, name, lo, hi):
        self._pure()
        name = self.pre + name
        if self.fixed is not None:
            return self.fixed.get(name, lo)
        return self.ex.new_int(name, lo, hi)

    def bool(self, name):
        self._pure()
        name = self.pre + name
        if self.fixed is not None:
            return self.fixed.get(name, False)
        return self.ex.new_bool(name)

    def real(self, name, lo=None, hi=None):
        self._pure()
        name = self.pre + name
        if self.fixed is not None:
            v = as_float(self.fixed.get(name, '0'))
            if lo is not None and v < lo or hi is not None and v > hi:
                raise sym.PathEnd()
            return v
        v = self.ex.new_real(name)
        if lo is not None:
            self.ex.assume(v >= lo)
        if hi is not None:
            self.ex.assume(v <= hi)
        return v

    def choice(self, name, seq):
        """one of seq (explored separately)"""
        i = self.int(name, 0, len(seq) - 1)
        if isinstance(i, SymInt):
            i = self.ex.concretize(i)
        return seq[i]

    def concrete(self, x):
        if isinstance(x, (SymInt, SymBool)):
            b = isinstance(x, SymBool)
            x = self.ex.concretize(x)
            if b:
                x = bool(x)
        return x

    def truth(self, x):
        return rt.r_truth(x)

    def chars(self, name, n, alphabet=None):
        """text of n characters out of alphabet (default: any byte)"""
        out = []
        for i in range(n):
            nm = '%s%s%d' % (self.pre, name, i)
            if self.fixed is not None:
                d = ord(alphabet[0]) if alphabet else 0
                out.append(chr(self.fixed.get(nm, d)))
                continue
            if alphabet is None:
                out.append(self.ex.new_int(nm, 0, 255))
            else:
                codes = sorted(set(map(ord, alphabet)))
                new = nm not in self.ex.inputs
                v = self.ex.new_int(nm, codes[0], codes[-1])
                if new and isinstance(v, SymInt) and codes[-1] - codes[0] + 1 != len(codes):
                    rs = []
                    for c in codes:
                        if rs and rs[-1][1] == c - 1:
                            rs[-1][1] = c
                        else:
                            rs.append([c, c])
                    self.ex.base(sym.bt(sym.b_or(*[sym.b_and(v >= a, v <= b) for a, b in rs])))
                out.append(v)
        return symstr.mkstr(tuple(out))

    def run(self, fn):
        """the harness; asked for again, once for other inputs before, in the same process"""
        if self.params.get('again'):
            self.pre, mine = 'before.', self.params
            self.params = dict(mine)
            self.params.update(mine.get('before', {}))
            fn(self)
            self.pre, self.params = '', mine
        fn(self)

    # ---- obligations
    def assume(self, c):
        self._pure()
        if self.fixed is not None:
            if not c:
                raise PathEnd()
            return
        self.ex.assume(rt.cond_of(c))

    def check(self, c, label, detail=''):
        self._pure()
        if self.fixed is not None:
            if not rt.r_truth(c):
                raise Violation(label, self.fixed, detail)
            return
        if self.pre:
            return                  # the obligation that asks once decides it
        c = rt.cond_of(c)
        self.ex.check(c, label, detail)

    def fail(self, label):
        self.check(False, label)

    def known(self, ident, cond):
        """inputs of a recorded finding are set aside (only while it is listed)"""
        if ident in self.params.get('known', ()):
            self.assume(rt.r_not(cond))

    def reach(self, label):
        self._pure()
        if self.fixed is not None or self.pre:
            return
        self.ex.reach(label)

    def see(self, x):
        """observation compared between this engine and the real interpreter"""
        if self.fixed is not None:
            self.trace.append(canon(x))


def canon(x):
    if x is None or isinstance(x, bool):
        return x
    if isinstance(x, int):
        return int(x)
    if isinstance(x, float):
        return '%.9g' % x
    if isinstance(x, str):
        return 's:' + ''.join(c if 32 <= ord(c) < 127 else '\\x%02x' % ord(c) for c in x)
    if isinstance(x, (tuple, list)):
        return [canon(y) for y in x]
    if isinstance(x, dict):
        return sorted([[canon(k), canon(v)] for k, v in x.items()], key=repr)
    if isinstance(x, symstr.SymStr):
        try:
            return canon(symstr.mkstr(tuple(x.settle())))
        except EngineLimit:
            return 'opaque'
    return 'obj:' + type(x).__name__
