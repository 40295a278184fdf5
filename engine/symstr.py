"""Symbolic byte strings: concrete length, each character a 1-char str or a
SymInt code; an element may also be Num(i), the decimal text of a symbolic
integer, which is expanded (forking on its length) only when looked into."""
from . import sym
from .sym import SymInt, SymBool, EngineLimit, b_and, b_or, b_not, ite, mk


class Num(object):
    """decimal text of a symbolic integer (never inspected yet)"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Opaque(object):
    """text of unknown content and length (repr of floats and the like): may
    be carried around and compared only by identity"""
    __slots__ = ('what', 'expand')

    def __init__(self, what, expand=None):
        self.what = what
        self.expand = expand


def code(c):
    return ord(c) if isinstance(c, str) else c


def ceq(a, b):
    """equality of two characters"""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    a, b = code(a), code(b)
    if isinstance(a, int):
        a, b = b, a
    return a == b


def chr_of(v):
    """1-character string from a code"""
    if isinstance(v, SymBool):
        v = sym.as_int(v)
    if isinstance(v, int):
        return chr(v)
    return SymStr((v,))


def digits_of(v):
    """characters of the decimal text of symbolic v (forks on sign, length)"""
    out = []
    if v.lo < 0:
        if sym.CUR.truth(v < 0):
            out.append('-')
            v = -v
            if isinstance(v, int):
                return tuple('-' + str(v))
            v = v.narrow(1, v.hi)
        else:
            v = v.narrow(0, v.hi)
        if isinstance(v, int):
            return tuple(out) + tuple(str(v))
    n = 1
    while v.hi >= 10 ** n and sym.CUR.truth(v >= 10 ** n):
        n += 1
    hi = min(v.hi, 10 ** n - 1)
    if isinstance(v, SymInt):
        v = v.narrow(0 if n == 1 else 10 ** (n - 1), hi)
    if isinstance(v, int):
        return tuple(out) + tuple(str(v))
    for k in range(n - 1, -1, -1):
        d = (v // (10 ** k)) % 10 if k else v % 10
        d = d + 48
        out.append(chr(d) if isinstance(d, int) else d)
    return tuple(out)


def ite_str(c, a, b):
    """a if c else b, for texts of one length"""
    x = tuple(a) if isinstance(a, str) else a.ch
    y = tuple(b) if isinstance(b, str) else b.ch
    if len(x) != len(y):
        raise sym.Unmergeable()
    out = []
    for p, q in zip(x, y):
        if p is q or isinstance(p, str) and p == q:
            out.append(p)
            continue
        if isinstance(p, (Num, Opaque)) or isinstance(q, (Num, Opaque)):
            raise sym.Unmergeable()
        v = ite(c, code(p), code(q))
        out.append(chr(v) if isinstance(v, int) else v)
    return mkstr(tuple(out))


class SymStr(object):
    __slots__ = ('ch',)
    __hash__ = None

    def __init__(self, ch):
        self.ch = ch

    # -- structure
    def settle(self):
        if any(isinstance(c, (Num, Opaque)) for c in self.ch):
            out = []
            for c in self.ch:
                if isinstance(c, Num):
                    out.extend(digits_of(c.v))
                elif isinstance(c, Opaque):
                    if c.expand is not None:
                        out.extend(c.expand())
                        continue
                    raise EngineLimit('looking into opaque text: %s' % c.what)
                else:
                    out.append(c)
            # not cached: what was learnt holds on this path only
            return tuple(out)
        return self.ch

    def __len__(self):
        return len(self.settle())

    def __bool__(self):
        if any(isinstance(c, Num) for c in self.ch):
            return True
        return len(self.settle()) > 0

    def __repr__(self):
        return '<SymStr %s>' % ''.join(c if isinstance(c, str) else '?' for c in self.ch)

    def __str__(self):
        raise EngineLimit('native str() of symbolic text')

    def __add__(self, o):
        if isinstance(o, (str, SymStr)):
            return mkstr(self.ch + tuple(chars_lazy(o)))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (str, SymStr)):
            return mkstr(tuple(chars_lazy(o)) + self.ch)
        return NotImplemented

    def __mul__(self, n):
        if isinstance(n, SymInt):
            n = sym.CUR.concretize(n)
        if not isinstance(n, int):
            return NotImplemented
        return mkstr(self.ch * n)
    __rmul__ = __mul__

    def __getitem__(self, i):
        ch = self.settle()
        if isinstance(i, slice):
            i = slice(*[sym.CUR.concretize(x) if isinstance(x, SymInt) else x for x in (i.start, i.stop, i.step)])
            return mkstr(ch[i])
        if isinstance(i, SymInt):
            i = sym.CUR.concretize(i)
        return mkstr((ch[i],))

    def __iter__(self):
        for c in self.settle():
            yield mkstr((c,))

    def __reversed__(self):
        for c in reversed(self.settle()):
            yield mkstr((c,))

    # -- comparison
    def __eq__(self, o):
        if isinstance(o, (str, SymStr)):
            return str_eq(self, o)
        return False

    def __ne__(self, o):
        return b_not(self.__eq__(o))

    def _cmp(self, o, strict_lt, or_eq):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        a, b = self.settle(), chars(o)
        for x, y in zip(a, b):
            if sym.CUR.truth(ceq(x, y)):
                continue
            return code(x) < code(y) if strict_lt else code(x) > code(y)
        if len(a) == len(b):
            return or_eq
        return (len(a) < len(b)) if strict_lt else (len(a) > len(b))

    def __lt__(self, o):
        return self._cmp(o, True, False)

    def __le__(self, o):
        return self._cmp(o, True, True)

    def __gt__(self, o):
        return self._cmp(o, False, False)

    def __ge__(self, o):
        return self._cmp(o, False, True)

    def __contains__(self, o):
        return sym.CUR.truth(contains(self, o))

    def __mod__(self, args):
        return fmt(self, args)

    def __getattr__(self, name):
        m = METHODS.get(name)
        if m is None:
            if hasattr(str, name):
                raise EngineLimit('method %s of symbolic text' % name)
            raise AttributeError("'str' object has no attribute '%s'" % name)
        return lambda *a, **k: m(self, *a, **k)


def chars(x):
    return tuple(x) if isinstance(x, str) else x.settle()


def chars_lazy(x):
    return tuple(x) if isinstance(x, str) else x.ch


def mkstr(ch):
    for c in ch:
        if not isinstance(c, str):
            break
    else:
        return ''.join(ch)
    out = []
    for c in ch:
        if isinstance(c, int):
            c = chr(c)
        out.append(c)
    if all(isinstance(c, str) for c in out):
        return ''.join(out)
    return SymStr(tuple(out))


def str_eq(a, b):
    la, lb = chars_lazy(a), chars_lazy(b)
    if len(la) == len(lb):
        # identical lazily-held parts compare equal without expansion
        ok = True
        conds = []
        for x, y in zip(la, lb):
            if x is y:
                continue
            if isinstance(x, (Num, Opaque)) or isinstance(y, (Num, Opaque)):
                if isinstance(x, Num) and isinstance(y, Num) and len(la) == 1:
                    conds.append(x.v == y.v)
                    continue
                ok = False
                break
            c = ceq(x, y)
            if c is False:
                conds = None
                if any(isinstance(z, (Num, Opaque)) for z in la + lb):
                    ok = False
                break
            conds.append(c)
        if ok:
            return False if conds is None else b_and(*conds)
    a, b = chars(a), chars(b)
    if len(a) != len(b):
        return False
    conds = []
    for x, y in zip(a, b):
        c = ceq(x, y)
        if c is False:
            return False
        conds.append(c)
    return b_and(*conds)


def at(ch, sub, i):
    """condition: sub occurs in ch at i"""
    conds = []
    for x, y in zip(ch[i:i + len(sub)], sub):
        c = ceq(x, y)
        if c is False:
            return False
        conds.append(c)
    return b_and(*conds)


def contains(s, o):
    if not isinstance(o, (str, SymStr)):
        raise TypeError("'in <string>' requires string as left operand")
    s, o = chars(s), chars(o)
    return b_or(*[at(s, o, i) for i in range(0, len(s) - len(o) + 1)])


def truth(c):
    return c if isinstance(c, bool) else sym.CUR.branch(c.t)


METHODS = {}


def method(f):
    METHODS[f.__name__.rstrip('_')] = f
    return f


def fidx(n, i, j):
    i = 0 if i is None else i
    j = n if j is None else j
    if isinstance(i, SymInt):
        i = sym.CUR.concretize(i)
    if isinstance(j, SymInt):
        j = sym.CUR.concretize(j)
    s = slice(i, j).indices(n)
    return s[0], s[1]


@method
def find(s, sub, i=None, j=None):
    ch, sb = chars(s), chars(sub)
    i, j = fidx(len(ch), i, j)
    for k in range(i, j - len(sb) + 1):
        if truth(at(ch, sb, k)):
            return k
    return -1


@method
def rfind(s, sub, i=None, j=None):
    ch, sb = chars(s), chars(sub)
    i, j = fidx(len(ch), i, j)
    for k in range(j - len(sb), i - 1, -1):
        if truth(at(ch, sb, k)):
            return k
    return -1


@method
def index(s, sub, i=None, j=None):
    k = find(s, sub, i, j)
    if k < 0:
        raise ValueError('substring not found')
    return k


@method
def count(s, sub, i=None, j=None):
    ch, sb = chars(s), chars(sub)
    i, j = fidx(len(ch), i, j)
    if len(sb) == 1:
        n = 0
        for k in range(i, j):
            c = ceq(ch[k], sb[0])
            n = n + (int(c) if isinstance(c, bool) else sym.as_int(c))
        return n
    n, k = 0, i
    while k <= j - len(sb):
        if truth(at(ch, sb, k)):
            n += 1
            k += max(1, len(sb))
        else:
            k += 1
    return n


@method
def startswith(s, p, i=None, j=None):
    if isinstance(p, tuple):
        return b_or(*[startswith(s, x, i, j) for x in p])
    ch, sb = chars(s), chars(p)
    i, j = fidx(len(ch), i, j)
    if j - i < len(sb):
        return False
    return at(ch, sb, i)


@method
def endswith(s, p, i=None, j=None):
    if isinstance(p, tuple):
        return b_or(*[endswith(s, x, i, j) for x in p])
    ch, sb = chars(s), chars(p)
    i, j = fidx(len(ch), i, j)
    if j - i < len(sb):
        return False
    return at(ch, sb, j - len(sb))


WS = '\t\n\x0b\x0c\r '


def oneof(c, xs):
    if isinstance(c, str):
        return c in xs
    return b_or(*[c == ord(x) for x in xs]) if isinstance(xs, str) else b_or(*[ceq(c, x) for x in chars(xs)])


@method
def lstrip(s, cs=None):
    ch = chars(s)
    cs = WS if cs is None else cs
    i = 0
    while i < len(ch) and truth(oneof(ch[i], cs)):
        i += 1
    return mkstr(ch[i:])


@method
def rstrip(s, cs=None):
    ch = chars(s)
    cs = WS if cs is None else cs
    i = len(ch)
    while i > 0 and truth(oneof(ch[i - 1], cs)):
        i -= 1
    return mkstr(ch[:i])


@method
def strip(s, cs=None):
    r = lstrip(s, cs)
    return r.rstrip(WS if cs is None else cs) if isinstance(r, str) and not isinstance(cs, SymStr) else rstrip(r, cs)


@method
def split(s, sep=None, maxsplit=-1):
    if (isinstance(s, SymStr) and isinstance(sep, str) and len(sep) == 1 and sep not in '-0123456789' and
            not any(isinstance(x, Opaque) for x in s.ch)):
        # a number's text never holds the separator: leave it closed
        out, part = [], []
        for x in s.ch:
            if not isinstance(x, Num) and not 0 <= maxsplit <= len(out) and truth(ceq(x, sep)):
                out.append(mkstr(tuple(part)))
                part = []
            else:
                part.append(x)
        out.append(mkstr(tuple(part)))
        return out
    ch = chars(s)
    out = []
    if sep is None:
        i = 0
        while True:
            while i < len(ch) and truth(oneof(ch[i], WS)):
                i += 1
            if i >= len(ch):
                return out
            if maxsplit >= 0 and len(out) >= maxsplit:
                out.append(rstrip(mkstr(ch[i:])) if not isinstance(mkstr(ch[i:]), str) else mkstr(ch[i:]).rstrip())
                return out
            j = i
            while j < len(ch) and not truth(oneof(ch[j], WS)):
                j += 1
            out.append(mkstr(ch[i:j]))
            i = j
    sb = chars(sep)
    if not sb:
        raise ValueError('empty separator')
    i = start = 0
    while i <= len(ch) - len(sb):
        if maxsplit >= 0 and len(out) >= maxsplit:
            break
        if truth(at(ch, sb, i)):
            out.append(mkstr(ch[start:i]))
            i += len(sb)
            start = i
        else:
            i += 1
    out.append(mkstr(ch[start:]))
    return out


@method
def splitlines(s, keepends=False):
    ch = chars(s)
    out = []
    i = start = 0
    while i < len(ch):
        if truth(ceq(ch[i], '\n')):
            e = i + 1
        elif truth(ceq(ch[i], '\r')):
            e = i + 2 if i + 1 < len(ch) and truth(ceq(ch[i + 1], '\n')) else i + 1
        else:
            i += 1
            continue
        out.append(mkstr(ch[start:e if keepends else i]))
        i = start = e
    if start < len(ch):
        out.append(mkstr(ch[start:]))
    return out


@method
def partition(s, sep):
    k = find(s, sep)
    if k < 0:
        return (s, '', '')
    n = len(chars(sep))
    ch = chars(s)
    return (mkstr(ch[:k]), sep, mkstr(ch[k + n:]))


@method
def rpartition(s, sep):
    k = rfind(s, sep)
    if k < 0:
        return ('', '', s)
    n = len(chars(sep))
    ch = chars(s)
    return (mkstr(ch[:k]), sep, mkstr(ch[k + n:]))


@method
def replace(s, a, b, n=-1):
    ch, sa, sb = chars(s), chars(a), chars(b)
    if not sa:
        out = []
        for i, c in enumerate(ch):
            if n < 0 or i < n:
                out.extend(sb)
            out.append(c)
        if n < 0 or len(ch) < n:
            out.extend(sb)
        return mkstr(tuple(out))
    out = []
    i = 0
    while i < len(ch):
        if n != 0 and i + len(sa) <= len(ch) and truth(at(ch, sa, i)):
            out.extend(sb)
            i += len(sa)
            n -= 1
        else:
            out.append(ch[i])
            i += 1
    return mkstr(tuple(out))


@method
def join(s, xs):
    out = []
    first = True
    for x in xs:
        if not isinstance(x, (str, SymStr)):
            raise TypeError('sequence item: expected string, %s found' % type(x).__name__)
        if not first:
            out.extend(chars_lazy(s))
        out.extend(chars_lazy(x))
        first = False
    return mkstr(tuple(out))


def rng(c, a, b):
    c = code(c)
    return b_and(c >= ord(a), c <= ord(b))


def maps(s, f):
    out = []
    for c in chars(s):
        out.append(f(c))
    return mkstr(tuple(out))


def low1(c):
    if isinstance(c, str):
        return chr(ord(c) + 32) if 'A' <= c <= 'Z' else c
    k = rng(c, 'A', 'Z')
    return c if k is False else (c + 32 if k is True else ite(k.t, c + 32, c))


def up1(c):
    if isinstance(c, str):
        return chr(ord(c) - 32) if 'a' <= c <= 'z' else c
    k = rng(c, 'a', 'z')
    return c if k is False else (c - 32 if k is True else ite(k.t, c - 32, c))


@method
def lower(s):
    return maps(s, low1)


@method
def upper(s):
    return maps(s, up1)


@method
def capitalize(s):
    ch = chars(s)
    return mkstr(tuple([up1(ch[0])] + [low1(c) for c in ch[1:]])) if ch else ''


def swap1(c):
    if isinstance(c, str):
        return low1(c) if 'A' <= c <= 'Z' else up1(c)
    a, b = rng(c, 'A', 'Z'), rng(c, 'a', 'z')
    r = c
    if b is not False:
        r = c - 32 if b is True else ite(b.t, c - 32, r)
    if a is not False:
        r = c + 32 if a is True else ite(a.t, c + 32, r)
    return r


@method
def swapcase(s):
    return maps(s, swap1)


@method
def title(s):
    out = []
    inside = False
    for c in chars(s):
        out.append(low1(c) if inside else up1(c))
        inside = truth(b_or(rng(c, 'a', 'z'), rng(c, 'A', 'Z')))
    return mkstr(tuple(out))


@method
def istitle(s):
    from . import rt
    ch = chars(s)
    return b_and(b_or(*[b_or(rng(c, 'a', 'z'), rng(c, 'A', 'Z')) for c in ch]), rt.r_eq(s, title(s)))


@method
def center(s, n, f=' '):
    ch = chars(s)
    pad = max(0, n - len(ch))
    left = pad // 2 + (pad & n & 1)
    return mkstr(tuple(f) * left + ch + tuple(f) * (pad - left))


@method
def expandtabs(s, n=8):
    out = []
    col = 0
    for c in chars(s):
        if truth(ceq(c, '\t')):
            k = n - col % n if n > 0 else 0
            out.extend(' ' * k)
            col += k
        else:
            out.append(c)
            col = 0 if truth(oneof(c, '\n\r')) else col + 1
    return mkstr(tuple(out))


@method
def rsplit(s, sep=None, maxsplit=-1):
    if maxsplit < 0:
        return split(s, sep)
    ch = chars(s)
    out = []
    j = len(ch)
    if sep is None:
        while True:
            while j > 0 and truth(oneof(ch[j - 1], WS)):
                j -= 1
            if j == 0:
                break
            if maxsplit == 0:
                i = 0
                while i < j and truth(oneof(ch[i], WS)):
                    i += 1
                out.append(mkstr(ch[:j]))
                break
            i = j
            while i > 0 and not truth(oneof(ch[i - 1], WS)):
                i -= 1
            out.append(mkstr(ch[i:j]))
            j = i
            maxsplit -= 1
    else:
        n = len(chars(sep))
        if n == 0:
            raise ValueError('empty separator')
        i = j - n
        while maxsplit > 0 and i >= 0:
            if truth(at(ch, chars(sep), i)):
                out.append(mkstr(ch[i + n:j]))
                j = i
                i = j - n
                maxsplit -= 1
            else:
                i -= 1
        out.append(mkstr(ch[:j]))
    out.reverse()
    return out


@method
def translate(s, table, deletechars=''):
    if not isinstance(table, str) or isinstance(deletechars, SymStr):
        if table is None:
            table = ''.join(map(chr, range(256)))
        else:
            raise EngineLimit('translation by something other than a text of 256')
    out = []
    for c in chars(s):
        if isinstance(c, str):
            if c not in deletechars:
                out.append(table[ord(c)])
            continue
        if deletechars and truth(oneof(c, deletechars)):
            continue
        lo, hi = max(c.lo, 0), min(c.hi, 255)
        r = c
        for k in range(lo, hi + 1):
            if ord(table[k]) != k:
                e = c == k
                r = ord(table[k]) if e is True else r if e is False else ite(e.t, ord(table[k]), r)
        out.append(chr(r) if isinstance(r, int) else r)
    return mkstr(tuple(out))


@method
def format(f, *args, **kw):
    """f.format(*args, **kw)"""
    from . import rt
    import string
    import _string
    f = mkstr(chars(f))
    if isinstance(f, SymStr):
        if truth(contains(f, '{')) or truth(contains(f, '}')):
            raise EngineLimit('format text is symbolic')
        return f
    auto = [0]

    def field(name):
        first, rest = _string.formatter_field_name_split(name)
        if first == '':
            first = auto[0]
            auto[0] += 1
        if isinstance(first, int):
            if first >= len(args):
                raise IndexError('tuple index out of range')
            v = args[first]
        else:
            if first not in kw:
                raise KeyError(first)
            v = kw[first]
        for is_attr, x in rest:
            v = rt.r_getattr(v, x) if is_attr else rt.r_getitem(v, x)
        return v

    def expand(f, depth):
        out = []
        if depth > 2:
            raise ValueError('Max string recursion exceeded')
        try:
            parts = list(string.Formatter().parse(f))
        except ValueError as e:
            raise ValueError(str(e))
        for lit, name, spec, conv in parts:
            out.extend(lit)
            if name is None:
                continue
            v = field(name)
            if conv == 's':
                v = to_str(v)
            elif conv == 'r':
                v = rt.r_repr(v)
            elif conv:
                raise ValueError('Unknown conversion specifier ' + conv)
            if spec and '{' in spec:
                spec = mkstr(chars(expand(spec, depth + 1)))
                if isinstance(spec, SymStr):
                    raise EngineLimit('symbolic format specifier')
            out.extend(chars_lazy(format_value(v, spec or '')))
        return mkstr(tuple(out))
    return expand(f, 1)


SPEC = None


def format_value(v, spec=''):
    """format(v, spec)"""
    global SPEC
    from . import rt
    import re
    if isinstance(spec, SymStr):
        raise EngineLimit('symbolic format specifier')
    t = type(v)
    if rt.is_user(t):
        u = rt.find_user(t, '__format__')
        if u is not None:
            return u(v, spec)
    if spec == '':
        return to_str(v)
    if SPEC is None:
        SPEC = re.compile(r'(?:(.)?([<>=^]))?([-+ ])?(#)?(0)?(\d+)?(,)?(?:\.(\d+))?([a-zA-Z%])?\Z', re.S)
    m = SPEC.match(spec)
    if m is None:
        raise ValueError('Invalid conversion specification')
    fill, align, sign, alt, zero, width, comma, prec, typ = m.groups()
    num = isinstance(v, (int, float, SymInt, SymBool, sym.SymReal))
    if isinstance(v, sym.SymReal):
        return SymStr((Opaque('float format'),))
    if isinstance(v, float):
        if typ is None:
            raise EngineLimit('format of a float without a type')
        if typ not in 'eEfFgGn%':
            raise ValueError("Unknown format code '%s' for object of type 'float'" % typ)
        return v.__format__(spec)
    if num:
        v = sym.as_int(v)
        if typ is not None and typ not in 'dbcoxXneEfFgG%':
            raise ValueError("Unknown format code '%s' for object of type 'int'" % typ)
        if prec is not None and (typ is None or typ in 'dbcoxXn'):
            raise ValueError('Precision not allowed in integer format specifier')
        if isinstance(v, SymInt) and ((typ is not None and typ not in 'dn') or comma):
            v = sym.CUR.concretize(v)
        if isinstance(v, int):
            return v.__format__(spec)
        neg = sym.CUR.truth(v < 0) if v.lo < 0 else False
        body = digits_of(v)
        if neg:
            body = body[1:]
        pre = ('-',) if neg else (sign,) if sign in ('+', ' ') else ()
        if zero and not align:
            fill, align = '0', '='
        align = align or '>'
    else:
        body, pre = (v if isinstance(v, (str, SymStr)) else to_str(v)), ()
        if typ not in (None, 's'):
            raise ValueError("Unknown format code '%s' for object of type 'str'" % typ)
        if sign:
            raise ValueError('Sign not allowed in string format specifier')
        if align == '=' or (zero and not align):
            raise ValueError("'=' alignment not allowed in string format specifier")
        body = chars(body)
        if prec is not None:
            body = body[:int(prec)]
        align = align or '<'
    fill = fill or ('0' if zero else ' ')
    pad = max(0, int(width or 0) - len(body) - len(pre))
    if align == '<':
        return mkstr(pre + body + (fill,) * pad)
    if align == '>':
        return mkstr((fill,) * pad + pre + body)
    if align == '=':
        return mkstr(pre + (fill,) * pad + body)
    return mkstr((fill,) * (pad // 2) + pre + body + (fill,) * (pad - pad // 2))


def all_in(s, f):
    ch = chars(s)
    if not ch:
        return False
    return b_and(*[f(c) for c in ch])


@method
def isdigit(s):
    return all_in(s, lambda c: rng(c, '0', '9'))


@method
def isalpha(s):
    return all_in(s, lambda c: b_or(rng(c, 'a', 'z'), rng(c, 'A', 'Z')))


@method
def isalnum(s):
    return all_in(s, lambda c: b_or(rng(c, 'a', 'z'), rng(c, 'A', 'Z'), rng(c, '0', '9')))


@method
def isspace(s):
    return all_in(s, lambda c: oneof(c, WS))


@method
def isupper(s):
    ch = chars(s)
    return b_and(b_or(*[rng(c, 'A', 'Z') for c in ch]), b_not(b_or(*[rng(c, 'a', 'z') for c in ch])))


@method
def islower(s):
    ch = chars(s)
    return b_and(b_or(*[rng(c, 'a', 'z') for c in ch]), b_not(b_or(*[rng(c, 'A', 'Z') for c in ch])))


@method
def encode(s, *a):
    return s


@method
def decode(s, *a):
    return s


@method
def ljust(s, n, f=' '):
    ch = chars(s)
    return mkstr(ch + tuple(f) * max(0, n - len(ch)))


@method
def rjust(s, n, f=' '):
    ch = chars(s)
    return mkstr(tuple(f) * max(0, n - len(ch)) + ch)


@method
def zfill(s, n):
    ch = chars(s)
    return mkstr(('0',) * max(0, n - len(ch)) + ch)


# ------------------------------------------------------------ numbers
def to_int(s, base=10):
    """int(text) with Python's grammar (optional spaces, sign, digits)"""
    if isinstance(s, SymStr) and len(s.ch) == 1 and isinstance(s.ch[0], Num) and base == 10:
        return s.ch[0].v
    ch = list(chars(s))

    def bad():
        raise ValueError('invalid literal for int()')
    while ch and truth(oneof(ch[0], WS)):
        ch.pop(0)
    while ch and truth(oneof(ch[-1], WS)):
        ch.pop()
    neg = False
    if ch:
        if truth(ceq(ch[0], '-')):
            neg = True
            ch.pop(0)
        elif truth(ceq(ch[0], '+')):
            ch.pop(0)
    if not ch:
        bad()
    v = 0
    if base != 10:
        if base == 0 or isinstance(base, SymInt):
            raise EngineLimit('int(text, base)')
        if base == 16 and len(ch) > 1 and truth(ceq(ch[0], '0')) and truth(oneof(ch[1], 'xX')):
            ch = ch[2:]
        if base in (8, 2) and len(ch) > 1 and truth(ceq(ch[0], '0')) and truth(oneof(ch[1], 'oO' if base == 8 else 'bB')):
            ch = ch[2:]
        if not ch:
            bad()
        for c in ch:
            k = code(c)
            if truth(rng(c, '0', '9')):
                d = k - 48
            elif truth(rng(c, 'a', 'z')):
                d = k - 87
            elif truth(rng(c, 'A', 'Z')):
                d = k - 55
            else:
                bad()
            if not truth(d < base):
                bad()
            if isinstance(d, SymInt):
                d = d.narrow(0, base - 1)
            v = v * base + d
        return -v if neg else v
    for c in ch:
        if not truth(rng(c, '0', '9')):
            bad()
        d = code(c) - 48
        if isinstance(d, SymInt):
            d = d.narrow(0, 9)
        v = v * 10 + d
    return -v if neg else v


import re as _re
FMT = _re.compile(r'%(\(([^)]*)\))?([-#0 +]*)(\d+|\*)?(\.(\d+|\*))?[hlL]?([a-zA-Z%])')


def to_str(v):
    from . import rt
    return rt.r_str(v)


def has_sym(v):
    if isinstance(v, (SymInt, SymBool, SymStr, sym.SymReal)):
        return True
    if isinstance(v, (tuple, list)):
        return any(has_sym(x) for x in v)
    if isinstance(v, dict):
        return any(has_sym(x) for x in v.values())
    return not isinstance(v, (int, str, float, type(None)))


def fmt(f, args):
    """f % args"""
    from . import rt
    if isinstance(f, SymStr):
        f = mkstr(chars(f))
    if isinstance(f, SymStr):
        if not all(isinstance(c, str) for c in f.ch):
            # only formats without any % character possible
            if truth(contains(f, '%')):
                raise EngineLimit('format text is symbolic')
            if isinstance(args, tuple) and args:
                raise TypeError('not all arguments converted during string formatting')
            return f
        f = ''.join(f.ch)
    out = []
    pos = 0
    mapping = args if isinstance(args, dict) or not isinstance(args, tuple) else None
    seq = list(args) if isinstance(args, tuple) else [args]
    used = 0
    named = False
    for m in FMT.finditer(f):
        lit = f[pos:m.start()]
        if '%' in lit:
            raise ValueError('unsupported format character')
        out.extend(lit)
        pos = m.end()
        conv = m.group(7)
        if conv == '%':
            out.append('%')
            continue
        def arg():
            nonlocal used
            if used >= len(seq):
                raise TypeError('not enough arguments for format string')
            used += 1
            return seq[used - 1]

        flags, width, prec = m.group(3) or '', m.group(4), m.group(6)
        if m.group(1):
            named = True
            if not isinstance(args, dict) and not hasattr(args, '__getitem__'):
                raise TypeError('format requires a mapping')
        if width == '*':
            width = sym.CUR.concretize(arg()) if has_sym(seq[used:used + 1]) else arg()
            if width < 0:
                flags, width = flags + '-', -width
        if prec == '*':
            prec = sym.CUR.concretize(arg()) if has_sym(seq[used:used + 1]) else arg()
        if m.group(5) and prec is None:
            prec = 0
        v = rt.r_getitem(args, m.group(2)) if m.group(1) else arg()
        spec = flags + ('' if width is None else str(width)) + ('' if prec is None else '.%s' % prec)
        if conv == 's':
            t = to_str(v)
        elif conv == 'r':
            t = rt.r_repr(v)
        elif conv in 'diu':
            if isinstance(v, (SymInt, SymBool)):
                t = to_str(sym.as_int(v))
            elif isinstance(v, (int, float)):
                t = str(int(v))
            elif isinstance(v, sym.SymReal):
                t = to_str(sym.real_int(v))
            else:
                raise TypeError('%d format: a number is required')
        elif conv == 'c':
            t = chr_of(v) if not isinstance(v, (str, SymStr)) else v
            if len(chars(t)) != 1:
                raise TypeError('%c requires int or char')
        elif conv in 'fFgGeExXo':
            if isinstance(v, sym.SymReal):
                t = SymStr((Opaque('float format'),))
                spec = None
            else:
                if isinstance(v, (SymInt, SymBool)):
                    v = sym.CUR.concretize(v)
                if not isinstance(v, (int, float)):
                    raise TypeError('float argument required')
                if conv in 'xXo' and isinstance(v, float):
                    v = int(v)
                t = ('%' + spec + conv) % v
                if conv == 'o' and '#' in flags:
                    raise EngineLimit('octal prefix')
                spec = None
        else:
            raise ValueError('unsupported format character %r' % conv)
        if spec:
            t = mkstr(chars(t))
            if isinstance(t, str):
                t = ('%' + spec + 'd') % int(t) if conv in 'diu' else ('%' + spec + 's') % t
            else:
                w = int(width or 0)
                ch = tuple(t.ch)
                if prec is not None and conv in 'sr':
                    ch = ch[:int(prec)]
                elif prec is not None:
                    raise EngineLimit('precision of symbolic integer')
                if conv in 'diu' and ch[0] != '-':
                    if '+' in flags:
                        ch = ('+',) + ch
                    elif ' ' in flags:
                        ch = (' ',) + ch
                pad = w - len(ch)
                if pad > 0:
                    if '-' in flags:
                        ch = ch + (' ',) * pad
                    elif '0' in flags and conv in 'diu':
                        k = 1 if ch[0] in ('-', '+', ' ') else 0
                        ch = ch[:k] + ('0',) * pad + ch[k:]
                    else:
                        ch = (' ',) * pad + ch
                t = mkstr(ch)
        out.extend(chars_lazy(t))
    lit = f[pos:]
    if '%' in lit:
        raise ValueError('incomplete format')
    out.extend(lit)
    if not named and used < len(seq) and not isinstance(args, dict):
        raise TypeError('not all arguments converted during string formatting')
    return mkstr(tuple(out))
