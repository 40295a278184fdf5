"""Regular expressions over symbolic text: a backtracking matcher with the
semantics of Python 2's engine for byte strings without locale (leftmost,
ordered alternatives, greedy/lazy repeats).  Each character test that is not
decided by the path forks.  Concrete text goes to the native engine."""
import re as _re
from re import _parser as P, _constants as K
from . import sym, symstr
from .sym import EngineLimit, b_and, b_or, b_not
from .symstr import SymStr, mkstr, chars

ASCII = _re.ASCII


def tr(c):
    return c if isinstance(c, bool) else sym.CUR.branch(c.t)


def ci(c, flags):
    return symstr.low1(c) if flags & K.SRE_FLAG_IGNORECASE else c


def test_cat(c, cat):
    if cat == K.CATEGORY_DIGIT:
        return symstr.rng(c, '0', '9')
    if cat == K.CATEGORY_NOT_DIGIT:
        return b_not(symstr.rng(c, '0', '9'))
    if cat == K.CATEGORY_SPACE:
        return symstr.oneof(c, symstr.WS)
    if cat == K.CATEGORY_NOT_SPACE:
        return b_not(symstr.oneof(c, symstr.WS))
    w = is_word(c)
    if cat == K.CATEGORY_WORD:
        return w
    if cat == K.CATEGORY_NOT_WORD:
        return b_not(w)
    raise EngineLimit('regex category %s' % cat)


def is_word(c):
    return b_or(symstr.rng(c, 'a', 'z'), symstr.rng(c, 'A', 'Z'), symstr.rng(c, '0', '9'), symstr.ceq(c, '_'))


def test_in(c, items, flags):
    neg = False
    cs = []
    for op, av in items:
        if op is K.NEGATE:
            neg = True
        elif op is K.LITERAL:
            cs.append(symstr.ceq(c, chr(av)))
        elif op is K.RANGE:
            cs.append(symstr.rng(c, chr(av[0]), chr(av[1])))
        elif op is K.CATEGORY:
            cs.append(test_cat(c, av))
        else:
            raise EngineLimit('regex set item %s' % op)
    if flags & K.SRE_FLAG_IGNORECASE:
        u = symstr.up1(c)
        if not isinstance(c, str) or u != c:
            for op, av in items:
                if op is K.LITERAL:
                    cs.append(symstr.ceq(symstr.low1(c), chr(av)))
                    cs.append(symstr.ceq(u, chr(av)))
                elif op is K.RANGE:
                    cs.append(symstr.rng(symstr.low1(c), chr(av[0]), chr(av[1])))
                    cs.append(symstr.rng(u, chr(av[0]), chr(av[1])))
    r = b_or(*cs)
    return b_not(r) if neg else r


def one_char(op, av, c, flags):
    """condition that character c satisfies a single-character node"""
    if op is K.LITERAL:
        if flags & K.SRE_FLAG_IGNORECASE:
            return symstr.ceq(symstr.low1(c), symstr.low1(chr(av)))
        return symstr.ceq(c, chr(av))
    if op is K.NOT_LITERAL:
        return b_not(one_char(K.LITERAL, av, c, flags))
    if op is K.ANY:
        return True if flags & K.SRE_FLAG_DOTALL else b_not(symstr.ceq(c, '\n'))
    if op is K.IN:
        return test_in(c, av, flags)
    return None


SINGLE = (K.LITERAL, K.NOT_LITERAL, K.ANY, K.IN)


class Matcher(object):
    def __init__(self, tree, flags, text):
        self.ch = chars(text)
        self.flags = flags
        self.tree = tree

    def at(self, where, i, flags):
        ch, n = self.ch, len(self.ch)
        if where is K.AT_BEGINNING:
            if i == 0:
                return True
            return bool(flags & K.SRE_FLAG_MULTILINE) and tr(symstr.ceq(ch[i - 1], '\n'))
        if where is K.AT_BEGINNING_STRING:
            return i == 0
        if where is K.AT_END:
            if i == n:
                return True
            if flags & K.SRE_FLAG_MULTILINE:
                return tr(symstr.ceq(ch[i], '\n'))
            return i == n - 1 and tr(symstr.ceq(ch[i], '\n'))
        if where is K.AT_END_STRING:
            return i == n
        if where in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
            a = is_word(ch[i - 1]) if i > 0 else False
            b = is_word(ch[i]) if i < n else False
            d = tr(sym.b_ne(a, b))
            return d if where is K.AT_BOUNDARY else not d
        raise EngineLimit('regex anchor %s' % where)

    def seq(self, items, k, i, g, flags, cont):
        """match items[k:] at i, then cont(i, g)"""
        if k == len(items):
            return cont(i, g)
        op, av = items[k]
        nxt = lambda j, h: self.seq(items, k + 1, j, h, flags, cont)
        if op in SINGLE:
            if i >= len(self.ch):
                return None
            if not tr(one_char(op, av, self.ch[i], flags)):
                return None
            return nxt(i + 1, g)
        if op is K.SUBPATTERN:
            grp, add, rem, p = av
            f2 = (flags | add) & ~rem

            def done(j, h):
                if grp is not None:
                    h = dict(h)
                    h[grp] = (i, j)
                    h['last'] = grp
                return nxt(j, h)
            return self.seq(p.data, 0, i, g, f2, done)
        if op is K.BRANCH:
            for p in av[1]:
                r = self.seq(p.data, 0, i, g, flags, nxt)
                if r is not None:
                    return r
            return None
        if op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, p = av
            greedy = op is K.MAX_REPEAT
            if len(p.data) == 1 and p.data[0][0] in SINGLE:
                o1, a1 = p.data[0]
                n = 0
                lim = len(self.ch) - i
                if hi is not K.MAXREPEAT:
                    lim = min(lim, hi)
                if greedy:
                    while n < lim and tr(one_char(o1, a1, self.ch[i + n], flags)):
                        n += 1
                    while n >= lo:
                        r = nxt(i + n, g)
                        if r is not None:
                            return r
                        n -= 1
                    return None
                while True:
                    if n >= lo:
                        r = nxt(i + n, g)
                        if r is not None:
                            return r
                    if n < lim and tr(one_char(o1, a1, self.ch[i + n], flags)):
                        n += 1
                    else:
                        return None

            def rep(n, j, h):
                def more():
                    if hi is not K.MAXREPEAT and n >= hi:
                        return None

                    def cont2(j2, h2):
                        if j2 == j and n >= lo:
                            return None
                        return rep(n + 1, j2, h2)
                    return self.seq(p.data, 0, j, h, flags, cont2)
                if n < lo:
                    return more()
                if greedy:
                    r = more()
                    return r if r is not None else nxt(j, h)
                r = nxt(j, h)
                return r if r is not None else more()
            return rep(0, i, g)
        if op is K.AT:
            return nxt(i, g) if self.at(av, i, flags) else None
        if op in (K.ASSERT, K.ASSERT_NOT):
            d, p = av
            if d < 0:
                lo, hi = p.getwidth()
                if lo != hi or i - lo < 0:
                    if lo != hi:
                        raise EngineLimit('variable look-behind')
                    r = None
                else:
                    r = self.seq(p.data, 0, i - lo, g, flags, lambda j, h: (j, h) if j == i else None)
            else:
                r = self.seq(p.data, 0, i, g, flags, lambda j, h: (j, h))
            if op is K.ASSERT:
                return nxt(i, r[1]) if r is not None else None
            return nxt(i, g) if r is None else None
        if op is K.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            n = b - a
            if i + n > len(self.ch):
                return None
            if not tr(b_and(*[symstr.ceq(x, y) for x, y in zip(self.ch[a:b], self.ch[i:i + n])])):
                return None
            return nxt(i + n, g)
        raise EngineLimit('regex operation %s' % op)

    def match(self, i):
        return self.seq(self.tree.data, 0, i, {}, self.flags, lambda j, h: (j, h))


class Match(object):
    def __init__(self, rx, text, start, end, groups):
        self.re, self.string = rx, text
        self._s, self._e, self._g = start, end, groups
        self.pos = 0
        last = groups.get('last')
        self.lastindex = last
        self.lastgroup = None
        for n, i in rx.groupindex.items():
            if i == last:
                self.lastgroup = n

    def _span(self, g):
        if isinstance(g, str):
            if g not in self.re.groupindex:
                raise IndexError('no such group')
            g = self.re.groupindex[g]
        if g == 0:
            return self._s, self._e
        if not 0 <= g <= self.re.groups:
            raise IndexError('no such group')
        return self._g.get(g, (-1, -1))

    def _get(self, g, default=None):
        a, b = self._span(g)
        if a < 0:
            return default
        return mkstr(chars(self.string)[a:b])

    def group(self, *gs):
        if not gs:
            return self._get(0)
        r = tuple([self._get(g) for g in gs])
        return r[0] if len(r) == 1 else r

    def groups(self, default=None):
        return tuple([self._get(i, default) for i in range(1, self.re.groups + 1)])

    def groupdict(self, default=None):
        return dict((n, self._get(n, default)) for n in self.re.groupindex)

    def start(self, g=0):
        return self._span(g)[0]

    def end(self, g=0):
        return self._span(g)[1]

    def span(self, g=0):
        return self._span(g)


class Pattern(object):
    def __init__(self, pattern, flags=0):
        if isinstance(pattern, SymStr):
            raise EngineLimit('symbolic regular expression')
        self.pattern = pattern
        self.flags = flags
        f = (flags & ~(_re.LOCALE | _re.UNICODE)) | ASCII
        self.tree = P.parse(pattern, f)
        self.cflags = self.tree.state.flags
        self.native = _re.compile(pattern, f)
        self.groups = self.native.groups
        self.groupindex = dict(self.native.groupindex)

    def wrap(self, m, text):
        if m is None:
            return None
        g = {}
        for i in range(1, self.groups + 1):
            if m.start(i) >= 0:
                g[i] = m.span(i)
        if m.lastindex:
            g['last'] = m.lastindex
        return Match(self, text, m.start(), m.end(), g)

    def _concrete(self, text):
        if isinstance(text, str):
            return text
        if isinstance(text, SymStr):
            ch = text.settle()
            if all(isinstance(c, str) for c in ch):
                return ''.join(ch)
            return None
        raise TypeError('expected string or buffer')

    def _at(self, text, i):
        r = Matcher(self.tree, self.cflags, text).match(i)
        if r is None:
            return None
        return Match(self, text, i, r[0], r[1])

    def match(self, text, pos=0):
        c = self._concrete(text)
        if c is not None:
            return self.wrap(self.native.match(c, pos), text)
        return self._at(text, pos)

    def search(self, text, pos=0):
        c = self._concrete(text)
        if c is not None:
            return self.wrap(self.native.search(c, pos), text)
        for i in range(pos, len(chars(text)) + 1):
            m = self._at(text, i)
            if m is not None:
                return m
        return None

    def finditer(self, text, pos=0):
        # Python 2: an empty match adjacent to a previous match is allowed
        # only after advancing; the search resumes one later after an empty one
        n = len(self._concrete(text) if self._concrete(text) is not None else chars(text))
        i = pos
        while i <= n:
            m = self.search(text, i)
            if m is None:
                return
            yield m
            i = m.end() if m.end() > m.start() else m.end() + 1

    def findall(self, text, pos=0):
        out = []
        for m in self.finditer(text, pos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m._get(1, ''))
            else:
                out.append(m.groups(''))
        return out

    def sub(self, repl, text, count=0):
        return self.subn(repl, text, count)[0]

    def subn(self, repl, text, count=0):
        from . import rt
        ch = chars(text)
        out = []
        pos = 0
        n = 0
        last_end = -1
        for m in self.finditer(text):
            if count and n >= count:
                break
            if m.end() == m.start() and m.start() == last_end:
                continue        # Python 2 skips an empty match right after a match
            out.extend(ch[pos:m.start()])
            if isinstance(repl, (str, SymStr)):
                if isinstance(repl, SymStr):
                    if symstr.truth(symstr.contains(repl, '\\')):
                        raise EngineLimit('replacement template')
                    r = repl
                else:
                    r = template(repl, m) if '\\' in repl else repl
            else:
                r = rt.r_call(repl, m)
            out.extend(symstr.chars_lazy(r))
            pos = last_end = m.end()
            n += 1
        out.extend(ch[pos:])
        return mkstr(tuple(out)), n

    def split(self, text, maxsplit=0):
        ch = chars(text)
        out = []
        pos = 0
        n = 0
        for m in self.finditer(text):
            if maxsplit and n >= maxsplit:
                break
            if m.end() == m.start():
                continue
            out.append(mkstr(ch[pos:m.start()]))
            out.extend(m.groups())
            pos = m.end()
            n += 1
        out.append(mkstr(ch[pos:]))
        return out


_cache = {}


def compile(p, flags=0):
    if isinstance(p, Pattern):
        return p
    k = (p, int(flags))
    r = _cache.get(k)
    if r is None:
        try:
            r = _cache[k] = Pattern(p, flags)
        except _re.error as e:
            raise error(str(e))
    return r


class error(Exception):
    pass


def match(p, s, flags=0):
    return compile(p, flags).match(s)


def search(p, s, flags=0):
    return compile(p, flags).search(s)


def sub(p, r, s, count=0, flags=0):
    return compile(p, flags).sub(r, s, count)


def template(t, m):
    """the replacement a template stands for"""
    out = []
    i = 0
    esc = {'n': '\n', 't': '\t', 'r': '\r', 'a': '\a', 'f': '\f', 'v': '\v', 'b': '\b', '\\': '\\'}
    while i < len(t):
        if t[i] != '\\':
            out.append(t[i])
            i += 1
            continue
        i += 1
        if i >= len(t):
            raise error('bogus escape')
        g = None
        if t[i] == 'g':
            j = t.find('>', i)
            if t[i + 1:i + 2] != '<' or j < 0:
                raise error('bad group name')
            g = t[i + 2:j]
            g = int(g) if g.isdigit() else g
            i = j + 1
        elif t[i] == '0':
            raise EngineLimit('octal escape in a template')
        elif t[i].isdigit():
            j = i + 1
            if j < len(t) and t[j].isdigit():
                j += 1
                if j < len(t) and t[j].isdigit():
                    raise EngineLimit('octal escape in a template')
            g = int(t[i:j])
            i = j
        elif t[i] in esc:
            out.append(esc[t[i]])
            i += 1
            continue
        else:
            out.append('\\' + t[i])
            i += 1
            continue
        v = m.group(g)
        if v is None:
            raise error('unmatched group')
        out.extend(symstr.chars_lazy(v))
    return mkstr(tuple(c for x in out for c in ((x,) if not isinstance(x, str) else x)))


def subn(p, r, s, count=0, flags=0):
    return compile(p, flags).subn(r, s, count)


def split(p, s, maxsplit=0, flags=0):
    return compile(p, flags).split(s, maxsplit)


def findall(p, s, flags=0):
    return compile(p, flags).findall(s)


def finditer(p, s, flags=0):
    return compile(p, flags).finditer(s)


def escape(s):
    if isinstance(s, SymStr):
        raise EngineLimit('re.escape of symbolic text')
    return ''.join(c if c.isalnum() and c.isascii() else ('\\000' if c == '\0' else '\\' + c) for c in s)
