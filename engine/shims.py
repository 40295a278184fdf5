"""Stand-ins for the library modules the code imports.  Pure functions are
modelled exactly over symbolic values; anything that touches the outside world
(files, network, clocks, randomness) is unavailable unless the harness puts
its own double in place."""
import types
from . import sym, symstr, rx, reals
from .sym import SymInt, SymBool, SymReal, EngineLimit, b_and, b_or, b_not, mk
from .symstr import SymStr, mkstr, chars, chr_of


class Library(types.ModuleType):
    """stand-in for a library module: what it lacks is not modelled"""
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise EngineLimit('%s.%s is not modelled' % (self.__name__, n))


def mod(name, /, **d):
    m = Library(name)
    m.__dict__.update(d)
    return m


def no(what):
    def f(*a, **k):
        raise EngineLimit('%s is outside the analysis' % what)
    return f


def nop(*a, **k):
    return None


# ------------------------------------------------------------ struct
class struct_error(Exception):
    pass


INT_CODES = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False),
             'l': (4, True), 'L': (4, False), 'q': (8, True), 'Q': (8, False)}


def st_fields(f):
    """(big-endian, [(code, count)]) of a struct format"""
    import re
    if not isinstance(f, str):
        raise EngineLimit('symbolic struct format')
    order = '@'
    if f and f[0] in '<>!=@':
        order, f = f[0], f[1:]
    fields = re.findall(r'\s*(\d*)([a-zA-Z?])', f)
    if ''.join(a + b for a, b in fields) != re.sub(r'\s', '', f):
        raise struct_error('bad char in struct format')
    out = []
    for n, c in fields:
        if c not in INT_CODES and c not in 'csx':
            raise EngineLimit('struct format %r' % c)
        if order in '@=' and c not in 'bBcsx':
            raise EngineLimit('native struct format %r' % c)
        out.append((c, int(n) if n else 1))
    return order in '>!', out


def st_calcsize(f):
    return sum(n * (INT_CODES[c][0] if c in INT_CODES else 1) for c, n in st_fields(f)[1])


def st_pack(f, *vs):
    big, fields = st_fields(f)
    want = sum(0 if c == 'x' else 1 if c == 's' else n for c, n in fields)
    if want != len(vs):
        raise struct_error('pack requires exactly %d arguments' % want)
    vs = list(vs)
    out = []
    for c, n in fields:
        if c == 'x':
            out.extend('\0' * n)
            continue
        if c == 's':
            v = vs.pop(0)
            if not isinstance(v, (str, SymStr)):
                raise struct_error("argument for 's' must be a string")
            ch = tuple(chars(v))[:n]
            out.extend(ch + ('\0',) * (n - len(ch)))
            continue
        for _ in range(n):
            v = vs.pop(0)
            if c == 'c':
                if not isinstance(v, (str, SymStr)) or len(chars(v)) != 1:
                    raise struct_error('char format require string of length 1')
                out.extend(chars(v))
                continue
            size, signed = INT_CODES[c]
            if type(v) is SymBool:
                v = sym.as_int(v)
            if not isinstance(v, (int, SymInt)):
                raise struct_error('required argument is not an integer')
            lo, hi = (-1 << (8 * size - 1), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
            if isinstance(v, SymInt):
                if v.lo < lo or v.hi > hi:
                    if not sym.cur().truth(b_and(v >= lo, v <= hi)):
                        raise struct_error('number out of range for format')
                    v = v.narrow(max(lo, v.lo), min(hi, v.hi))
            elif not lo <= v <= hi:
                raise struct_error('number out of range for format')
            bs = [chars(chr_of((v >> (8 * k)) & 255))[0] for k in range(size)]
            out.extend(reversed(bs) if big else bs)
    return mkstr(tuple(out))


def st_unpack(f, s):
    big, fields = st_fields(f)
    ch = tuple(chars(s))
    if len(ch) != st_calcsize(f):
        raise struct_error('unpack str size does not match format')
    out = []
    i = 0
    for c, n in fields:
        if c == 'x':
            i += n
        elif c == 's':
            out.append(mkstr(ch[i:i + n]))
            i += n
        else:
            for _ in range(n):
                if c == 'c':
                    out.append(mkstr(ch[i:i + 1]))
                    i += 1
                    continue
                size, signed = INT_CODES[c]
                bs = ch[i:i + size] if big else ch[i:i + size][::-1]
                i += size
                v = 0
                for b in bs:
                    v = v * 256 + symstr.code(b)
                if signed:
                    top = 1 << (8 * size - 1)
                    v = v - (v >> (8 * size - 1)) * (2 * top)
                out.append(v)
    return tuple(out)


# ------------------------------------------------------------ base64
STD = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def b64char(v):
    """character of a 6-bit value"""
    if isinstance(v, int):
        return STD[v]
    r = sym.ite((v < 26).t if isinstance(v < 26, SymBool) else sym.bt(v < 26), v + 65,
                sym.ite(sym.bt(v < 52), v + 71,
                        sym.ite(sym.bt(v < 62), v - 4, sym.ite(sym.bt(v == 62), 43, 47))))
    if isinstance(r, SymInt):
        r = r.narrow(43, 122)
    return r


def b64val(c):
    """(condition that c is in the alphabet, its value)"""
    if isinstance(c, str):
        return (c in STD, STD.find(c))
    U, L, D = symstr.rng(c, 'A', 'Z'), symstr.rng(c, 'a', 'z'), symstr.rng(c, '0', '9')
    P, S = c == 43, c == 47
    v = 0
    for cond, val in ((P, 62), (S, 63), (D, c + 4), (L, c - 71), (U, c - 65)):
        if cond is False:
            continue
        if cond is True:
            v = val
        else:
            # inside the class the value is in range
            v = sym.ite(cond.t, val, v)
    if isinstance(v, SymInt):
        v = v.narrow(0, 63)
    return b_or(U, L, D, P, S), v


def b64encode(s, altchars=None):
    ch = chars(s)
    out = []
    for i in range(0, len(ch), 3):
        g = [symstr.code(c) for c in ch[i:i + 3]]
        n = len(g)
        g = g + [0] * (3 - n)
        six = [g[0] >> 2, ((g[0] & 3) << 4) | (g[1] >> 4), ((g[1] & 15) << 2) | (g[2] >> 6), g[2] & 63]
        for k in range(n + 1):
            out.append(b64char(six[k]))
        out.extend('=' * (3 - n))
    return mkstr(tuple(chr(c) if isinstance(c, int) else c for c in out))


def b64decode(s, altchars=None):
    """binascii.a2b_base64 as Python 2 and Jython have it"""
    tr = sym.cur().truth
    ch = chars(s)
    out = []
    quad = 0
    leftbits = 0
    left = 0
    n = len(ch)

    def kind(c):
        """'=' / value / None (skipped)"""
        e = symstr.ceq(c, '=')
        if e is True or (e is not False and tr(e)):
            return '='
        ok, v = b64val(c)
        if ok is True or (ok is not False and tr(ok)):
            return v
        return None
    i = 0
    while i < n:
        c = ch[i]
        k = kind(c)
        if k is None:
            i += 1
            continue
        if isinstance(k, str):
            if quad < 2:
                i += 1
                continue
            if quad == 2:
                # the next valid character decides
                j, found = i, []
                while j < n and len(found) < 2:
                    kk = kind(ch[j])
                    if kk is not None:
                        found.append(kk)
                    j += 1
                if not (len(found) == 2 and isinstance(found[1], str)):
                    i += 1
                    continue
            leftbits = 0
            break
        quad = (quad + 1) & 3
        left = (left << 6) | k
        leftbits += 6
        if leftbits >= 8:
            leftbits -= 8
            b = left >> leftbits
            out.append(chr(b) if isinstance(b, int) else b)
            left = left & ((1 << leftbits) - 1) if leftbits else 0
        i += 1
    if leftbits != 0:
        raise TypeError('Incorrect padding')
    return mkstr(tuple(out))


# ------------------------------------------------------------ StringIO
class StringIO(object):
    _R_stateful = True

    def __init__(self, s=''):
        self.parts = [s] if s != '' else []
        self.at = 0

    def write(self, s):
        from . import rt
        self.parts.append(s if isinstance(s, (str, SymStr)) else rt.r_str(s))

    def getvalue(self):
        return symstr.METHODS['join']('', self.parts)

    def read(self, n=None):
        v = self.getvalue()
        r = v[self.at:] if n is None else v[self.at:self.at + n]
        self.at += len(r)
        return r

    def seek(self, n, how=0):
        self.at = n

    def readlines(self):
        return symstr.METHODS['splitlines'](self.read(), True)

    def __iter__(self):
        return iter(self.readlines())

    def readline(self):
        for l in symstr.METHODS['splitlines'](self.getvalue()[self.at:], True):
            self.at += len(l)
            return l
        return ''

    def close(self):
        pass

    def flush(self):
        pass


# ------------------------------------------------------------ string
class Template(object):
    def __init__(self, t):
        self.template = t

    def substitute(self, /, *a, **k):
        from . import rt
        import re
        d = dict(a[0]) if a else {}
        d.update(k)
        out = []
        pos = 0
        for m in re.finditer(r'\$(?:(\$)|([_a-zA-Z][_a-zA-Z0-9]*)|\{([_a-zA-Z][_a-zA-Z0-9]*)\})', self.template):
            out.append(self.template[pos:m.start()])
            pos = m.end()
            n = m.group(2) or m.group(3)
            if m.group(1):
                out.append('$')
            elif n in d:
                out.append(rt.r_str(d[n]))
            else:
                raise KeyError(n)
        out.append(self.template[pos:])
        return symstr.METHODS['join']('', out)
    safe_substitute = substitute


class Logger(object):
    """logging: nothing anybody looks at"""
    level = 30
    name = 'root'
    handlers = []
    disabled = 0
    propagate = 1

    def isEnabledFor(self, level):
        return False

    def getEffectiveLevel(self):
        return 30


for _n in 'debug info warning warn error exception critical fatal log setLevel addHandler removeHandler addFilter'.split():
    setattr(Logger, _n, lambda self, *a, **k: None)
LOGGER = Logger()


# ------------------------------------------------------------ math
def m_sqrt(x):
    import math
    if isinstance(x, (SymInt, SymReal, SymBool)):
        return reals.sqrt(x)
    return math.sqrt(x)


def m_pow(a, b):
    from . import rt
    r = rt.r_pow(a, b)
    return float(r) if isinstance(r, int) else r


def m_floor(x):
    import math
    if isinstance(x, (SymInt, SymReal, SymBool)):
        return sym.real_floor(sym.to_real(x))
    return float(math.floor(x))


def m_ceil(x):
    import math
    if isinstance(x, (SymInt, SymReal, SymBool)):
        return sym.real_ceil(sym.to_real(x))
    return float(math.ceil(x))


def m_fabs(x):
    return abs(sym.to_real(x) if isinstance(x, (SymInt, SymReal, SymBool)) else float(x))


def conc(f):
    def g(*a):
        if any(isinstance(x, (SymInt, SymReal, SymBool)) for x in a):
            raise EngineLimit('math function of a symbolic value')
        return f(*a)
    return g


# ------------------------------------------------------------ locks
class Lock(object):
    """single-threaded stand-in that keeps count (harnesses put their own
    observers in place where locking matters)"""
    _R_stateful = True

    def __init__(self, *a):
        self.depth = 0

    def acquire(self, *a):
        self.depth += 1
        return True

    def release(self):
        if self.depth <= 0:
            raise RuntimeError('cannot release un-acquired lock')
        self.depth -= 1

    def notify(self, *a):
        pass
    notifyAll = notify_all = notify

    def wait(self, *a):
        pass

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class Event(object):
    _R_stateful = True

    def __init__(self):
        self.flag = False

    def set(self):
        self.flag = True

    def clear(self):
        self.flag = False

    def isSet(self):
        return self.flag
    is_set = isSet

    def wait(self, *a):
        return self.flag


class Thread(object):
    def __init__(self, *a, **k):
        pass

    def start(self):
        pass

    def join(self, *a):
        pass


class Telnet(object):
    def __init__(self, *a, **k):
        self.sent = []

    def set_debuglevel(self, n):
        pass

    def open(self, *a):
        pass

    def close(self):
        pass

    def write(self, s):
        self.sent.append(s)

    def expect(self, *a):
        raise EngineLimit('network')


def thread_exit():
    raise SystemExit()


def deco(caller, func=None):
    def wrap(f):
        def wrapper(*a, **k):
            from . import rt
            return rt.r_call(caller, f, *a, **k)
        wrapper.__name__ = f.__name__
        wrapper.__doc__ = f.__doc__
        return wrapper
    if func is not None:
        return wrap(func)
    return wrap


class TestCase(object):
    pass


class Any(object):
    """placeholder for a class the analysed code only names"""
    def __init__(self, *a, **k):
        pass


def copy_copy(x):
    if isinstance(x, (list, dict, set)):
        return type(x)(x)
    if isinstance(x, (int, str, tuple, type(None), SymInt, SymStr, SymBool)):
        return x
    raise EngineLimit('copy of an object')


def path_join(a, *p):
    for b in p:
        if symstr.METHODS['startswith'](b, '/'):
            a = b
        elif a == '' or symstr.METHODS['endswith'](a, '/'):
            a = a + b
        else:
            a = a + '/' + b
    return a


class Digest(object):
    """a cryptographic digest, which stands for exactly the text fed to it"""
    _R_stateful = True

    def __init__(self, text=''):
        self.text = text

    def update(self, t):
        self.text = self.text + t

    def digest(self):
        return '\x00' + self.text

    def hexdigest(self):
        return 'sha1 of ' + self.text

    def copy(self):
        return Digest(self.text)


def digest_new(name, text=''):
    if name.lower() != 'sha1':
        raise EngineLimit('digest ' + name)
    return Digest(text)


SAFE = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-'


def urlencode(d, doseq=0):
    if hasattr(d, 'items'):
        d = d.items()
    out = []
    for k, v in d:
        for w in (v if doseq and isinstance(v, (list, tuple)) else [v]):
            out.append(quote_plus(k) + '=' + quote_plus(w))
    r = ''
    for i, p in enumerate(out):
        r = r + ('&' if i else '') + p
    return r


def quote_plus(s):
    if isinstance(s, (int, float)):
        s = str(s)
    if isinstance(s, SymStr):
        from . import rt
        r = ''
        for ch in s.settle():
            if isinstance(ch, str):
                r = r + quote_plus(ch)
            else:
                one = symstr.mkstr((ch,))
                if rt.r_truth(rt.r_in(one, tuple(SAFE))):
                    r = r + one
                else:
                    r = r + quote_plus(chr(sym.CUR.concretize(ch)))
        return r
    if not isinstance(s, str):
        raise EngineLimit('quoting symbolic text')
    return ''.join(c if c in SAFE else '+' if c == ' ' else '%%%02X' % ord(c) for c in s)


STR_FNS = ('upper lower strip lstrip rstrip split rsplit replace find rfind index count capitalize swapcase ljust rjust '
           'center zfill translate expandtabs').split()


def str_fn(name):
    from . import rt
    return lambda s, *a: rt.r_mcall(s, name, *a)


def s_join(xs, sep=' '):
    from . import rt
    return rt.r_mcall(sep, 'join', xs)


def s_maketrans(a, b):
    if not isinstance(a, str) or not isinstance(b, str):
        raise EngineLimit('maketrans of symbolic text')
    if len(a) != len(b):
        raise ValueError('maketrans arguments must have same length')
    t = [chr(i) for i in range(256)]
    for x, y in zip(a, b):
        t[ord(x)] = y
    return ''.join(t)


def make():
    import math
    L = {}
    L['re'] = mod('re', compile=rx.compile, match=rx.match, search=rx.search, sub=rx.sub, subn=rx.subn, split=rx.split,
                  findall=rx.findall, finditer=rx.finditer, escape=rx.escape, error=rx.error,
                  I=2, IGNORECASE=2, L=4, LOCALE=4, M=8, MULTILINE=8, S=16, DOTALL=16, U=32, UNICODE=32, X=64,
                  VERBOSE=64)
    L['struct'] = mod('struct', pack=st_pack, unpack=st_unpack, calcsize=st_calcsize, error=struct_error)
    L['base64'] = mod('base64', standard_b64encode=b64encode, standard_b64decode=b64decode, b64encode=b64encode,
                      b64decode=b64decode)
    L['logging'] = mod('logging', debug=nop, info=nop, warning=nop, error=nop, exception=nop, critical=nop,
                       basicConfig=nop, getLogger=lambda *a: LOGGER, warn=nop, log=nop, disable=nop, CRITICAL=50, NOTSET=0, DEBUG=10, INFO=20, WARNING=30, ERROR=40)
    L['exceptions'] = mod('exceptions', **dict((n, getattr(__import__('builtins'), n)) for n in (
        'Exception', 'ValueError', 'TypeError', 'KeyError', 'IndexError', 'AttributeError', 'AssertionError',
        'NotImplementedError', 'RuntimeError', 'IOError')))
    L['exceptions'].StandardError = Exception
    L['sha'] = mod('sha', new=Digest, sha=Digest)
    L['hashlib'] = mod('hashlib', sha1=Digest, new=digest_new)
    L['thread'] = mod('thread', exit=thread_exit, start_new_thread=nop, allocate_lock=Lock)
    L['threading'] = mod('threading', RLock=Lock, Lock=Lock, Condition=Lock, Event=Event, Thread=Thread)
    L['StringIO'] = mod('StringIO', StringIO=StringIO)
    L['cStringIO'] = mod('cStringIO', StringIO=StringIO)
    L['urllib'] = mod('urllib', urlopen=no('urllib'), quote=no('urllib'), urlencode=urlencode)
    L['urllib2'] = mod('urllib2', urlopen=no('urllib2'))
    L['string'] = mod('string', Template=Template, ascii_letters='abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ',
                      letters='abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ', digits='0123456789',
                      lowercase='abcdefghijklmnopqrstuvwxyz', uppercase='ABCDEFGHIJKLMNOPQRSTUVWXYZ',
                      printable=__import__('string').printable, whitespace='\t\n\x0b\x0c\r ',
                      punctuation=__import__('string').punctuation, maketrans=s_maketrans,
                      **dict((n, str_fn(n)) for n in STR_FNS))
    L['string'].join = L['string'].joinfields = s_join
    L['string'].capwords = lambda s, sep=None: s_join([__import__('engine.rt').rt.r_mcall(x, 'capitalize') for x in __import__('engine.rt').rt.r_mcall(s, 'split', *([sep] if sep else []))], sep or ' ')
    L['math'] = mod('math', sqrt=m_sqrt, pow=m_pow, pi=math.pi, e=math.e, floor=m_floor, ceil=m_ceil,
                    log=conc(math.log), exp=conc(math.exp), fabs=m_fabs)
    L['random'] = mod('random', random=no('random'), randint=no('random'), shuffle=no('random'), choice=no('random'),
                      seed=nop, sample=no('random'))
    L['socket'] = mod('socket', error=type('socket_error', (Exception,), {}), socket=no('socket'))
    L['telnetlib'] = mod('telnetlib', Telnet=Telnet)
    L['select'] = mod('select', select=no('select'), error=type('select_error', (Exception,), {}))
    L['signal'] = mod('signal', signal=nop, SIGINT=2, SIGTERM=15)
    L['time'] = mod('time', time=no('time'), sleep=nop)
    op = mod('os.path', join=path_join, dirname=lambda p: p.rpartition('/')[0],
             basename=lambda p: p.rpartition('/')[2], exists=no('files'), isfile=no('files'), isdir=no('files'),
             splitext=__import__('os').path.splitext, abspath=lambda p: p, sep='/')
    L['os'] = mod('os', path=op, sep='/', linesep='\n', environ={}, getcwd=lambda: '/', name='posix',
                  remove=no('files'), mkdir=no('files'), listdir=no('files'))
    L['os.path'] = op
    L['sys'] = mod('sys', maxint=2 ** 31 - 1, version_info=(2, 7, 3), argv=['x'], path=[], modules={}, stdout=None,
                   stderr=None, stdin=None, exc_info=__import__('sys').exc_info, exit=no('exit'), platform='java',
                   version='2.7.3')
    L['types'] = mod('types', StringType=str, IntType=int, ListType=list, TupleType=tuple, DictType=dict,
                     FunctionType=types.FunctionType, MethodType=types.MethodType, ModuleType=types.ModuleType,
                     ClassType=type, NoneType=type(None), StringTypes=(str,))
    L['traceback'] = mod('traceback', print_exc=nop, format_exc=lambda *a: '')
    L['datetime'] = mod('datetime', datetime=mod('datetime', now=no('clock')), date=no('clock'))
    L['tempfile'] = mod('tempfile', NamedTemporaryFile=no('files'), mkstemp=no('files'))
    L['pprint'] = mod('pprint', pprint=nop, pformat=lambda x: '')
    L['difflib'] = mod('difflib')
    L['subprocess'] = mod('subprocess', Popen=no('processes'), call=no('processes'))
    L['doctest'] = mod('doctest')
    L['unittest'] = mod('unittest', TestCase=TestCase)
    L['nose'] = mod('nose', main=nop, run=nop)
    L['xml'] = mod('xml')
    L['xml.parsers'] = mod('xml.parsers')
    L['xml.parsers.expat'] = mod('xml.parsers.expat', ParserCreate=no('expat'),
                                 ExpatError=type('ExpatError', (Exception,), {}))
    L['xml'].parsers = L['xml.parsers']
    L['xml.parsers'].expat = L['xml.parsers.expat']
    core, io = mod('docutils.core', publish_parts=no('docutils')), mod('docutils.io')
    L['docutils'] = mod('docutils', core=core, io=io)
    L['docutils.core'], L['docutils.io'] = core, io
    L['markdown'] = mod('markdown', markdown=no('markdown'))
    L['decorator'] = mod('decorator', decorator=deco)
    L['copy'] = mod('copy', copy=copy_copy, deepcopy=no('deepcopy'))
    L['ClientForm'] = mod('ClientForm')
    L['itertools'] = mod('itertools', chain=__import__('itertools').chain)
    L['Image'] = mod('Image')
    L['ImageDraw'] = mod('ImageDraw')
    L['ImageFont'] = mod('ImageFont')
    return L
