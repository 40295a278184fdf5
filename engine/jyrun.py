# -*- coding: us-ascii -*-
# Runs under Jython 2.7 on the real code: executes harness functions with the
# concrete values found by the solver (replay) or sampled from its paths
# (validation).  argv[1]: JSON file {"jobs": [{fn, params, values}...],
# "alias": {...}}; one JSON line per job on stdout after the marker.
import sys, json, os, imp
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
for p in (os.path.join(ROOT, 'stubs'), os.path.join(ROOT, 'checks')):
    if p not in sys.path:
        sys.path.insert(0, p)


def as_float(text):
    """the float for a rational number, the same in the encoding and in the real interpreter"""
    f = Fraction(text)
    n, d = f.numerator, f.denominator
    m = n < 0 and -n or n
    while m >= 10 ** 300 or d >= 10 ** 300:
        m, d = m // 10 ** 20, d // 10 ** 20
    v = float(m) / float(d or 1)
    return n < 0 and -v or v


class PathEnd(Exception):
    pass


class Violation(Exception):
    def __init__(self, label, detail=''):
        Exception.__init__(self, label)
        self.label, self.detail = label, detail


def plain(v):
    if isinstance(v, unicode):
        return v.encode('latin-1')
    if isinstance(v, list):
        return tuple([plain(x) for x in v])
    if isinstance(v, dict):
        return dict([(plain(k), plain(x)) for k, x in v.items()])
    return v


class Ctx(object):
    symbolic = False

    def __init__(self, params, values):
        self.params, self.values = params, values
        self.trace = []
        self.pre = ''

    def run(self, fn):
        if self.params.get('again'):
            self.pre, mine = 'before.', self.params
            self.params = dict(mine)
            self.params.update(mine.get('before', {}))
            fn(self)
            self.pre, self.params = '', mine
        fn(self)

    def param(self, name, default=None):
        return self.params.get(name, default)

    def int(self, name, lo, hi):
        return self.values.get(self.pre + name, lo)

    def bool(self, name):
        return self.values.get(self.pre + name, False)

    def real(self, name, lo=None, hi=None):
        v = as_float(self.values.get(self.pre + name, '0'))
        if lo is not None and v < lo or hi is not None and v > hi:
            raise PathEnd()
        return v

    def choice(self, name, seq):
        return seq[self.values.get(self.pre + name, 0)]

    def concrete(self, x):
        return x

    def truth(self, x):
        return bool(x)

    def chars(self, name, n, alphabet=None):
        d = ord(alphabet[0]) if alphabet else 0
        return ''.join([chr(self.values.get('%s%s%d' % (self.pre, name, i), d)) for i in range(n)])

    def assume(self, c):
        if not c:
            raise PathEnd()

    def check(self, c, label, detail=''):
        if not c:
            raise Violation(label, detail)

    def fail(self, label):
        raise Violation(label)

    def known(self, ident, cond):
        if ident in self.params.get('known', ()):
            self.assume(not cond)

    def reach(self, label):
        pass

    def see(self, x):
        self.trace.append(canon(x))


def canon(x):
    if x is None or isinstance(x, bool):
        return x
    if isinstance(x, (int, long)):
        return int(x)
    if isinstance(x, float):
        return '%.9g' % x
    if isinstance(x, basestring):
        return 's:' + ''.join([32 <= ord(c) < 127 and str(c) or '\\x%02x' % ord(c) for c in x])
    if isinstance(x, (tuple, list)):
        return [canon(y) for y in x]
    if isinstance(x, dict):
        return sorted([[canon(k), canon(v)] for k, v in x.items()], key=jrepr)
    return 'obj:' + x.__class__.__name__


def jrepr(x):
    return json.dumps(x)


class Quiet(object):
    def write(self, s):
        pass

    def flush(self):
        pass


def run_job(job):
    modname, _, fname = job['fn'].rpartition('.')
    mod = __import__(modname)
    ctx = Ctx(plain(job['params']), plain(job['values']))
    out = {'violated': None}
    try:
        ctx.run(getattr(mod, fname))
        out['end'] = 'done'
    except PathEnd:
        out['end'] = 'assume'
    except Violation, e:
        out['violated'] = e.label
        out['detail'] = str(e.detail)
        out['end'] = 'violation'
    except Exception, e:
        out['violated'] = 'exception:' + e.__class__.__name__
        import traceback
        out['detail'] = traceback.format_exc()[-1500:]
        out['end'] = 'exception'
    except:
        # a Java exception
        e = sys.exc_info()[1]
        out['violated'] = 'exception:' + e.__class__.__name__
        out['detail'] = str(e)
        out['end'] = 'exception'
    out['trace'] = ctx.trace
    return out


def main():
    spec = json.load(open(sys.argv[1]))
    for k, v in (spec.get('alias') or {}).items():
        sys.modules[str(k)] = imp.load_source(str(k), str(v))
    real = sys.stdout
    res = []
    for job in spec['jobs']:
        sys.stdout = Quiet()
        try:
            r = run_job(job)
        finally:
            sys.stdout = real
        sys.stdout.write('@@RESULT ' + json.dumps(r) + '\n')
        sys.stdout.flush()


main()
