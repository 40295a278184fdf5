"""Run-time of the translated code: Python 2 operations over concrete and
symbolic values, Python 2 built-ins, and the module loader."""
import builtins as _b
import os
import sys
import types
from . import sym
from .sym import (SymInt, SymBool, SymReal, EngineLimit, SpecAbort, Unmergeable, NonTermination,
                  ite, mkbool, b_not, b_and, b_or, mk, as_int)
from .symstr import SymStr, mkstr, str_eq, contains, chr_of, Num, Opaque, fmt, to_int, METHODS, has_sym
from . import symstr

NUMS = (SymInt, SymBool, SymReal)
STRS = (str, SymStr)


def C():
    return sym.CUR


# ------------------------------------------------------------ truth
def r_truth(x):
    if x is True or x is False:
        return x
    t = type(x)
    if t is SymBool:
        return sym.CUR.branch(x.t)
    if t is SymInt:
        c = x.__ne__(0)
        return c if c is True or c is False else sym.CUR.branch(c.t)
    if t is int or t is str or t is list or t is tuple or t is dict or x is None:
        return True if x else False
    f = getattr(t, '__bool__', None)
    if f is None and getattr(t, '__len__', None) is not None and t.__module__ not in ('builtins',):
        return r_truth(r_ne(x.__len__(), 0))
    if f is not None and t.__module__ not in ('builtins',):
        return r_truth(f(x))
    return True if x else False


def cond_of(x):
    """condition for truth of x without forking (or SpecAbort)"""
    if x is True or x is False:
        return x
    t = type(x)
    if t is SymBool:
        return x
    if t is SymInt:
        return x != 0
    if t is SymReal:
        return mkbool(sym.z3.Not(sym.teq(x.t, sym.to_real(0).t)))
    if t in (int, str, list, tuple, dict, float) or x is None:
        return bool(x)
    return r_truth(x)


def simple_scalar(x):
    return x is None or type(x) in (bool, int, SymBool, SymInt, SymReal, float)


def speculate(c, thunk, other, swap):
    """value of (thunk() if c else other) merged, or None when not possible"""
    ex = sym.CUR
    ex.spec += 1
    pos = ex.pos
    saved = dict(ex.known)
    try:
        # no fact is learnt: both outcomes are evaluated without the condition
        v = thunk()
        return (ite(c.t, v, other) if not swap else ite(c.t, other, v),)
    except (SpecAbort, Unmergeable, EngineLimit):
        return None
    except Exception:
        # the operand may be undefined when the condition is false
        return None
    finally:
        ex.spec -= 1
        if len(ex.known) != len(saved):
            ex.known = saved


def r_and(a, thunk):
    if a is True:
        return thunk()
    if a is False:
        return a
    if type(a) in (SymBool, SymInt):
        c = cond_of(a)
        if c is True:
            return thunk()
        if c is False:
            return a
        f = sym.CUR.fact(c.t)
        if f is True:
            return thunk()
        if f is False:
            return a
        r = speculate(c, thunk, False if type(a) is SymBool else 0, False)
        if r is not None:
            return r[0]
        return thunk() if sym.CUR.branch(c.t) else (False if type(a) is SymBool else 0)
    return thunk() if r_truth(a) else a


def r_or(a, thunk):
    if a is True:
        return a
    if a is False:
        return thunk()
    if type(a) in (SymBool, SymInt):
        c = cond_of(a)
        if c is True:
            return a
        if c is False:
            return thunk()
        f = sym.CUR.fact(c.t)
        if f is True:
            return a
        if f is False:
            return thunk()
        r = speculate(c, thunk, True if type(a) is SymBool else a, True)
        if r is not None:
            return r[0]
        return a if sym.CUR.branch(c.t) else thunk()
    return a if r_truth(a) else thunk()


def r_chain(simple, a, cmp, thunk, *rest):
    b = thunk()
    c = cmp(a, b)
    if not rest:
        return c
    if simple:
        return r_and(c, lambda: r_chain(simple, b, *rest))
    return r_chain(simple, b, *rest) if r_truth(c) else c


def r_andor(a, b, c):
    """a and b or c"""
    if a is True or a is False or type(a) in (SymBool, SymInt):
        return r_ifexp(a, lambda: r_or(b(), c), c)
    return r_or(b(), c) if r_truth(a) else c()


def r_ifexp(test, th, el):
    c = cond_of(test)
    if c is True:
        return th()
    if c is False:
        return el()
    f = sym.CUR.fact(c.t)
    if f is not None:
        return th() if f else el()
    ex = sym.CUR
    ex.spec += 1
    try:
        a = th()
        b = el()
        r = (ite(c.t, a, b),)
    except (SpecAbort, Unmergeable, EngineLimit):
        r = None
    except Exception:
        r = None
    finally:
        ex.spec -= 1
    if r is not None:
        return r[0]
    return th() if ex.branch(c.t) else el()


def r_not(x):
    c = cond_of(x)
    if c is True:
        return False
    if c is False:
        return True
    return b_not(c)


# ------------------------------------------------------------ comparison
NATIVE = (int, str, float, bool, type(None))


def seq_eq(a, b):
    if len(a) != len(b):
        return False
    cs = []
    for x, y in zip(a, b):
        c = r_eq(x, y)
        if c is False:
            return False
        if c is not True:
            if not isinstance(c, SymBool):
                c = r_truth(c)
                if not c:
                    return False
                continue
            cs.append(c)
    return b_and(*cs)


def r_eq(a, b):
    ta, tb = type(a), type(b)
    if ta in NATIVE and tb in NATIVE:
        return a == b
    if ta in NUMS or tb in NUMS:
        if ta in NUMS and (tb in NUMS or tb in (int, float, bool)):
            if tb is SymReal or tb is float:
                return sym.to_real(a) == b if ta is not SymReal else a == b
            if tb is SymBool and ta is SymInt:
                return a == as_int(b)
            return a == b
        if ta in (int, float, bool):
            return r_eq(b, a)
        if hasattr(ta if tb in NUMS else tb, '__eq__') and (ta if tb in NUMS else tb).__module__ != 'builtins':
            return a == b
        return False
    if ta is SymStr or tb is SymStr:
        if ta in STRS and tb in STRS:
            return str_eq(a, b)
        return False
    if (ta is tuple and tb is tuple) or (ta is list and tb is list):
        return seq_eq(a, b)
    if ta is dict and tb is dict:
        if len(a) != len(b):
            return False
        cs = []
        for k, v in a.items():
            if k not in b:
                return False
            c = r_eq(v, b[k])
            if c is False:
                return False
            if c is not True:
                cs.append(c)
        return b_and(*cs)
    if is_user(ta) or is_user(tb):
        r = by_cmp(a, b, ta, tb, '__eq__')
        if r is not None:
            return r_eq(r, 0)
    return a == b


def user_ne(t):
    f = getattr(t, '__ne__', None)
    return f is not None and f is not object.__ne__


def r_ne(a, b):
    ta, tb = type(a), type(b)
    if ta in NATIVE and tb in NATIVE:
        return a != b
    if is_user(ta) or is_user(tb):
        if is_user(ta) and user_ne(ta):
            r = ta.__ne__(a, b)
            if r is not NotImplemented:
                return r
        if is_user(tb) and user_ne(tb):
            r = tb.__ne__(b, a)
            if r is not NotImplemented:
                return r
        r = by_cmp(a, b, ta, tb, '__ne__')
        if r is not None:
            return r_ne(r, 0)
        return a is not b
    r = r_eq(a, b)
    if r is True or r is False:
        return not r
    if isinstance(r, SymBool):
        return b_not(r)
    return not r


def is_user(t):
    return getattr(t, '_R_user', False)


def rank(x):
    """Python 2 orders values of different types"""
    if x is None:
        return (0, '')
    if isinstance(x, (int, float, bool) + NUMS):
        return (1, '')
    n = 'str' if isinstance(x, SymStr) else type(x).__name__
    return (2, n)


def by_cmp(a, b, ta, tb, *names):
    """what __cmp__ says, for objects ordered by it"""
    for x, t, y, s in ((a, ta, b, 1), (b, tb, a, -1)):
        if is_user(t):
            c = find_user(t, '__cmp__')
            if c is not None and not any(find_user(t, n) for n in names):
                r = r_call(c, x, y)
                if r is not NotImplemented:
                    return r if s == 1 else -r
    return None


def order(name, native):
    opp = {'lt': '__lt__', 'le': '__le__', 'gt': '__gt__', 'ge': '__ge__'}[name]

    def f(a, b):
        ta, tb = type(a), type(b)
        if ta in (int, bool, float) and tb in (int, bool, float):
            return native(a, b)
        if ta in NUMS or tb in NUMS:
            if rank(a)[0] == 1 and rank(b)[0] == 1:
                if ta is SymBool:
                    a = as_int(a)
                if tb is SymBool:
                    b = as_int(b)
                if isinstance(a, SymInt) and isinstance(b, (float, SymReal)):
                    a = sym.to_real(a)
                if isinstance(b, SymInt) and isinstance(a, (float, SymReal)):
                    b = sym.to_real(b)
                return native(a, b)
            return native(rank(a), rank(b))
        if (ta is tuple and tb is tuple) or (ta is list and tb is list):
            for x, y in zip(a, b):
                if not r_truth(r_eq(x, y)):
                    return f(x, y)
            return native(len(a), len(b))
        if rank(a) != rank(b) and not is_user(ta) and not is_user(tb):
            return native(rank(a), rank(b))
        r = by_cmp(a, b, ta, tb, opp)
        if r is not None:
            return f(r, 0)
        try:
            return native(a, b)
        except TypeError:
            raise EngineLimit('ordering of %s and %s' % (ta.__name__, tb.__name__))
    return f


import operator as _op
r_lt = order('lt', _op.lt)
r_le = order('le', _op.le)
r_gt = order('gt', _op.gt)
r_ge = order('ge', _op.ge)


def r_in(x, c):
    tc = type(c)
    if tc is SymStr or (tc is str and isinstance(x, SymStr)):
        return contains(c, x)
    if tc is str:
        if not isinstance(x, str):
            raise TypeError("'in <string>' requires string as left operand")
        return x in c
    if tc is range:
        if isinstance(x, SymInt) and c.step == 1:
            return b_and(x >= c.start, x < c.stop)
        c = list(c)
        tc = list
    if tc in (list, tuple) or tc.__name__ in ('dict_keys', 'dict_values'):
        cs = []
        if isinstance(x, SymInt) and c and len(c) > 2 and all(type(y) is int for y in c):
            xs = sorted(set(c))
            if xs[-1] - xs[0] == len(xs) - 1:
                return b_and(x >= xs[0], x <= xs[-1])
        for y in c:
            if y is x:
                return True
            e = r_eq(y, x)
            if e is True:
                return b_or(*(cs + [True]))
            if e is False:
                continue
            if isinstance(e, SymBool):
                cs.append(e)
            elif r_truth(e):
                return True
        return b_or(*cs)
    if tc in (dict, set, frozenset) or (isinstance(c, (dict, set, frozenset)) and not find_user(tc, '__contains__')):
        if isinstance(x, (SymInt, SymStr, SymBool)) or (isinstance(x, tuple) and has_sym(x)):
            return r_in(x, list(c))
        return x in c
    f = getattr(tc, '__contains__', None)
    if f is not None:
        r = f(c, x)
        # the in operator returns the truth value
        return r if isinstance(r, (bool, SymBool)) else r_truth(r)
    for y in r_iter(c):
        if y is x or r_truth(r_eq(y, x)):
            return True
    return False


def r_notin(x, c):
    return r_not(r_in(x, c))


# ------------------------------------------------------------ arithmetic
def is_num(x):
    return isinstance(x, (int, float)) or type(x) in NUMS


def r_div(a, b):
    if isinstance(a, float) or isinstance(b, float) or type(a) is SymReal or type(b) is SymReal:
        if isinstance(a, float) and isinstance(b, (int, float)):
            if b == 0:
                raise ZeroDivisionError('float division')
            return a / b
        if isinstance(b, float) and isinstance(a, int):
            if b == 0:
                raise ZeroDivisionError('float division')
            return a / b
        return sym.to_real(a) / b if is_num(a) and is_num(b) else bad_op('/', a, b)
    if is_num(a) and is_num(b):
        return a // b
    if isinstance(a, types.SimpleNamespace):
        return a / b
    f = getattr(type(a), '__div__', None) or getattr(type(a), '__truediv__', None)
    if f:
        return f(a, b)
    return bad_op('/', a, b)


def bad_op(op, a, b):
    raise TypeError("unsupported operand type(s) for %s: '%s' and '%s'" % (op, type(a).__name__, type(b).__name__))


def r_floordiv(a, b):
    if is_num(a) and is_num(b):
        return a // b
    return bad_op('//', a, b)


def r_mod(a, b):
    if isinstance(a, STRS):
        return fmt(a, b)
    return a % b


def r_pow(a, b):
    if type(a) in NUMS or type(b) in NUMS:
        if type(a) is SymBool:
            a = as_int(a)
        if isinstance(a, (int, float)) and isinstance(b, SymInt):
            if isinstance(a, float):
                b = sym.cur().concretize(b)
                return a ** b
            if a == 2:
                if b.lo < 0:
                    if r_truth(b < 0):
                        b = sym.cur().concretize(b)
                        return float(a) ** b
                    b = b.narrow(0, b.hi)
                return 1 << b
            b = sym.cur().concretize(b)
            return a ** b
        if isinstance(b, SymReal) or isinstance(a, SymReal):
            return sym.cur().real_pow(a, b) if not isinstance(b, int) else a ** b
        return a ** b
    return a ** b


def r_add(a, b):
    ta, tb = type(a), type(b)
    if ta in (list, tuple) or tb in (list, tuple):
        r = a + b
        if ta is list:
            fresh(r)
        return r
    if ta is str and tb is not str and tb is not SymStr:
        raise TypeError("cannot concatenate 'str' and '%s' objects" % tb.__name__)
    if isinstance(a, float) and type(b) in (SymInt, SymBool) or isinstance(b, float) and type(a) in (SymInt, SymBool):
        return sym.to_real(a) + sym.to_real(b)
    return a + b


def r_mult(a, b):
    if isinstance(a, (list, tuple, str, SymStr)) and isinstance(b, SymInt):
        b = sym.cur().concretize(b)
    elif isinstance(b, (list, tuple, str, SymStr)) and isinstance(a, SymInt):
        a = sym.cur().concretize(a)
    if isinstance(a, float) and type(b) in (SymInt, SymBool) or isinstance(b, float) and type(a) in (SymInt, SymBool):
        return sym.to_real(a) * sym.to_real(b)
    r = a * b
    if type(r) is list:
        fresh(r)
    return r


IOPS = {'Add': '__iadd__', 'Sub': '__isub__', 'Mult': '__imul__', 'BitOr': '__ior__', 'BitAnd': '__iand__',
        'BitXor': '__ixor__'}


def r_iop(op, a, b):
    if op == 'Add':
        if type(a) is list:
            mutating(a)
            a.extend(b)
            return a
        return r_add(a, b)
    if op == 'Sub':
        return a - b
    if op == 'Mult':
        return r_mult(a, b)
    if op == 'Div':
        return r_div(a, b)
    if op == 'FloorDiv':
        return r_floordiv(a, b)
    if op == 'Mod':
        return r_mod(a, b)
    if op == 'Pow':
        return r_pow(a, b)
    if type(a) is set:
        mutating(a)
    return {'BitOr': _op.or_, 'BitAnd': _op.and_, 'BitXor': _op.xor, 'LShift': _op.lshift,
            'RShift': _op.rshift}[op](a, b)


# ------------------------------------------------------------ containers
def r_slice(a, b, c):
    f = lambda x: sym.CUR.concretize(x) if isinstance(x, SymInt) else x
    return slice(f(a), f(b), f(c))


def norm_index(i, n, what):
    """condition-checked index: forks on out of range; returns SymInt in range"""
    lo, hi = sym.bounds(i)
    if lo < -n or hi >= n:
        ok = b_and(i >= -n, i < n)
        if not r_truth(ok):
            raise IndexError(what + ' index out of range')
        lo, hi = sym.bounds(i)
        lo, hi = max(lo, -n), min(hi, n - 1)
    if lo < 0 <= hi and not sym.CUR.spec:
        if r_truth(i < 0):
            hi = -1
        else:
            lo = 0
    if lo == hi:
        return lo
    return i.narrow(lo, hi)


def r_getitem(o, i):
    t = type(o)
    if type(i) is SymBool:
        i = as_int(i)
    if t is list or t is tuple or t is str or t is range:
        if type(i) is SymInt:
            n = len(o)
            i = norm_index(i, n, t.__name__)
            if type(i) is int:
                return o[i]
            vals = [(k, o[k]) for k in range(i.lo, i.hi + 1)]
            if t is str:
                sp = all(True for _ in vals)
                r = None
                for k, v in vals:
                    r = ord(v) if r is None else ite((i == k).t, ord(v), r)
                return chr_of(r)
            try:
                r = vals[-1][1]
                for k, v in reversed(vals[:-1]):
                    if v is r:
                        continue
                    e = i == k
                    if e is True:
                        r = v
                    elif e is not False:
                        r = ite_val(e.t, v, r)
                return r
            except Unmergeable:
                return o[sym.CUR.concretize(i)]
        if not isinstance(i, (int, slice)):
            raise TypeError('%s indices must be integers, not %s' % (t.__name__, type(i).__name__))
        r = o[i]
        if type(r) is list:
            fresh(r)
        return r
    if t is SymStr:
        if type(i) is SymInt:
            n = len(o)
            i = norm_index(i, n, 'string')
            if type(i) is int:
                return o[i]
            r = None
            ch = o.settle()
            for k in range(i.lo, i.hi + 1):
                v = symstr.code(ch[k])
                r = v if r is None else ite((i == k).t, v, r)
            return chr_of(r)
        return o[i]
    if isinstance(o, dict):
        if t is not dict:
            u = find_user(t, '__getitem__')
            if u is not None:
                return r_call(u, o, i)
        return dict_item(o, i)
    f = getattr(t, '__getitem__', None)
    if f is None:
        raise TypeError("'%s' object has no attribute '__getitem__'" % t.__name__)
    if isinstance(i, slice) and hasattr(t, '__getslice__'):
        return o.__getslice__(i.start or 0, sys.maxsize if i.stop is None else i.stop)
    return o[i]


def dict_item(o, i):
    """dict.__getitem__(o, i)"""
    t = type(o)
    miss = find_user(t, '__missing__') if t is not dict else None
    if dsym(i):
        if miss is not None and not r_truth(r_in(i, list(dict.keys(o)))):
            return r_call(miss, o, i)
        return dict_lookup(o, i, None, True)
    if miss is not None and not dict.__contains__(o, i):
        return r_call(miss, o, i)
    return dict.__getitem__(o, i)


def dict_store(o, i, v):
    """dict.__setitem__(o, i, v)"""
    if dsym(i):
        for kk in list(dict.keys(o)):
            if r_truth(r_eq(kk, i)):
                dict.__setitem__(o, kk, v)
                return
        i = concrete_key(i)
    dict.__setitem__(o, i, v)


def dict_drop(o, i):
    if dsym(i):
        for kk in list(dict.keys(o)):
            if r_truth(r_eq(kk, i)):
                dict.__delitem__(o, kk)
                return
        raise KeyError(i)
    dict.__delitem__(o, i)


def concrete_key(i):
    """a key that a new entry can be kept under: one path for each value"""
    if isinstance(i, tuple):
        return tuple([concrete_key(x) for x in i])
    if isinstance(i, SymBool):
        return r_truth(i)
    if isinstance(i, SymInt):
        return sym.CUR.concretize(i)
    if isinstance(i, SymStr):
        return ''.join([c if isinstance(c, str) else chr(sym.CUR.concretize(c)) for c in i.settle()])
    if isinstance(i, SymReal):
        raise EngineLimit('storing under a symbolic real')
    return i


def ite_val(c, a, b):
    if isinstance(a, STRS) and isinstance(b, STRS):
        ca, cb = symstr.chars(a), symstr.chars(b)
        if len(ca) != len(cb):
            raise Unmergeable()
        return mkstr(tuple([x if (isinstance(x, str) and x == y) else ite(c, symstr.code(x), symstr.code(y))
                            for x, y in zip(ca, cb)]))
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        return tuple([ite_val(c, x, y) for x, y in zip(a, b)])
    return ite(c, a, b)


def dict_lookup(d, k, default, must):
    conds = []
    for kk in list(d.keys()):
        e = r_eq(kk, k)
        if e is False:
            continue
        conds.append((e, kk))
        if e is True:
            break
    # merged lookup when the values allow it
    ex = sym.CUR
    if conds and not (isinstance(k, SymInt) and len(conds) == 1 and conds[0][0] is True):
        allc = b_or(*[c for c, _ in conds])
        if allc is not True and (must or not simple_scalar(default)):
            if not ex.truth(allc):
                if must:
                    raise KeyError(k)
                return default
            allc = True
        try:
            if allc is True:
                r = d[conds[-1][1]]
                rest = conds[:-1]
            else:
                r, rest = default, conds
            for c, kk in reversed(rest):
                v = d[kk]
                if c is True:
                    r = v
                else:
                    r = ite_val(c.t, v, r) if v is not r else r
            return r
        except Unmergeable:
            pass
    for c, kk in conds:
        if c is True or ex.truth(c):
            return d[kk]
    if must:
        raise KeyError(k)
    return default


def fresh(o):
    ex = sym.CUR
    if ex is not None and ex.sum_stack:
        ex.sum_stack[-1].fresh[id(o)] = o
    return o


# What existed before a path began, by identity; what a path changes of it is put back
# when the path ends, so that every path starts where a new process would.
BEFORE = {}
UNDO = {}


def contents(o):
    """a shallow copy of what can be changed in o"""
    t = type(o)
    if isinstance(o, type):
        return dict((k, v) for k, v in vars(o).items() if k not in ('__dict__', '__weakref__'))
    x = [None, None]
    if isinstance(o, (list, dict, set)):
        x[0] = list(o) if isinstance(o, list) else dict(o) if isinstance(o, dict) else set(o)
    if t not in (list, dict, set) and hasattr(o, '__dict__'):
        x[1] = dict(o.__dict__)
    return x


def put_back(o, x):
    if isinstance(o, type):
        for k in [k for k in vars(o) if k not in x and k not in ('__dict__', '__weakref__')]:
            type.__delattr__(o, k)
        now = vars(o)
        for k, v in x.items():
            if now.get(k) is not v or k not in now:
                type.__setattr__(o, k, v)
        return
    if x[0] is not None:
        if isinstance(o, list):
            list.__setitem__(o, slice(None), x[0])
        elif isinstance(o, dict):
            dict.clear(o)
            dict.update(o, x[0])
        else:
            set.clear(o)
            set.update(o, x[0])
    if x[1] is not None:
        d = o.__dict__
        dict.clear(d)
        dict.update(d, x[1])


def undo():
    for o, x in reversed(list(UNDO.values())):
        put_back(o, x)
    UNDO.clear()


def remember(world):
    """note everything reachable from the modules of the analysis"""
    BEFORE.clear()
    todo = []
    for m in world.modules.values():
        if '_R_pkg' in m.__dict__:
            BEFORE[id(m)] = m
            BEFORE[id(m.__dict__)] = m.__dict__
            todo.extend(v for k, v in m.__dict__.items() if k != '__builtins__')
    keep = []
    seen = set()
    while todo:
        o = todo.pop()
        t = type(o)
        if t in (int, str, float, bool, type(None), bytes) or id(o) in seen:
            continue
        seen.add(id(o))
        keep.append(o)
        if isinstance(o, types.ModuleType):
            continue
        if t is tuple or t is frozenset:
            todo.extend(o)
        elif isinstance(o, type):
            if is_user(o):
                BEFORE[id(o)] = o
                todo.extend(vars(o).values())
        elif t is types.FunctionType:
            if '_R_pkg' in o.__globals__:
                BEFORE[id(o)] = o
                d = o.__dict__
                BEFORE[id(d)] = d
                todo.extend(d.values())
                todo.extend(o.__defaults__ or ())
                todo.extend((o.__kwdefaults__ or {}).values())
                for cell in o.__closure__ or ():
                    try:
                        todo.append(cell.cell_contents)
                    except ValueError:
                        pass
        elif t is types.MethodType:
            todo.append(o.__func__)
            todo.append(o.__self__)
        elif t in (staticmethod, classmethod):
            todo.append(o.__func__)
        elif t is property:
            todo.extend((o.fget, o.fset, o.fdel))
        elif isinstance(o, (list, dict, set)) or is_user(t) or getattr(t, '_R_stateful', False):
            BEFORE[id(o)] = o
            if isinstance(o, dict):
                todo.extend(dict.keys(o))
                todo.extend(dict.values(o))
            elif isinstance(o, (list, set)):
                todo.extend(list.__iter__(o) if isinstance(o, list) else set.__iter__(o))
            if t not in (list, dict, set) and hasattr(o, '__dict__'):
                d = o.__dict__
                BEFORE[id(d)] = d
                todo.extend(d.values())
    BEFORE[id(keep)] = keep


def mutating(o):
    """called before any store into o"""
    ex = sym.CUR
    if ex is not None:
        if ex.sum_stack:
            for s in reversed(ex.sum_stack):
                if id(o) in s.fresh:
                    break
                s.impure = True
                raise sym.Impure()
        if ex.spec:
            raise SpecAbort()
    if id(o) in BEFORE and id(o) not in UNDO:
        UNDO[id(o)] = (o, contents(o))


def r_setitem(o, i, v):
    mutating(o)
    if type(i) is SymBool:
        i = as_int(i)
    t = type(o)
    if t is list and type(i) is SymInt:
        i = norm_index(i, len(o), 'list')
        if type(i) is int:
            o[i] = v
            return
        try:
            new = []
            for k in range(i.lo, i.hi + 1):
                e = i == k
                new.append((k, v if e is True else (o[k] if e is False else ite_val(e.t, v, o[k]))))
        except Unmergeable:
            o[sym.CUR.concretize(i)] = v
            return
        for k, x in new:
            o[k] = x
        return
    if isinstance(o, dict) and dsym(i):
        u = find_user(t, '__setitem__') if t is not dict else None
        if u is not None:
            r_call(u, o, i, v)
        else:
            dict_store(o, i, v)
        return
    if t in (str, tuple, SymStr):
        raise TypeError("'%s' object does not support item assignment" % t.__name__)
    o[i] = v


def r_augitem(op, o, i, val):
    """o[i] op= val()"""
    old = None
    if type(i) is SymBool:
        i = as_int(i)
    if type(o) is list and type(i) is SymInt and op in ('Add', 'Sub'):
        i = norm_index(i, len(o), 'list')
        if type(i) is SymInt and all(type(x) in (int, SymInt) for x in o[max(i.lo, 0):i.hi + 1]) and i.lo >= 0:
            d = val() if callable(val) else val
            if type(d) in (int, SymInt):
                mutating(o)
                if op == 'Sub':
                    d = -d
                for k in range(i.lo, i.hi + 1):
                    e = i == k
                    if e is True:
                        o[k] = o[k] + d
                    elif e is not False:
                        o[k] = o[k] + ite(e.t, d, 0)
                return
            val = d
    old = r_getitem(o, i)
    r_setitem(o, i, r_iop(op, old, val() if callable(val) else val))


def r_delitem(o, i):
    mutating(o)
    if isinstance(o, dict) and dsym(i) and find_user(type(o), '__delitem__') is None:
        dict_drop(o, i)
        return
    if isinstance(i, SymInt):
        i = sym.CUR.concretize(i)
    del o[i]


def r_setattr(o, name, v):
    if name.startswith('__') and name.endswith('__') and name in ('__class__',):
        pass
    t = type(o)
    f = getattr(t, '__setattr__', None)
    if f is object.__setattr__ or isinstance(o, type):
        mutating(o)
        setattr(o, name, v)
    else:
        setattr(o, name, v)


def r_delattr(o, name):
    mutating(o)
    delattr(o, name)


def r_unpack(v, n):
    if isinstance(v, (tuple, list)):
        if len(v) != n:
            raise ValueError('too many values to unpack' if len(v) > n else 'need more than %d values to unpack' % len(v))
        return v
    if v is None or isinstance(v, (int, SymInt, float, SymBool)):
        raise TypeError("'%s' object is not iterable" % type(v).__name__)
    xs = list(r_iter(v))
    if len(xs) != n:
        raise ValueError('too many values to unpack' if len(xs) > n else 'need more than %d values to unpack' % len(xs))
    return xs


def r_iter(x):
    t = type(x)
    if t in (list, tuple, str, dict, range, set):
        return x
    if t is SymStr:
        return iter(x)
    if x is None or isinstance(x, (int, SymInt, float, SymBool, SymReal)):
        raise TypeError("'%s' object is not iterable" % t.__name__)
    if isinstance(x, types.GeneratorType):
        return x
    if hasattr(t, '__iter__'):
        return x.__iter__() if is_user(t) else x
    if hasattr(t, '__getitem__'):
        def g():
            i = 0
            while True:
                try:
                    v = x[i]
                except IndexError:
                    return
                yield v
                i += 1
        return g()
    if hasattr(t, 'next'):
        return x
    raise TypeError("'%s' object is not iterable" % t.__name__)


def r_fresh(x):
    return fresh(x)


# ------------------------------------------------------------ conversions
def r_str(v=''):
    t = type(v)
    if t is str or t is SymStr:
        return v
    if t is SymInt:
        return SymStr((Num(v),))
    if t is SymBool:
        return 'True' if r_truth(v) else 'False'
    if t is SymReal:
        return SymStr((Opaque('str of a real'),))
    if t is float:
        return py2_float(v, 12)
    if t is int or t is bool or v is None:
        return str(v)
    if t in (list, tuple, dict, set):
        return r_repr(v)
    if isinstance(v, BaseException):
        if is_user(t) and '__str__' in user_dict(t):
            return v.__str__()
        a = v.args
        if len(a) == 0:
            return ''
        if len(a) == 1:
            return r_str(a[0])
        return r_repr(a)
    if is_user(t):
        f = find_user(t, '__str__')
        if f is not None:
            r = f(v)
            if not isinstance(r, STRS):
                raise TypeError('__str__ returned non-string (type %s)' % type(r).__name__)
            return r
        return r_repr(v)
    if isinstance(v, type):
        return "<class '%s'>" % v.__name__
    return str(v)


def user_dict(t):
    d = {}
    for k in reversed(t.__mro__):
        if is_user(k):
            d.update(k.__dict__)
    return d


def find_user(t, name):
    for k in t.__mro__:
        if k.__dict__.get('_R_user') and name in k.__dict__:
            return k.__dict__[name]
        if k.__module__ != 'builtins' and not k.__dict__.get('_R_user') and name in k.__dict__:
            return k.__dict__[name]
    return None


def py2_float(v, n):
    s = '%.*g' % (n, v)
    if s.lstrip('-').isdigit():
        s += '.0'
    return s


def r_repr(v):
    t = type(v)
    if t is str:
        return py2_strrepr(v)
    if t is SymStr:
        return repr_symstr(v)
    if t is SymInt:
        return SymStr((Num(v),))
    if t is SymBool:
        return r_str(v)
    if t is SymReal:
        return SymStr((Opaque('repr of a real'),))
    if t is float:
        return repr(v)
    if t in (int, bool, type(None)):
        return repr(v)
    if t is tuple:
        xs = [r_repr(x) for x in v]
        return symstr.METHODS['join']('', ['(', symstr.METHODS['join'](', ', xs), ',)' if len(xs) == 1 else ')'])
    if t is list:
        return symstr.METHODS['join']('', ['[', symstr.METHODS['join'](', ', [r_repr(x) for x in v]), ']'])
    if t is dict:
        xs = [symstr.METHODS['join'](': ', [r_repr(k), r_repr(x)]) for k, x in v.items()]
        return symstr.METHODS['join']('', ['{', symstr.METHODS['join'](', ', xs), '}'])
    if isinstance(v, BaseException):
        return SymStr((Opaque('repr of an exception'),))
    if is_user(t):
        f = find_user(t, '__repr__')
        if f is not None:
            return f(v)
        return SymStr((Opaque('default repr'),))
    if t is types.FunctionType or t is types.MethodType or isinstance(v, type):
        return SymStr((Opaque('repr of a function'),))
    return SymStr((Opaque('repr of ' + t.__name__),))


def py2_strrepr(v):
    q = '"' if "'" in v and '"' not in v else "'"
    out = [q]
    for c in v:
        o = ord(c)
        if c == q or c == '\\':
            out.append('\\' + c)
        elif c == '\n':
            out.append('\\n')
        elif c == '\r':
            out.append('\\r')
        elif c == '\t':
            out.append('\\t')
        elif o < 32 or o > 126:
            out.append('\\x%02x' % o)
        else:
            out.append(c)
    return ''.join(out) + q


def repr_symstr(v):
    for c in v.ch:
        if not isinstance(c, str):
            return SymStr((Opaque('repr of symbolic text', lambda: symstr.chars(repr_chars(v))),))
    return py2_strrepr(''.join(v.ch))


def repr_chars(v):
    """the repr worked out, one path for each shape"""
    tr = symstr.truth
    q = '"' if tr(symstr.contains(v, "'")) and not tr(symstr.contains(v, '"')) else "'"
    out = [q]
    for c in symstr.chars(v):
        if not isinstance(c, str):
            if tr(b_or(symstr.ceq(c, q), symstr.ceq(c, '\\'))):
                out.append('\\')
                out.append(c)
                continue
            if tr(symstr.rng(c, ' ', '~')):
                out.append(c)
                continue
            c = chr(sym.CUR.concretize(c))
        out.extend(py2_strrepr('"' + c)[2:-1] if c == "'" and q == '"' else
                   '"' if c == '"' and q == "'" else '\\' + c if c == q else py2_strrepr(c)[1:-1])
    out.append(q)
    return mkstr(tuple(out))


import re as _re
_INT = _re.compile(r'[\t\n\x0b\x0c\r ]*[-+]?[0-9]+[\t\n\x0b\x0c\r ]*\Z')


def r_int(v=0, base=10):
    t = type(v)
    if t is int:
        return v
    if t is SymInt:
        return v
    if t is bool or t is SymBool:
        return as_int(v)
    if t is str:
        if base == 10:
            if not _INT.match(v):
                raise ValueError('invalid literal for int() with base 10: %s' % py2_strrepr(v))
            return int(v)
        if '_' in v:
            raise ValueError('invalid literal for int()')
        return int(v, base)
    if t is SymStr:
        return to_int(v, base)
    if t is float:
        return int(v)
    if t is SymReal:
        return sym.real_int(v)
    if v is None or t in (list, tuple, dict):
        raise TypeError("int() argument must be a string or a number, not '%s'" % t.__name__)
    f = getattr(t, '__int__', None)
    if f is None:
        raise TypeError("int() argument must be a string or a number, not '%s'" % t.__name__)
    return f(v)


_FLOAT = _re.compile(r'\s*[-+]?(\d+(\.\d*)?|\.\d+)([eE][-+]?\d+)?\s*\Z')


def r_float(v=0.0):
    t = type(v)
    if t is SymInt or t is SymBool:
        return sym.to_real(v)
    if t is SymReal:
        return v
    if t is SymStr:
        raise EngineLimit('float of symbolic text')
    if t is str and '_' in v:
        raise ValueError('invalid literal for float')
    if t is bool or t is int or t is float or t is str:
        return float(v)
    raise TypeError('float() argument must be a string or a number')


def r_bool(v=False):
    c = cond_of(v)
    return c


def r_len(v):
    t = type(v)
    if t is SymStr:
        return len(v.settle())
    if is_user(t):
        return t.__len__(v)
    if v is None or isinstance(v, (int, float) + NUMS):
        raise TypeError("object of type '%s' has no len()" % t.__name__)
    return len(v)


def r_chr(v):
    if type(v) in (SymInt, SymBool):
        v = as_int(v)
        if isinstance(v, SymInt):
            if v.lo < 0 or v.hi > 255:
                if not r_truth(b_and(v >= 0, v <= 255)):
                    raise ValueError('chr() arg not in range(256)')
                v = v.narrow(0, 255)
        return chr_of(v)
    if not isinstance(v, int):
        raise TypeError('an integer is required')
    if not 0 <= v < 256:
        raise ValueError('chr() arg not in range(256)')
    return chr(v)


def r_ord(s):
    if isinstance(s, SymStr):
        ch = s.settle()
        if len(ch) != 1:
            raise TypeError('ord() expected a character')
        return symstr.code(ch[0])
    if not isinstance(s, str) or len(s) != 1:
        raise TypeError('ord() expected a character')
    return ord(s)


def r_abs(v):
    if type(v) is SymBool:
        v = as_int(v)
    if v is None or isinstance(v, STRS):
        raise TypeError('bad operand type for abs(): %s' % type(v).__name__)
    return abs(v)


def r_minmax(lt):
    def f(*xs, **kw):
        if len(xs) == 1:
            xs = list(r_iter(xs[0]))
            if not xs:
                raise ValueError('min() arg is an empty sequence')
        key = kw.get('key')
        best = xs[0]
        for x in xs[1:]:
            c = lt(r_call(key, x), r_call(key, best)) if key else lt(x, best)
            if c is True:
                best = x
            elif c is False:
                pass
            elif isinstance(c, SymBool):
                try:
                    best = ite(c.t, x, best)
                except Unmergeable:
                    best = x if sym.CUR.branch(c.t) else best
            elif r_truth(c):
                best = x
        return best
    return f


r_min = r_minmax(r_lt)
r_max = r_minmax(r_gt)


def r_sum(xs, start=0):
    for x in r_iter(xs):
        start = r_add(start, x)
    return start


def r_range(*a):
    b = []
    for x in a:
        if isinstance(x, SymInt):
            x = sym.CUR.concretize(x)
        elif isinstance(x, SymBool):
            x = sym.CUR.concretize(as_int(x))
        elif not isinstance(x, int):
            if isinstance(x, float):
                x = int(x)
            else:
                raise TypeError('range() integer end argument expected, got %s.' % type(x).__name__)
        b.append(x)
    return fresh(list(range(*b)))


def r_list(xs=()):
    return fresh(list(r_iter(xs)))


def r_tuple(xs=()):
    if type(xs) is tuple:
        return xs
    return tuple(r_iter(xs))


def r_set(xs=()):
    out = []
    for x in r_iter(xs):
        if dsym(x):
            x = concrete_key(x)
        out.append(x)
    return fresh(set(out))


def concrete_str(x):
    out = []
    for c in x.settle():
        out.append(c if isinstance(c, str) else chr(sym.CUR.concretize(c)))
    return ''.join(out)


def dict_display(pairs):
    """{k: v, ...}"""
    d = {}
    for k, v in pairs:
        if dsym(k):
            dict_store(d, k, v)
        else:
            d[k] = v
    return fresh(d)


def r_dict(*a, **k):
    d = {}
    if a:
        src = a[0]
        if isinstance(src, dict):
            d.update(src)
        else:
            for p in r_iter(src):
                kk, v = r_unpack(p, 2)
                if dsym(kk):
                    dict_store(d, kk, v)
                else:
                    d[kk] = v
    d.update(k)
    return fresh(d)


def r_map(f, *xs):
    if f is None:
        if len(xs) == 1:
            return r_list(xs[0])
        return r_zip(*xs)
    if len(xs) == 1:
        return fresh([r_call(f, x) for x in r_iter(xs[0])])
    ls = [list(r_iter(x)) for x in xs]
    n = max(len(l) for l in ls)
    for l in ls:
        l.extend([None] * (n - len(l)))
    return fresh([r_call(f, *t) for t in zip(*ls)])


def r_filter(f, xs):
    out = []
    for x in r_iter(xs):
        if r_truth(x if f is None else r_call(f, x)):
            out.append(x)
    if isinstance(xs, STRS):
        return symstr.METHODS['join']('', out)
    if isinstance(xs, tuple):
        return tuple(out)
    return fresh(out)


def r_reduce(f, xs, *init):
    it = iter(r_iter(xs))
    if init:
        acc = init[0]
    else:
        try:
            acc = next(it)
        except StopIteration:
            raise TypeError('reduce() of empty sequence with no initial value')
    for x in it:
        acc = r_call(f, acc, x)
    return acc


def r_zip(*xs):
    return fresh(list(zip(*[r_iter(x) for x in xs])))


def r_enumerate(xs, start=0):
    i = start
    for x in r_iter(xs):
        yield i, x
        i += 1


def r_reversed(x):
    if isinstance(x, SymStr):
        return x.__reversed__()
    if isinstance(x, (list, tuple, str, range)):
        return reversed(x)
    if hasattr(type(x), '__reversed__'):
        return x.__reversed__()
    if hasattr(type(x), '__len__') and hasattr(type(x), '__getitem__'):
        return reversed([x[i] for i in range(r_len(x))])
    raise TypeError('argument to reversed() must be a sequence')


def r_sorted(xs, cmp=None, key=None, reverse=False):
    out = []
    ys = [(r_call(key, x) if key is not None else x, x) for x in r_iter(xs)]
    reverse = r_truth(reverse)

    def after(a, b):
        if cmp is not None:
            d = r_call(cmp, a, b)
            return r_truth(r_lt(d, 0) if reverse else r_gt(d, 0))
        return r_truth(r_lt(a, b) if reverse else r_gt(a, b))
    for k, x in ys:
        i = len(out)
        while i > 0 and after(out[i - 1][0], k):
            i -= 1
        out.insert(i, (k, x))
    return fresh([x for _, x in out])


def r_any(xs):
    if isinstance(xs, types.GeneratorType):
        # lazily: what follows a true one is not evaluated
        for x in xs:
            if r_truth(x):
                return True
        return False
    return b_or(*[cond_of(x) for x in r_iter(xs)])


def r_all(xs):
    if isinstance(xs, types.GeneratorType):
        for x in xs:
            if not r_truth(x):
                return False
        return True
    return b_and(*[cond_of(x) for x in r_iter(xs)])


def r_isinstance(x, t):
    if isinstance(t, tuple):
        for y in t:
            if r_isinstance(x, y):
                return True
        return False
    if type(x) in NUMS or type(x) is SymStr:
        k = r_type(x)
        return issubclass(k, t) if t is not LONG else False
    if t is LONG:
        return isinstance(x, int) and not isinstance(x, bool) and abs(x) > 2 ** 63
    return isinstance(x, t)


class LONG(object):
    def __new__(cls, v=0):
        return r_int(v)


class UNICODE(str):
    def __new__(cls, v='', *a):
        return r_str(v)


def r_type(x, *a):
    if a:
        return type(x, *a)
    t = type(x)
    if t is SymInt:
        return int
    if t is SymBool:
        return bool
    if t is SymReal:
        return float
    if t is SymStr:
        return str
    return t


_NOARG = object()


def r_getattr(o, name, default=_NOARG):
    if isinstance(name, SymStr):
        if isinstance(o, type):
            names = dir(o)
        else:
            names = dir(o)
        for n in names:
            if not n.startswith('__') and r_truth(r_eq(name, n)):
                return getattr(o, n)
        if default is not _NOARG:
            return default
        raise AttributeError(name)
    name = ATTRMAP.get(name, name)
    if name == 'next' and not is_user(type(o)) and hasattr(type(o), '__next__') and not hasattr(o, 'next'):
        return lambda: r_next(o)
    if default is _NOARG:
        return getattr(o, name)
    return getattr(o, name, default)


ATTRMAP = {'func_name': '__name__', 'func_code': '__code__', 'im_self': '__self__', 'im_func': '__func__',
           'im_class': '__class__'}


def r_hasattr(o, name):
    try:
        r_getattr(o, name)
    except Exception:
        return False
    return True


def b_setattr(o, name, v):
    r_setattr(o, name, v)


class HashOf(object):
    """hash of a value with symbolic parts: equal values hash alike"""
    __slots__ = ('x',)
    __hash__ = None

    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        if isinstance(o, HashOf) and r_truth(r_eq(self.x, o.x)):
            return True
        raise EngineLimit('comparing hashes of different values')


def r_hash(x):
    t = type(x)
    if t in (SymInt, SymBool, SymReal, SymStr) or t is tuple and has_sym(x):
        return HashOf(x)
    if t in (list, dict, set):
        raise TypeError('unhashable type: %s' % t.__name__)
    if is_user(t):
        f = getattr(t, '__hash__', None)
        if f is not None and f is not object.__hash__:
            h = f(x)
            if type(h) not in (int, HashOf):
                raise TypeError('__hash__ should return a int')
            return h
    return hash(x)


def r_callable(x):
    return callable(x)


def r_next(it, *d):
    mutating(it)
    if is_user(type(it)) and hasattr(it, 'next'):
        return it.next()
    return next(it, *d)


def r_cmp(a, b):
    r = by_cmp(a, b, type(a), type(b))
    if r is not None:
        return -1 if r_truth(r_lt(r, 0)) else 1 if r_truth(r_gt(r, 0)) else 0
    if r_truth(r_lt(a, b)):
        return -1
    return 0 if r_truth(r_eq(a, b)) else 1


def r_divmod(a, b):
    return (r_floordiv(a, b), r_mod(a, b))


def r_round(x, n=0):
    if type(x) in NUMS:
        if type(n) is int and n == 0:
            return sym.real_round(sym.to_real(x))
        raise EngineLimit('round to symbolic decimals')
    import math
    m = 10.0 ** n
    return math.floor(abs(x) * m + 0.5) / m * (1 if x >= 0 else -1)


def r_id(x):
    return id(x)


def r_iterb(x, *a):
    if a:
        return until(x, a[0])
    return iter(r_iter(x))


def until(f, end):
    while True:
        r_tick()
        v = r_call(f)
        if r_truth(r_eq(v, end)):
            return
        yield v


def r_vars(*a):
    return vars(*a)


def r_oct(x):
    if isinstance(x, (SymInt, SymBool)):
        x = sym.CUR.concretize(as_int(x))
    s = oct(x).replace('0o', '0')
    return '0' if x == 0 else s


def r_hex(x):
    if isinstance(x, (SymInt, SymBool)):
        x = sym.CUR.concretize(as_int(x))
    return hex(x)


def r_bin(x):
    if isinstance(x, (SymInt, SymBool)):
        x = sym.CUR.concretize(as_int(x))
    return bin(x)


def r_pow3(a, b, c=None):
    if c is not None:
        raise EngineLimit('pow with modulus')
    return r_pow(a, b)


# real type objects stay under their names; calls go through these
CALLS = {}


def shim(real, f):
    CALLS[id(real)] = f


for _r, _f in ((str, r_str), (int, r_int), (float, r_float), (bool, r_bool), (len, r_len), (chr, r_chr), (ord, r_ord),
               (abs, r_abs), (min, r_min), (max, r_max), (sum, r_sum), (range, r_range), (list, r_list),
               (tuple, r_tuple), (set, r_set), (dict, r_dict), (map, r_map), (filter, r_filter), (zip, r_zip),
               (enumerate, r_enumerate), (reversed, r_reversed), (sorted, r_sorted), (any, r_any), (all, r_all),
               (isinstance, r_isinstance), (type, r_type), (getattr, r_getattr), (setattr, b_setattr),
               (hash, r_hash), (callable, r_callable), (next, r_next), (divmod, r_divmod), (round, r_round),
               (repr, r_repr), (iter, r_iterb), (hasattr, r_hasattr), (pow, r_pow3)):
    shim(_r, _f)

# mutating methods of native containers
MUTATORS = {
    list: frozenset(('append', 'extend', 'insert', 'pop', 'remove', 'reverse', 'sort')),
    dict: frozenset(('update', 'pop', 'popitem', 'clear', 'setdefault')),
    set: frozenset(('add', 'remove', 'discard', 'update', 'clear', 'pop', 'difference_update')),
}


def list_remove(o, x):
    for i, y in enumerate(o):
        if y is x or r_truth(r_eq(y, x)):
            del o[i]
            return
    raise ValueError('list.remove(x): x not in list')


def list_index(o, x, *a):
    for i, y in enumerate(o):
        if y is x or r_truth(r_eq(y, x)):
            return i
    raise ValueError('x not in list')


def seq_count(o, x):
    n = 0
    for y in o:
        c = r_eq(y, x)
        n = r_add(n, as_int(c) if isinstance(c, (bool, SymBool)) else int(c))
    return n


def list_sort(o, cmp=None, key=None, reverse=False):
    o[:] = r_sorted(o, cmp, key, reverse)


def list_insert(o, i, x):
    if isinstance(i, SymInt):
        i = sym.CUR.concretize(i)
    o.insert(i, x)


def list_pop(o, *a):
    a = [sym.CUR.concretize(x) if isinstance(x, SymInt) else x for x in a]
    return o.pop(*a)


LISTM = {'remove': list_remove, 'index': list_index, 'count': seq_count, 'sort': list_sort, 'insert': list_insert,
         'pop': list_pop, 'extend': lambda o, xs: o.extend(r_iter(xs))}


def dsym(k):
    return isinstance(k, (SymInt, SymStr, SymBool)) or (isinstance(k, tuple) and has_sym(k))


def dict_get(d, k, default=None):
    if dsym(k):
        return dict_lookup(d, k, default, False)
    return d.get(k, default)


def dict_pop(d, k, *dflt):
    if dsym(k):
        for kk in list(d.keys()):
            if r_truth(r_eq(kk, k)):
                return d.pop(kk)
        if dflt:
            return dflt[0]
        raise KeyError(k)
    return d.pop(k, *dflt)


def dict_update(d, /, *a, **k):
    if a:
        src = a[0]
        if isinstance(src, dict):
            for kk, v in src.items():
                d[kk] = v
        elif hasattr(type(src), 'keys'):
            for kk in src.keys():
                d[kk] = src[kk]
        else:
            for p in r_iter(src):
                kk, v = r_unpack(p, 2)
                r_setitem(d, kk, v)
    d.update(k)


def dict_setdefault(d, k, v=None):
    if dsym(k):
        for kk in list(d.keys()):
            if r_truth(r_eq(kk, k)):
                return d[kk]
        dict_store(d, k, v)
        return v
    return d.setdefault(k, v)


DICTM = {'keys': lambda d: fresh(list(d.keys())), 'values': lambda d: fresh(list(d.values())),
         'items': lambda d: fresh(list(d.items())), 'iterkeys': lambda d: iter(list(d.keys())),
         'itervalues': lambda d: iter(list(d.values())), 'iteritems': lambda d: iter(list(d.items())),
         'has_key': lambda d, k: r_in(k, d), 'get': dict_get, 'pop': dict_pop, 'update': dict_update,
         'copy': lambda d: fresh(dict(d)), 'setdefault': dict_setdefault}

NATIVE_DICT = dict(DICTM, __getitem__=dict_item, __setitem__=dict_store, __delitem__=dict_drop,
                   __contains__=lambda d, k: r_in(k, list(dict.keys(d))), __len__=lambda d: dict.__len__(d),
                   __iter__=lambda d: dict.__iter__(d), __init__=lambda d, /, *a, **k: dict_init(d, *a, **k),
                   keys=lambda d: fresh(list(dict.keys(d))), values=lambda d: fresh(list(dict.values(d))),
                   items=lambda d: fresh(list(dict.items(d))), has_key=lambda d, k: r_in(k, list(dict.keys(d))))
DICT_CHANGES = {'__setitem__', '__delitem__', '__init__', 'pop', 'update', 'setdefault', 'clear', 'popitem'}


def dict_init(d, /, *a, **k):
    if a:
        src = a[0]
        if isinstance(src, dict):
            for kk, v in src.items():
                dict_store(d, kk, v)
        else:
            for p in r_iter(src):
                kk, v = r_unpack(p, 2)
                dict_store(d, kk, v)
    for kk, v in k.items():
        dict_store(d, kk, v)


def native_dict(o, name, a, k):
    """the dict method itself, whatever a subclass makes of the name"""
    if name in DICT_CHANGES:
        mutating(o)
    f = NATIVE_DICT.get(name)
    if f is not None:
        return f(o, *a, **k)
    return getattr(dict, name)(o, *a, **k)


STRM = {'split', 'join', 'find', 'rfind', 'index', 'replace', 'startswith', 'endswith', 'strip', 'lstrip', 'rstrip',
        'partition', 'count'}


def r_mcall(o, name, /, *a, **k):
    t = type(o)
    if t is list:
        if name in MUTATORS[list]:
            mutating(o)
        f = LISTM.get(name)
        if f is not None:
            return f(o, *a, **k)
        return getattr(o, name)(*a, **k)
    if t is dict:
        if name in MUTATORS[dict]:
            mutating(o)
        f = DICTM.get(name)
        if f is not None:
            return f(o, *a, **k)
        return getattr(o, name)(*a, **k)
    if t is str:
        if name == 'join':
            xs = list(r_iter(a[0]))
            for x in xs:
                if type(x) is not str:
                    return METHODS['join'](o, xs)
            return o.join(xs)
        if name in ('decode', 'encode'):
            return o
        for x in a:
            if type(x) is SymStr or (type(x) is tuple and has_sym(x)):
                return METHODS[name](o, *a, **k)
            if type(x) is SymInt:
                return METHODS[name](o, *a, **k)
        if name in ('format', 'center', 'translate', 'title'):
            return METHODS[name](o, *a, **k)
        if name in ('isdigit', 'isalpha', 'isalnum', 'isspace', 'isupper', 'islower', 'lower', 'upper', 'capitalize',
                    'strip', 'lstrip', 'rstrip', 'split', 'splitlines') and not (name == 'split' and a and a[0] is not None) \
                and not (name.endswith('strip') and a and a[0] is not None):
            if o.isascii():
                if name == 'splitlines':
                    return fresh(METHODS['splitlines'](o, *a))
                if name == 'split' or name.endswith('strip'):
                    r = METHODS[name](o, *a)
                    return fresh(r) if type(r) is list else r
                return getattr(o, name)(*a, **k)
            if name in METHODS:
                return METHODS[name](o, *a, **k)
        if any(x is None for x in a) and name not in ('split', 'strip', 'lstrip', 'rstrip', 'rsplit'):
            raise TypeError('expected a string or other character buffer object')
        r = getattr(o, name)(*a, **k)
        if type(r) is list:
            fresh(r)
        return r
    if t is SymStr:
        r = getattr(o, name)(*a, **k)
        if type(r) is list:
            fresh(r)
        return r
    if t is set:
        if name in MUTATORS[set]:
            mutating(o)
        if a and dsym(a[0]):
            if name == 'add':
                if r_truth(r_in(a[0], o)):
                    return None
                v = a[0]
                o.add(sym.CUR.concretize(v) if isinstance(v, SymInt) else concrete_str(v))
                return None
            raise EngineLimit('set.%s with a symbolic value' % name)
        return getattr(o, name)(*a, **k)
    if t is tuple:
        if name == 'index':
            return list_index(o, *a)
        if name == 'count':
            return seq_count(o, *a)
        return getattr(o, name)(*a, **k)
    if isinstance(o, types.GeneratorType):
        if name == 'next':
            mutating(o)
            return next(o)
        return getattr(o, name)(*a, **k)
    if isinstance(o, types.ModuleType):
        return r_call(getattr(o, name), *a, **k)
    if name == '__new__' and o is object:
        return fresh(object.__new__(a[0]))
    if name == '__setattr__' and o is object:
        mutating(a[0])
        object.__setattr__(*a)
        return None
    if t is types.FunctionType and name == '__call__':
        return r_call(o, *a, **k)
    if isinstance(o, dict) and not is_user_attr(t, name):
        if name in MUTATORS[dict]:
            mutating(o)
        f = DICTM.get(name)
        if f is not None:
            return f(o, *a, **k)
    if t is types.MappingProxyType:
        if name in ('keys', 'values', 'items', 'iterkeys', 'itervalues', 'iteritems', 'has_key', 'get', 'copy'):
            return DICTM[name](dict((n, v) for n, v in o.items() if not n.startswith('_R_')), *a, **k)
    if isinstance(o, list) and not is_user_attr(t, name):
        if name in MUTATORS[list]:
            mutating(o)
        f = LISTM.get(name)
        if f is not None:
            return f(o, *a, **k)
    if o is str or o is SymStr:
        return r_mcall(a[0], name, *a[1:], **k)
    if o is dict:
        if name == 'fromkeys':
            return r_dict([(x, a[1] if len(a) > 1 else None) for x in r_iter(a[0])])
        return native_dict(a[0], name, a[1:], k)
    if name == 'fromkeys' and isinstance(o, dict):
        return r_dict([(x, a[1] if len(a) > 1 else None) for x in r_iter(a[0])])
    if t is _b.super:
        f = getattr(o, name)
        if getattr(f, '__self__', None) is not None and type(f) in (types.BuiltinMethodType, types.MethodWrapperType) \
                and isinstance(f.__self__, dict):
            return native_dict(f.__self__, name, a, k)
        return r_call(f, *a, **k)
    if name == 'next' and hasattr(t, '__next__') and not is_user(t):
        mutating(o)
        return next(o)
    if not is_user(t) and not isinstance(o, type) and getattr(t, '_R_stateful', False):
        mutating(o)
    if isinstance(o, BaseException) and name == '__init__':
        return o.__init__(*a)
    return r_call(getattr(o, name), *a, **k)


def is_user_attr(t, name):
    return find_user(t, name) is not None


def r_call(f, /, *a, **k):
    s = CALLS.get(id(f))
    if s is not None:
        return s(*a, **k)
    t = type(f)
    if t is types.FunctionType or t is types.MethodType:
        ex = sym.CUR
        if ex is not None and ex.summarize:
            return ex.call(f, a, k)
        return f(*a, **k)
    if t is types.BuiltinMethodType or t is types.MethodWrapperType:
        o = getattr(f, '__self__', None)
        if o is not None and not isinstance(o, types.ModuleType):
            if isinstance(o, dict) and type(o) is not dict and is_user_attr(type(o), f.__name__):
                return native_dict(o, f.__name__, a, k)
            if isinstance(o, list) and type(o) is not list and is_user_attr(type(o), f.__name__):
                return f(*a, **k)
            if isinstance(o, (list, dict, str, set, tuple)):
                return r_mcall(o, f.__name__, *a, **k)
    if isinstance(f, type) and f.__dict__.get('_R_user') and sym.CUR is not None and sym.CUR.sum_stack:
        if f.__new__ is object.__new__ and type(f) is type:
            o = fresh(f.__new__(f))
            f.__init__(o, *a, **k) if f.__init__ is not object.__init__ else None
            return o
    return f(*a, **k)


def r_super(*a):
    return _b.super(*a)


class Stdout(object):
    """print target: counted, never looked at"""
    def write(self, s):
        pass

    def flush(self):
        pass


def r_print(dest, vals):
    if dest is None:
        return          # diagnostics on standard output are not modelled
    s = METHODS['join'](' ', [r_str(v) for v in vals])
    r_mcall(dest, 'write', s)
    r_mcall(dest, 'write', '\n')


# ------------------------------------------------------------ exceptions
def r_mkexc(t, *v):
    if isinstance(t, type) and issubclass(t, BaseException):
        if v:
            if isinstance(v[0], tuple):
                return t(*v[0])
            if isinstance(v[0], t):
                return v[0]
            return t(v[0])
        return t()
    if isinstance(t, BaseException):
        return t
    return TypeError('exceptions must be old-style classes or derived from BaseException, not %s' % type(t).__name__)


def r_reraise():
    e = sys.exc_info()[1]
    if e is None or isinstance(e, sym.Steer):
        raise TypeError('exceptions must be old-style classes or derived from BaseException, not NoneType')
    raise e


def r_exctype(t):
    return t


def r_bases(*bases):
    out = []
    for b in bases:
        if b is LONG:
            b = int
        if b is UNICODE:
            b = str
        if isinstance(b, type):
            out.append(b)
        else:
            raise TypeError('bad base')
    return tuple(out) or (object,)


def r_tick():
    sym.CUR.tick() if sym.CUR is not None else None


def r_fn(label):
    ex = sym.CUR
    if ex is not None:
        ex.stats.functions.add(label)


R = dict(truth=r_truth, ifexp=r_ifexp, andor=r_andor, eq=r_eq, ne=r_ne, lt=r_lt, le=r_le, gt=r_gt, ge=r_ge, notin=r_notin,
         getitem=r_getitem, setitem=r_setitem, augitem=r_augitem, delitem=r_delitem, slice=r_slice, setattr=r_setattr,
         delattr=r_delattr, iop=r_iop, div=r_div, mod=r_mod, pow=r_pow, add=r_add, mult=r_mult, floordiv=r_floordiv,
         call=r_call, mcall=r_mcall, super=r_super, print=r_print, mkexc=r_mkexc, reraise=r_reraise,
         exctype=r_exctype, Exception=Exception, unpack=r_unpack, iter=r_iter, tick=r_tick, fresh=r_fresh, dict_display=dict_display, set_display=r_set,
         repr=r_repr, bases=r_bases, fn=r_fn, getattr=r_getattr, mutating=mutating)
R['and'] = r_and
R['chain'] = r_chain
R['or'] = r_or
R['not'] = r_not
R['in'] = r_in


# ------------------------------------------------------------ built-ins
def make_builtins():
    d = {}
    for n in ('ArithmeticError AssertionError AttributeError BaseException EOFError Exception FloatingPointError '
              'GeneratorExit ImportError IndexError KeyError KeyboardInterrupt LookupError MemoryError NameError '
              'NotImplementedError OSError IOError OverflowError RuntimeError StopIteration SyntaxError SystemError '
              'SystemExit TypeError UnboundLocalError UnicodeDecodeError UnicodeEncodeError UnicodeError ValueError '
              'ZeroDivisionError Warning DeprecationWarning EnvironmentError NotImplemented None True False Ellipsis '
              'object str int float bool list tuple dict set frozenset len abs chr ord min max sum range map filter '
              'zip enumerate reversed sorted any all isinstance issubclass type getattr setattr hasattr delattr hash '
              'callable id next divmod round repr iter property classmethod staticmethod slice globals locals dir vars '
              'complex hex oct pow bin').split():
        d[n] = getattr(_b, n)
    d['StandardError'] = Exception
    d['hex'], d['oct'], d['bin'] = r_hex, r_oct, r_bin
    d['xrange'] = range
    d['basestring'] = str
    d['unicode'] = UNICODE
    d['long'] = LONG
    d['unichr'] = chr
    d['reduce'] = r_reduce
    d['cmp'] = r_cmp
    d['apply'] = lambda f, a=(), k={}: r_call(f, *a, **k)
    d['format'] = symstr.format_value
    for n in ('bytearray', 'buffer', 'memoryview'):
        d[n] = type(n, (), {'__new__': unmodelled(n)})
    for n in ('intern', 'coerce', 'execfile', 'input', 'raw_input', 'compile', 'eval', 'reload'):
        d[n] = unmodelled(n)
    d['file'] = NoFile
    d['open'] = NoFile

    def build_class(func, name, *bases, **kw):
        cls = _b.__build_class__(func, name, *bases, **kw)
        ns = cls.__dict__
        type.__setattr__(cls, '_R_user', True)
        if '__eq__' in ns and ns.get('__hash__', 1) is None:
            type.__setattr__(cls, '__hash__', object.__hash__)
        meta = ns.get('__metaclass__')
        if meta is None and func.__globals__.get('__metaclass__') is not None and not bases:
            meta = func.__globals__['__metaclass__']
        if meta is not None and meta is not type and type(cls) is not meta:
            body = dict((k, v) for k, v in ns.items() if k not in ('__dict__', '__weakref__', '_R_user'))
            if '__hash__' not in func.__code__.co_names:
                body.pop('__hash__', None)
            cls = r_call(meta, name, bases, body)
            if isinstance(cls, type):
                type.__setattr__(cls, '_R_user', True)
                if '__eq__' in body and cls.__dict__.get('__hash__', 1) is None:
                    type.__setattr__(cls, '__hash__', object.__hash__)
        return cls
    d['__build_class__'] = build_class
    d['super'] = _b.super
    d['__import__'] = no_import
    d['exit'] = no_import
    for k, v in R.items():
        d['_R_' + k] = v
    return d


def unmodelled(n):
    def f(*a, **k):
        raise EngineLimit(n + ' is not modelled')
    return f


def no_import(*a, **k):
    raise EngineLimit('native import')


class NoFile(object):
    """file(): only the data files of the package can be read"""
    root = None

    def __init__(self, path, mode='r', buffering=-1):
        if not isinstance(path, str):
            raise IOError('no files inside the analysis')
        p = os.path.realpath(path)
        if self.root is None or not p.startswith(os.path.realpath(self.root) + '/') or \
                (isinstance(mode, str) and mode.strip('rbU')) or not os.path.isfile(p):
            raise IOError('no files inside the analysis')
        with open(p, 'rb') as f:
            data = f.read().decode('latin-1')
        if mode in ('U', 'rU'):
            data = data.replace('\r\n', '\n').replace('\r', '\n')
        self.name = path
        self.mode = mode
        self.closed = False
        self._data = data
        self._at = 0

    def _open(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')

    def read(self, n=-1):
        self._open()
        end = len(self._data) if n is None or n < 0 else min(len(self._data), self._at + n)
        r = self._data[self._at:end]
        self._at = end
        return r

    def readline(self):
        self._open()
        k = self._data.find('\n', self._at)
        end = len(self._data) if k < 0 else k + 1
        r = self._data[self._at:end]
        self._at = end
        return r

    def readlines(self):
        r = []
        while True:
            line = self.readline()
            if not line:
                return r
            r.append(line)

    xreadlines = readlines

    def __iter__(self):
        return self

    def __next__(self):
        line = self.readline()
        if not line:
            raise StopIteration
        return line

    next = __next__

    def seek(self, n, whence=0):
        self._open()
        self._at = n if whence == 0 else (self._at if whence == 1 else len(self._data)) + n

    def tell(self):
        return self._at

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


PY2_MODULES = {'StringIO', 'cStringIO', 'Queue', 'ConfigParser', 'HTMLParser', 'SocketServer', 'BaseHTTPServer', 'httplib',
               'urlparse', 'cPickle', 'copy_reg', 'htmlentitydefs', 'cookielib', 'sets', 'UserDict', 'UserList',
               'UserString', 'commands', 'md5', 'sha', 'new', 'anydbm', 'java', 'javax'}


def missing_module(name):
    top = name.split('.')[0]
    if top in sys.stdlib_module_names or top in PY2_MODULES:
        raise EngineLimit('library module %s is not modelled' % name)
    raise ImportError('No module named ' + name)


# ------------------------------------------------------------ loader
class World(object):
    """the modules of one analysis: translated sources plus library stand-ins"""

    def __init__(self, sources, shims):
        # sources: dotted name -> (filename, is_package, code)
        self.sources = sources
        self.shims = shims
        self.modules = {}
        self.builtins = make_builtins()
        b = self.builtins
        b['_R_import'] = self.r_import
        b['_R_importfrom'] = self.r_importfrom
        b['_R_importstar'] = self.r_importstar

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        parent, _, last = name.rpartition('.')
        pm = None
        if parent:
            pm = self.load(parent)
            if pm is None:
                return None
            m = self.modules.get(name)
            if m is not None:
                return m
        src = self.sources.get(name)
        if src is None:
            if name in self.shims:
                m = self.shims[name]
                if callable(m) and not isinstance(m, types.ModuleType):
                    m = m(self)
                self.modules[name] = m
                if pm is not None:
                    setattr(pm, last, m)
                return m
            return None
        fn, pkg, code = src
        m = types.ModuleType(name)
        d = m.__dict__
        d['__file__'] = fn
        d['__builtins__'] = self.builtins
        d['_R_pkg'] = pkg
        self.modules[name] = m
        try:
            exec(code, d)
        except BaseException:
            self.modules.pop(name, None)
            raise
        if pm is not None:
            setattr(pm, last, m)
        return m

    def package_of(self, modname):
        m = self.modules.get(modname)
        if m is None:
            return ''
        if m.__dict__.get('_R_pkg'):
            return modname
        return modname.rpartition('.')[0]

    def resolve(self, cur, name):
        """absolute module name for `name` imported in `cur` (implicit relative first)"""
        pkg = self.package_of(cur)
        top = name.split('.')[0]
        if pkg:
            c = pkg + '.' + top
            if c in self.modules or c in self.sources:
                if self.load(c) is not None:
                    return pkg + '.' + name
        return name

    def r_import(self, cur, name, asname, level):
        full = self.resolve(cur, name)
        m = self.load(full)
        if m is None:
            missing_module(name)
        if asname:
            return m
        n = full.count('.') - name.count('.')
        return self.modules['.'.join(full.split('.')[:n + 1])]

    def attr_of(self, m, full, attr):
        if hasattr(m, attr):
            return getattr(m, attr)
        sub = self.load(full + '.' + attr)
        if sub is None:
            raise ImportError('cannot import name ' + attr)
        return sub

    def r_importfrom(self, cur, mod, attr, level):
        if level:
            pkg = self.package_of(cur)
            for i in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            full = pkg + ('.' + mod if mod else '')
        else:
            full = self.resolve(cur, mod)
        m = self.load(full)
        if m is None:
            missing_module(mod)
        return self.attr_of(m, full, attr)

    def r_importstar(self, cur, mod, level, g):
        full = self.resolve(cur, mod)
        m = self.load(full)
        if m is None:
            raise ImportError('No module named ' + mod)
        names = getattr(m, '__all__', None)
        if names is None:
            names = [n for n in m.__dict__ if not n.startswith('_')]
        for n in names:
            g[n] = self.attr_of(m, full, n)
