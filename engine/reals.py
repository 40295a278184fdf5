"""Square roots and powers of symbolic reals: uninterpreted values constrained
by exact axioms instantiated for the terms that occur on the path.  Floating
point rounding is outside the model (stated as an assumption)."""
import z3
from . import sym
from .sym import SymReal, to_real, EngineLimit


def add(ex, t):
    """an axiom instance: true of the real functions on every path"""
    ex.base(t)


def table(ex, name):
    """terms the function was applied to so far (on any path) and their values"""
    t = getattr(ex, '_reals', None)
    if t is None:
        t = ex._reals = {}
    return t.setdefault(name, [])


def sqrt(x):
    ex = sym.CUR
    x = to_real(x)
    if ex.truth(x < 0):
        raise ValueError('math domain error')
    st = table(ex, 'sqrt')
    xt = z3.simplify(x.t)
    if z3.is_rational_value(xt):
        f = xt.as_fraction()
        import math
        return math.sqrt(f)
    for a, r in st:
        if a.eq(xt):
            return SymReal(r)
    r = z3.Real('sqrt!%d' % len(st))
    cs = [z3.Implies(xt >= 0, z3.And(r >= 0, r * r == xt))]
    for a, q in st:
        cs.append(z3.Implies(z3.And(a >= 0, xt >= 0), z3.And((xt > a) == (r > q), (xt == a) == (r == q))))
    add(ex, z3.And(cs))
    st.append((xt, r))
    return SymReal(r)


def rpow(ex, base, e):
    """base ** e, base a constant above one, e a symbolic real: positive, strictly
    monotone, p(0)=1, p(-x)=1/p(x)"""
    if isinstance(base, (SymReal, sym.SymInt)):
        raise EngineLimit('power with a symbolic base')
    e = to_real(e)
    if base <= 1:
        raise EngineLimit('power with base %r' % base)
    lst = table(ex, float(base))
    et = z3.simplify(e.t)
    if z3.is_rational_value(et):
        return float(base) ** float(et.as_fraction())
    for a, r in lst:
        if a.eq(et):
            return SymReal(r)
    r = z3.Real('pow%s!%d' % (base, len(lst)))
    cs = [r > 0, (et > 0) == (r > 1), (et == 0) == (r == 1)]
    for a, q in lst:
        cs.append((et > a) == (r > q))
        cs.append((et == a) == (r == q))
        cs.append(z3.Implies(et + a == 0, r * q == 1))
    add(ex, z3.And(cs))
    lst.append((et, r))
    return SymReal(r)
