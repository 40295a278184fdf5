"""Python 2 syntax tree (as dumped by Jython) -> Python 3 code whose
operations go through the runtime hooks (_R_*), so that symbolic values can
flow through the real code unchanged in structure."""
import ast


class Unsupported(Exception):
    pass


BINOPS = {'Add': ast.Add, 'Sub': ast.Sub, 'Mult': ast.Mult, 'BitAnd': ast.BitAnd,
          'BitOr': ast.BitOr, 'BitXor': ast.BitXor, 'LShift': ast.LShift,
          'RShift': ast.RShift, 'FloorDiv': ast.FloorDiv}
CMPS = {'Eq': 'eq', 'NotEq': 'ne', 'Lt': 'lt', 'LtE': 'le', 'Gt': 'gt', 'GtE': 'ge',
        'In': 'in', 'NotIn': 'notin'}


def lit(n):
    k = n['_']
    if k == '$s' or k == '$u':
        return ''.join(map(chr, n['v']))
    if k == '$i':
        return int(n['v'])
    if k == '$f':
        return float(n['v'])
    if k == '$c':
        return complex(n['v'])
    raise Unsupported('literal ' + k)


class Translator(object):
    def __init__(self, filename):
        self.filename = filename
        self.tmp = 0
        self.scope = ['module']     # module / class / function
        self.gen = [False]
        self.line = 1
        self.names = []
        self.short = filename.replace('/repo/', '').replace('/verif/', 'verif/')

    # ---- helpers
    def name(self, s, ctx=None):
        if s in ('nonlocal', 'async', 'await'):
            s = s + '_'
        return ast.Name(id=s, ctx=ctx or ast.Load())

    def rt(self, fn, *args):
        return ast.Call(func=self.name('_R_' + fn), args=list(args), keywords=[])

    def fresh(self):
        self.tmp += 1
        return '_T%d' % self.tmp

    def const(self, v):
        return ast.Constant(value=v)

    def s(self, x):
        """identifier string"""
        if x is None:
            return None
        if isinstance(x, dict):
            return lit(x)
        return x

    def loc(self, node, n):
        ln = n.get('@')
        if ln:
            self.line = ln
        return node

    # ---- module
    def module(self, tree):
        body = self.stmts(tree['body'])
        m = ast.Module(body=body, type_ignores=[])
        self.fixloc(m)
        return m

    def fixloc(self, node):
        # propagate recorded line numbers
        def rec(nd, ln):
            ln = getattr(nd, '_ln', ln)
            if isinstance(nd, (ast.expr, ast.stmt, ast.excepthandler, ast.arg,
                               ast.keyword, ast.alias)):
                nd.lineno = nd.end_lineno = ln
                nd.col_offset = nd.end_col_offset = 0
            for c in ast.iter_child_nodes(nd):
                rec(c, ln)
        rec(node, 1)

    def stmts(self, xs):
        out = []
        for x in xs:
            r = self.stmt(x)
            for y in (r if isinstance(r, list) else [r]):
                if y is not None:
                    y._ln = x.get('@', 1)
                    out.append(y)
        if not out:
            out.append(ast.Pass())
        return out

    def block(self, xs):
        return self.stmts(xs) if xs else []

    def stmt(self, n):
        m = getattr(self, 'st_' + n['_'], None)
        if m is None:
            raise Unsupported('statement ' + n['_'])
        return m(n)

    def expr(self, n):
        m = getattr(self, 'ex_' + n['_'], None)
        if m is None:
            raise Unsupported('expression ' + n['_'])
        r = m(n)
        if '@' in n:
            r._ln = n['@']
        return r

    # ---- statements
    def st_Expr(self, n):
        return ast.Expr(value=self.expr(n['value']))

    def st_Pass(self, n):
        return ast.Pass()

    def st_Break(self, n):
        return ast.Break()

    def st_Continue(self, n):
        return ast.Continue()

    def st_Global(self, n):
        return [ast.Global(names=[self.s(x) for x in n['names']]),
                ast.Expr(value=self.rt('mutating', ast.Call(func=self.name('globals'), args=[], keywords=[])))]

    def st_Return(self, n):
        v = self.expr(n['value']) if n['value'] else None
        return ast.Return(value=v)

    def st_Print(self, n):
        vals = [self.expr(v) for v in n['values']]
        d = self.expr(n['dest']) if n.get('dest') else self.const(None)
        return ast.Expr(value=self.rt('print', d, ast.Tuple(elts=vals, ctx=ast.Load())))

    def st_Assert(self, n):
        # assert c, m  ->  if not truth(c): raise AssertionError(m)
        exc = self.name('AssertionError')
        call = ast.Call(func=exc, args=[self.expr(n['msg'])] if n.get('msg') else [], keywords=[])
        return ast.If(test=ast.UnaryOp(op=ast.Not(), operand=self.truth(n['test'])),
                      body=[ast.Raise(exc=call, cause=None)], orelse=[])

    def st_Raise(self, n):
        t, v, tb = n.get('type'), n.get('inst'), n.get('tback')
        if t is None:
            return ast.Expr(value=self.rt('reraise'))
        e = self.expr(t)
        if v is not None:
            e = self.rt('mkexc', e, self.expr(v))
        else:
            e = self.rt('mkexc', e)
        return ast.Raise(exc=e, cause=None)

    def target(self, n):
        """plain assignment target (names/tuples/attributes native; subscripts
        handled by assign)"""
        k = n['_']
        if k == 'Name':
            return self.name(self.s(n['id']), ast.Store())
        if k in ('Tuple', 'List'):
            return ast.Tuple(elts=[self.target(e) for e in n['elts']], ctx=ast.Store())
        raise Unsupported('target ' + k)

    def simple_target(self, n):
        k = n['_']
        if k == 'Name':
            return True
        if k in ('Tuple', 'List'):
            return all(self.simple_target(e) for e in n['elts'])
        return False

    def store(self, n, value):
        """list of statements storing expression node `value` in target n"""
        k = n['_']
        if k == 'Name':
            return [ast.Assign(targets=[self.name(self.s(n['id']), ast.Store())], value=value)]
        if k in ('Tuple', 'List'):
            if self.simple_target(n):
                return [ast.Assign(targets=[self.target(n)],
                                   value=self.rt('unpack', value, self.const(len(n['elts'])))
                                   if all(e['_'] == 'Name' for e in n['elts']) else value)]
            t = self.fresh()
            out = [ast.Assign(targets=[self.name(t, ast.Store())],
                              value=self.rt('unpack', value, self.const(len(n['elts']))))]
            for i, e in enumerate(n['elts']):
                out += self.store(e, ast.Subscript(value=self.name(t), slice=self.const(i), ctx=ast.Load()))
            return out
        if k == 'Attribute':
            a = self.s(n['attr'])
            if a.startswith('__') and not a.endswith('__'):
                return [ast.Assign(targets=[ast.Attribute(value=self.expr(n['value']), attr=a, ctx=ast.Store())],
                                   value=value)]
            # python evaluates the value before the target object
            t = self.fresh()
            return [ast.Assign(targets=[self.name(t, ast.Store())], value=value),
                    ast.Expr(value=self.rt('setattr', self.expr(n['value']), self.const(a), self.name(t)))]
        if k == 'Subscript':
            t = self.fresh()
            return [ast.Assign(targets=[self.name(t, ast.Store())], value=value),
                    ast.Expr(value=self.rt('setitem', self.expr(n['value']), self.slice(n['slice']), self.name(t)))]
        raise Unsupported('store ' + k)

    def st_Assign(self, n):
        v = self.expr(n['value'])
        ts = n['targets']
        if len(ts) == 1:
            return self.store(ts[0], v)
        t = self.fresh()
        out = [ast.Assign(targets=[self.name(t, ast.Store())], value=v)]
        for x in ts:
            out += self.store(x, self.name(t))
        return out

    def st_AugAssign(self, n):
        t = n['target']
        op = n['op']['_'] if isinstance(n['op'], dict) else n['op']
        k = t['_']
        val = self.expr(n['value'])
        if k == 'Name':
            nm = self.s(t['id'])
            return [ast.Assign(targets=[self.name(nm, ast.Store())],
                               value=self.rt('iop', self.const(op), self.name(nm), val))]
        o = self.fresh()
        if k == 'Attribute':
            a = self.s(t['attr'])
            return [ast.Assign(targets=[self.name(o, ast.Store())], value=self.expr(t['value'])),
                    ast.Expr(value=self.rt('setattr', self.name(o), self.const(a),
                                           self.rt('iop', self.const(op),
                                                   ast.Attribute(value=self.name(o), attr=a, ctx=ast.Load()), val)))]
        if k == 'Subscript':
            i = self.fresh()
            return [ast.Assign(targets=[self.name(o, ast.Store())], value=self.expr(t['value'])),
                    ast.Assign(targets=[self.name(i, ast.Store())], value=self.slice(t['slice'])),
                    ast.Expr(value=self.rt('augitem', self.const(op), self.name(o), self.name(i),
                                           ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[],
                                                                         kw_defaults=[], defaults=[]), body=val)
                                           if self.scope[-1] != 'class' else val))]
        raise Unsupported('augassign ' + k)

    def st_Delete(self, n):
        out = []
        for t in n['targets']:
            k = t['_']
            if k == 'Name':
                out.append(ast.Delete(targets=[self.name(self.s(t['id']), ast.Del())]))
            elif k == 'Attribute':
                out.append(ast.Expr(value=self.rt('delattr', self.expr(t['value']), self.const(self.s(t['attr'])))))
            elif k == 'Subscript':
                out.append(ast.Expr(value=self.rt('delitem', self.expr(t['value']), self.slice(t['slice']))))
            else:
                raise Unsupported('del ' + k)
        return out

    def st_If(self, n):
        return ast.If(test=self.truth(n['test']), body=self.stmts(n['body']),
                      orelse=self.block(n.get('orelse')))

    def tick(self):
        return ast.Expr(value=self.rt('tick'))

    def st_While(self, n):
        return ast.While(test=self.truth(n['test']),
                         body=[self.tick()] + self.stmts(n['body']),
                         orelse=self.block(n.get('orelse')))

    def st_For(self, n):
        it = self.rt('iter', self.expr(n['iter']))
        if self.simple_target(n['target']):
            return ast.For(target=self.target(n['target']), iter=it,
                           body=[self.tick()] + self.stmts(n['body']), orelse=self.block(n.get('orelse')))
        t = self.fresh()
        return ast.For(target=self.name(t, ast.Store()), iter=it,
                       body=[self.tick()] + self.store(n['target'], self.name(t)) + self.stmts(n['body']),
                       orelse=self.block(n.get('orelse')))

    def handler(self, h):
        ln = h.get('@', 1)
        body = self.stmts(h['body'])
        if h.get('type') is None:
            r = ast.ExceptHandler(type=self.name('_R_Exception'), name=None, body=body)
        else:
            nm = h.get('name')
            name = None
            if nm is not None:
                if isinstance(nm, dict) and nm['_'] == 'Name':
                    name = self.s(nm['id'])
                elif isinstance(nm, dict) and nm['_'] in ('$s', '$u'):
                    name = lit(nm)
                else:
                    raise Unsupported('except target')
            if name is not None:
                # python 2 keeps the name bound after the handler
                t = self.fresh()
                body = [ast.Assign(targets=[self.name(name, ast.Store())], value=self.name(t))] + body
                name = t
            r = ast.ExceptHandler(type=self.rt('exctype', self.expr(h['type'])), name=name, body=body)
        r._ln = ln
        return r

    def st_TryExcept(self, n):
        return ast.Try(body=self.stmts(n['body']), handlers=[self.handler(h) for h in n['handlers']],
                       orelse=self.block(n.get('orelse')), finalbody=[])

    def st_TryFinally(self, n):
        return ast.Try(body=self.stmts(n['body']), handlers=[], orelse=[],
                       finalbody=self.stmts(n['finalbody']))

    def st_With(self, n):
        items = [ast.withitem(context_expr=self.expr(n['context_expr']),
                              optional_vars=self.target(n['optional_vars']) if n.get('optional_vars') else None)] \
            if 'context_expr' in n else None
        if items is None:
            raise Unsupported('with')
        return ast.With(items=items, body=self.stmts(n['body']))

    def st_Import(self, n):
        out = []
        for a in n['names']:
            nm = self.s(a['name'])
            asn = self.s(a.get('asname'))
            top = asn or nm.split('.')[0]
            out.append(ast.Assign(targets=[self.name(top, ast.Store())],
                                  value=self.rt('import', self.name('__name__'), self.const(nm),
                                                self.const(bool(asn)), self.const(0))))
        return out

    def st_ImportFrom(self, n):
        mod = self.s(n.get('module')) or ''
        level = n.get('level') or 0
        if isinstance(level, dict):
            level = lit(level)
        if mod == '__future__':
            return []
        names = [(self.s(a['name']), self.s(a.get('asname'))) for a in n['names']]
        if names == [('*', None)]:
            return [ast.Expr(value=self.rt('importstar', self.name('__name__'), self.const(mod), self.const(level),
                                           ast.Call(func=self.name('globals'), args=[], keywords=[])))]
        out = []
        for nm, asn in names:
            out.append(ast.Assign(targets=[self.name(asn or nm, ast.Store())],
                                  value=self.rt('importfrom', self.name('__name__'), self.const(mod),
                                                self.const(nm), self.const(level))))
        return out

    def args(self, a):
        """arguments -> (ast.arguments, prologue statements)"""
        pro = []
        xs = []
        for p in a['args']:
            if p['_'] == 'Name':
                xs.append(ast.arg(arg=self.s(p['id'])))
            else:
                t = self.fresh()
                xs.append(ast.arg(arg=t))
                pro += self.store(p, self.name(t))
        va = a.get('vararg')
        kw = a.get('kwarg')
        return ast.arguments(posonlyargs=[], args=xs,
                             vararg=ast.arg(arg=self.s(va)) if va else None,
                             kwonlyargs=[], kw_defaults=[],
                             kwarg=ast.arg(arg=self.s(kw)) if kw else None,
                             defaults=[self.expr(d) for d in (a.get('defaults') or [])]), pro

    def st_FunctionDef(self, n):
        name = self.s(n['name'])
        if name == '__nonzero__':
            name = '__bool__'
        decos = [self.expr(d) for d in (n.get('decorator_list') or [])]
        args, pro = self.args(n['args'])
        self.scope.append('function')
        enter = ast.Expr(value=self.rt('fn', self.const('%s:%s' % (self.short, '.'.join(self.names + [name])))))
        self.names.append(name)
        depth = len(self.scope), len(self.names)
        try:
            body = [enter] + pro + self.stmts(n['body'])
        except Unsupported as e:
            # only a run that reaches this function is affected
            del self.scope[depth[0]:]
            del self.names[depth[1]:]
            body = [ast.Raise(exc=self.rt('limit', self.const('cannot translate %s: %s' % (
                '.'.join([self.short] + self.names), e))), cause=None)]
        self.names.pop()
        self.scope.pop()
        return ast.FunctionDef(name=name, args=args, body=body, decorator_list=decos,
                               returns=None, type_params=[])

    def st_ClassDef(self, n):
        bases = [self.expr(b) for b in n['bases']]
        self.scope.append('class')
        self.names.append(self.s(n['name']))
        body = self.stmts(n['body'])
        self.names.pop()
        self.scope.pop()
        return ast.ClassDef(name=self.s(n['name']),
                            bases=[ast.Starred(value=self.rt('bases', *bases), ctx=ast.Load())],
                            keywords=[], body=body,
                            decorator_list=[self.expr(d) for d in (n.get('decorator_list') or [])],
                            type_params=[])

    def st_Exec(self, n):
        raise Unsupported('exec')

    # ---- expressions
    def truth(self, n):
        k = n['_']
        if k == 'UnaryOp' and self.opname(n) == 'Not':
            return ast.UnaryOp(op=ast.Not(), operand=self.truth(n['operand']))
        return self.rt('truth', self.expr(n))

    def opname(self, n):
        o = n['op']
        return o['_'] if isinstance(o, dict) else o

    def ex_Name(self, n):
        i = self.s(n['id'])
        if i in ('True', 'False', 'None'):
            return self.const({'True': True, 'False': False, 'None': None}[i])
        return self.name(i)

    def ex_Num(self, n):
        return self.const(lit(n['n']))

    def ex_Str(self, n):
        v = n['s']
        if isinstance(v, dict) and v['_'] == '$u' and any(c > 127 for c in v['v']):
            # byte string with an encoded source: keep the utf-8 bytes
            return self.const(''.join(map(chr, v['v'])).encode('utf8').decode('latin1'))
        return self.const(lit(v))

    def ex_Tuple(self, n):
        return ast.Tuple(elts=[self.expr(e) for e in n['elts']], ctx=ast.Load())

    def ex_List(self, n):
        return self.rt('fresh', ast.List(elts=[self.expr(e) for e in n['elts']], ctx=ast.Load()))

    def ex_Set(self, n):
        return self.rt('set_display', ast.List(elts=[self.expr(e) for e in n['elts']], ctx=ast.Load()))

    def ex_Dict(self, n):
        keys = [self.expr(e) for e in n['keys']]
        values = [self.expr(e) for e in n['values']]
        if all(isinstance(k, ast.Constant) for k in keys):
            return self.rt('fresh', ast.Dict(keys=keys, values=values))
        pairs = [ast.Tuple(elts=[k, v], ctx=ast.Load()) for k, v in zip(keys, values)]
        return self.rt('dict_display', ast.Tuple(elts=pairs, ctx=ast.Load()))

    def ex_Repr(self, n):
        return self.rt('repr', self.expr(n['value']))

    def ex_Attribute(self, n):
        a = self.s(n['attr'])
        v = self.expr(n['value'])
        if a in ('func_name', 'func_code', 'im_self', 'im_func', 'im_class', 'func_globals'):
            a = {'func_name': '__name__', 'func_code': '__code__', 'im_self': '__self__',
                 'im_func': '__func__', 'im_class': '__class__', 'func_globals': '__globals__'}[a]
        if a == 'next':
            return self.rt('getattr', v, ast.Constant(value='next'))
        return ast.Attribute(value=v, attr=a, ctx=ast.Load())

    def slice(self, s):
        k = s['_']
        if k == 'Index':
            return self.expr(s['value'])
        if k == 'Slice':
            none = self.const(None)
            return ast.Call(func=self.name('_R_slice'), args=[
                self.expr(s['lower']) if s.get('lower') else none,
                self.expr(s['upper']) if s.get('upper') else none,
                self.expr(s['step']) if s.get('step') else none], keywords=[])
        raise Unsupported('slice ' + k)

    def ex_Subscript(self, n):
        return self.rt('getitem', self.expr(n['value']), self.slice(n['slice']))

    def ex_BinOp(self, n):
        op = self.opname(n)
        l, r = self.expr(n['left']), self.expr(n['right'])
        if op == 'Div':
            return self.rt('div', l, r)
        if op == 'Mod':
            return self.rt('mod', l, r)
        if op == 'Pow':
            return self.rt('pow', l, r)
        if op in ('Add', 'Mult'):
            return self.rt(op.lower(), l, r)
        if op == 'FloorDiv':
            return self.rt('floordiv', l, r)
        return ast.BinOp(left=l, op=BINOPS[op](), right=r)

    def ex_UnaryOp(self, n):
        op = self.opname(n)
        v = n['operand']
        if op == 'Not':
            return self.rt('not', self.expr(v))
        return ast.UnaryOp(op={'USub': ast.USub, 'UAdd': ast.UAdd, 'Invert': ast.Invert}[op](),
                           operand=self.expr(v))

    SIMPLE = ('Name', 'Num', 'Str', 'Tuple', 'List', 'Attribute', 'Compare', 'BinOp', 'UnaryOp',
              'BoolOp', 'Subscript', 'Index', 'IfExp', 'Call', 'keyword', 'Slice', 'Dict')

    def simple(self, n):
        """may be evaluated speculatively (no yield, no lambda capture issue)"""
        if isinstance(n, list):
            return all(self.simple(x) for x in n)
        if not isinstance(n, dict) or n['_'].startswith('$'):
            return True
        k = n['_']
        if k in ('Load', 'Eq', 'NotEq', 'Lt', 'LtE', 'Gt', 'GtE', 'In', 'NotIn', 'Is', 'IsNot',
                 'And', 'Or', 'Not', 'Add', 'Sub', 'Mult', 'Div', 'Mod', 'USub', 'UAdd', 'Invert',
                 'BitAnd', 'BitOr', 'BitXor', 'LShift', 'RShift', 'FloorDiv', 'Pow', 'Ellipsis'):
            return True
        if k not in self.SIMPLE:
            return False
        return all(self.simple(v) for kk, v in n.items() if kk not in ('_', '@'))

    def lam(self, e):
        return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[],
                                             defaults=[]), body=e)

    def ex_BoolOp(self, n):
        op = 'and' if self.opname(n) == 'And' else 'or'
        vals = n['values']
        if self.scope[-1] == 'function' and self.simple(vals):
            v0 = vals[0]
            if op == 'or' and v0['_'] == 'BoolOp' and self.opname(v0) == 'And' and len(v0['values']) == 2:
                # the old conditional expression: a and b or c
                c = dict(n, values=vals[1:]) if len(vals) > 2 else vals[1]
                return self.rt('andor', self.expr(v0['values'][0]), self.lam(self.expr(v0['values'][1])),
                               self.lam(self.expr(c)))
            # right-nested with thunks: and(a, lambda: and(b, lambda: c))
            e = self.expr(vals[-1])
            for v in reversed(vals[:-1]):
                e = self.rt(op, self.expr(v), self.lam(e))
            return e
        e = self.expr(vals[-1])
        for v in reversed(vals[:-1]):
            t = self.fresh()
            test = self.rt('truth', ast.NamedExpr(target=self.name(t, ast.Store()), value=self.expr(v)))
            if op == 'and':
                e = ast.IfExp(test=test, body=e, orelse=self.name(t))
            else:
                e = ast.IfExp(test=test, body=self.name(t), orelse=e)
        return e

    def ex_IfExp(self, n):
        if self.scope[-1] == 'function' and self.simple(n['body']) and self.simple(n['orelse']):
            return self.rt('ifexp', self.expr(n['test']), self.lam(self.expr(n['body'])),
                           self.lam(self.expr(n['orelse'])))
        return ast.IfExp(test=self.truth(n['test']), body=self.expr(n['body']), orelse=self.expr(n['orelse']))

    def cmp1(self, op, l, r):
        if op == 'Is':
            return ast.Compare(left=l, ops=[ast.Is()], comparators=[r])
        if op == 'IsNot':
            return ast.Compare(left=l, ops=[ast.IsNot()], comparators=[r])
        return self.rt(CMPS[op], l, r)

    def ex_Compare(self, n):
        ops = [o['_'] if isinstance(o, dict) else o for o in n['ops']]
        if len(ops) == 1:
            return self.cmp1(ops[0], self.expr(n['left']), self.expr(n['comparators'][0]))
        # chain: simple operands are evaluated again, others once, in order
        xs = [n['left']] + n['comparators']
        if any(x['_'] not in ('Name', 'Num', 'Str') for x in xs[1:-1]):
            rest = []
            for op, x in zip(ops, xs[1:]):
                l, r = self.fresh(), self.fresh()
                f = self.lam(self.cmp1(op, self.name(l), self.name(r)))
                f.args.args = [ast.arg(arg=l), ast.arg(arg=r)]
                rest += [f, self.lam(self.expr(x))]
            return self.rt('chain', self.const(self.simple(xs[2:])), self.expr(xs[0]), *rest)
        e = None
        for i in reversed(range(len(ops))):
            c = self.cmp1(ops[i], self.expr(xs[i]), self.expr(xs[i + 1]))
            e = c if e is None else self.rt('and', c, self.lam(e))
        return e

    def ex_Call(self, n):
        f = n['func']
        args = [self.expr(a) for a in n['args']]
        if n.get('starargs'):
            args.append(ast.Starred(value=self.expr(n['starargs']), ctx=ast.Load()))
        kws = [ast.keyword(arg=self.s(k['arg']), value=self.expr(k['value'])) for k in (n.get('keywords') or [])]
        if n.get('kwargs'):
            kws.append(ast.keyword(arg=None, value=self.expr(n['kwargs'])))
        if f['_'] == 'Attribute':
            a = self.s(f['attr'])
            if not (a.startswith('__') and not a.endswith('__')):
                return ast.Call(func=self.name('_R_mcall'),
                                args=[self.expr(f['value']), self.const(a)] + args, keywords=kws)
        if f['_'] == 'Name':
            nm = self.s(f['id'])
            if nm == 'super':
                return ast.Call(func=self.name('_R_super'), args=args, keywords=kws)
            if nm in ('globals', 'locals', 'vars', 'dir') and not args:
                return ast.Call(func=self.name(nm), args=[], keywords=[])
        return ast.Call(func=self.name('_R_call'), args=[self.expr(f)] + args, keywords=kws)

    def ex_Lambda(self, n):
        args, pro = self.args(n['args'])
        self.scope.append('function')
        b = self.expr(n['body'])
        if pro:
            # lambda (a, b), c: e   ->   lambda T, c: (lambda a, b: e)(*T)
            for x, p in reversed(list(zip(args.args, n['args']['args']))):
                if p['_'] != 'Name':
                    b = self.untuple(p, self.name(x.arg), b)
        self.scope.pop()
        return ast.Lambda(args=args, body=b)

    def untuple(self, p, value, body):
        xs = []
        for e in reversed(p['elts']):
            if e['_'] == 'Name':
                xs.append(ast.arg(arg=self.s(e['id'])))
            else:
                t = self.fresh()
                xs.append(ast.arg(arg=t))
                body = self.untuple(e, self.name(t), body)
        f = self.lam(body)
        f.args.args = xs[::-1]
        return ast.Call(func=f, args=[ast.Starred(value=self.rt('unpack', value, self.const(len(xs))),
                                                  ctx=ast.Load())], keywords=[])

    def comp_gens(self, gens):
        out = []
        for g in gens:
            if not self.simple_target(g['target']):
                raise Unsupported('comprehension target')
            out.append(ast.comprehension(target=self.target(g['target']), iter=self.rt('iter', self.expr(g['iter'])),
                                         ifs=[self.truth(i) for i in g['ifs']], is_async=0))
        return out

    def in_comp(self, build):
        # a comprehension body is a function scope in Python 3; the bool-op
        # thunks are fine there, walrus is not used inside
        self.scope.append('function')
        r = build()
        self.scope.pop()
        return r

    def ex_ListComp(self, n):
        return self.in_comp(lambda: self.rt('fresh', ast.ListComp(elt=self.expr(n['elt']),
                                                                  generators=self.comp_gens(n['generators']))))

    def ex_GeneratorExp(self, n):
        return self.in_comp(lambda: ast.GeneratorExp(elt=self.expr(n['elt']),
                                                     generators=self.comp_gens(n['generators'])))

    def ex_SetComp(self, n):
        return self.in_comp(lambda: self.rt('set_display', ast.ListComp(
            elt=self.expr(n['elt']), generators=self.comp_gens(n['generators']))))

    def ex_DictComp(self, n):
        return self.in_comp(lambda: self.rt('dict_display', ast.ListComp(
            elt=ast.Tuple(elts=[self.expr(n['key']), self.expr(n['value'])], ctx=ast.Load()),
            generators=self.comp_gens(n['generators']))))

    def ex_Yield(self, n):
        return ast.Yield(value=self.expr(n['value']) if n.get('value') else None)


def translate(tree, filename):
    t = Translator(filename)
    m = t.module(tree)
    return compile(m, filename, 'exec', dont_inherit=True)
