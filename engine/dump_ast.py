# -*- coding: us-ascii -*-
# Runs under Jython 2.7: dumps the Python 2 syntax tree of each file named on
# stdin as JSON, one line per file.  The interpreter that runs the real code
# also parses it, so the translation starts from the authoritative tree.
import sys, ast, json


def conv(n):
    if isinstance(n, ast.AST):
        d = {'_': n.__class__.__name__}
        for f in (n._fields or ()):
            d[f] = conv(getattr(n, f, None))
        ln = getattr(n, 'lineno', None)
        if ln is not None:
            d['@'] = ln
        return d
    if isinstance(n, (list, tuple)):
        return [conv(x) for x in n]
    if n is None or n is True or n is False:
        return n
    if isinstance(n, unicode):
        return {'_': '$u', 'v': [ord(c) for c in n]}
    if isinstance(n, str):
        return {'_': '$s', 'v': [ord(c) for c in n]}
    if isinstance(n, (int, long)):
        return {'_': '$i', 'v': str(n)}
    if isinstance(n, float):
        return {'_': '$f', 'v': repr(n)}
    if isinstance(n, complex):
        return {'_': '$c', 'v': repr(n)}
    # jython wraps lists in its own sequence type
    try:
        return [conv(x) for x in n]
    except TypeError:
        raise TypeError('cannot dump %r' % (n,))


def dictcomps(src):
    # Jython's DictComp nodes cannot be read: {k: v for ...} is handed on as
    # the equal dict((k, v) for ...)
    import tokenize, StringIO
    starts = [0]
    for l in src.splitlines(True):
        starts.append(starts[-1] + len(l))
    edits = []
    stack = []
    for typ, text, (row, col), end, _ in tokenize.generate_tokens(StringIO.StringIO(src).readline):
        at = starts[row - 1] + col
        if typ == tokenize.OP and text in '([{':
            stack.append([text, at, None, None])
        elif typ == tokenize.OP and text in ')]}' and stack:
            t = stack.pop()
            if t[0] == '{' and t[2] is not None and t[3] is not None and t[2] < t[3]:
                edits.append((t[1], 1, ' dict(('))
                edits.append((t[2], 1, ','))
                edits.append((t[3], 0, ') '))
                edits.append((at, 1, ')'))
        elif stack and text == ':' and stack[-1][2] is None:
            stack[-1][2] = at
        elif stack and text == 'for' and stack[-1][3] is None:
            stack[-1][3] = at
    edits.sort()
    for at, n, new in reversed(edits):
        src = src[:at] + new + src[at + n:]
    return src


for line in sys.stdin.readlines():
    fn = line.strip()
    if not fn:
        continue
    try:
        src = open(fn, 'rb').read()
        tree = ast.parse(src, fn)
        try:
            tree = conv(tree)
        except TypeError:
            tree = conv(ast.parse(dictcomps(src), fn))
        out = {'file': fn, 'tree': tree}
    except Exception as e:
        out = {'file': fn, 'error': '%s: %s' % (e.__class__.__name__, e)}
    sys.stdout.write(json.dumps(out))
    sys.stdout.write('\n')
