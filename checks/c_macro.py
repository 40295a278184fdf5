# C33: the position and analysis macros show what the data base holds.
from bglib.doc import bgwiki, doctree, macro

# figures and how three decimals with a sign, or one decimal, show them
SIGNED = ((0.236, '+0.236'), (-0.5, '-0.500'), (12.3456, '+12.346'), (0.0, '+0.000'), (-1.25, '-1.250'), (0.0421, '+0.042'))
PERCENT = ((0.519, '0.5'), (43.81, '43.8'), (100.0, '100.0'), (7.26, '7.3'), (0.02, '0.0'), (61.44, '61.4'))
NAMES = ('Win', 'WinG', 'WinBg', 'Lose', 'LoseG', 'LoseBg')
ACTIONS = ('No double', 'Double, take', 'Double, pass', 'Too good to double')
DIFFS = ((None, None), (0.0, None), (0.764, '+0.764'), (-0.332, '-0.332'))
MOVES = ('21/15(2) 13/7(2)', '12/10', 'bar/20 6/5*')


class Store(object):
    """an analysis data base that remembers what it was asked"""
    def __init__(self, cube, rows):
        self.asked = []
        self.cube = cube
        self.rows = rows

    def get_analysis(self, pid, mid):
        self.asked.append((pid, mid))
        return self.cube, self.rows


def shown(c, t):
    """the elements of some HTML without meaningless blanks: every text with the way to it"""
    out, stack = [], []
    while t:
        i = t.find('<')
        if i < 0:
            i = len(t)
        word = t[:i].strip()
        if word:
            out.append(('text', word))
        t = t[i:]
        if not t:
            break
        j = t.find('>')
        tag = t[1:j].strip()
        t = t[j + 1:]
        if tag[0] == '/':
            c.check(len(stack) > 0 and stack[-1] == tag[1:], 'closed in order')
            stack.pop(-1)
            out.append(('end', tag[1:]))
        elif tag[-1] == '/':
            name, attrs = opened(tag[:-1])
            out.append(('single', name, attrs))
        else:
            name, attrs = opened(tag)
            stack.append(name)
            out.append(('start', name, attrs))
    c.check(stack == [], 'everything closed')
    return out


def opened(tag):
    i = tag.find(' ')
    if i < 0:
        return tag, ()
    name, rest = tag[:i], tag[i + 1:].strip()
    attrs = []
    while rest:
        i = rest.find('="')
        j = rest.find('"', i + 2)
        attrs.append((rest[:i], rest[i + 2:j]))
        rest = rest[j + 1:].strip()
    return name, tuple(sorted(attrs))


def tables(c, items):
    """[(class, [(row class, [cell])])] with cell = (kind, rows, columns, text)"""
    out = []
    at = None
    for k in items:
        if k[0] == 'start' and k[1] == 'table':
            out.append((dict(k[2]).get('class'), []))
        elif k[0] == 'start' and k[1] == 'tr':
            out[-1][1].append((dict(k[2]).get('class'), []))
        elif k[0] == 'start' and k[1] != 'div':
            c.check(k[1] in ('th', 'td'), 'cells only')
            a = dict(k[2])
            at = [k[1], int(a.get('rowspan', '1')), int(a.get('colspan', '1')), '']
            out[-1][1][-1][1].append(at)
        elif k[0] == 'text':
            at[3] = k[1]
    return out


def rectangular(c, rows):
    """every row of the table fills the same columns"""
    width = None
    left = {}
    for cls, cells in rows:
        n = 0
        for k in sorted(left):
            if left[k] > 0:
                n += 1
                left[k] = left[k] - 1
        for kind, down, across, text in cells:
            for q in range(across):
                if down > 1:
                    left[len(left)] = down - 1
                n += 1
        if width is None:
            width = n
        c.check(n == width, 'no row longer than the others')
    c.check(len([k for k in left if left[k] > 0]) == 0, 'no cell beyond the last row')


def figures(c, k):
    """six figures, no two alike, in any of the orders of the list"""
    start = c.choice('figures', (0, 3)) + k
    return [PERCENT[(start + i) % 6] for i in range(6)]


def run(c, store, text):
    """the macro by way of the wiki or on its own"""
    macro.setup(store)
    if c.param('by') == 'wiki':
        f = bgwiki.Formatter(store)
        f.parse('[[Analysis(%s)]]' % text)
        return f.make_html()
    ed = doctree.Editor()
    root = doctree.BgWikiElementRoot()
    ed.start(root)
    macro.dispatch(ed, 'Analysis', text)
    c.check(ed.current is root, 'the writer stands where it stood')
    ed.done()
    w = doctree.HtmlWriter()
    ed.accept(w)
    return w.html()


PID, MID = 'cNcxAxCY54YBBg', 'cAn7ADAAIAAA'


def row_class(n, actual):
    return 'actualrow' if actual else ('evenrow', 'oddrow')[n % 2]


def c33_cube(c):
    n = c.param('rows')
    ply = c.int('ply', 0, 9)
    fig = figures(c, 0)
    e = c.choice('cubeless', (0, 1, 2))
    rows = [dict(name='CubelessEquity', ply=ply, cubeless=SIGNED[e][0], money=SIGNED[e + 3][0])]
    for i in range(6):
        rows[0][NAMES[i]] = fig[i][0]
    want = []
    for k in range(n):
        a = c.choice('action%d' % k, (0, 1, 2, 3) if k == 0 else (k % 4, 3 - k % 2 * 3))
        eq = SIGNED[(e + 2 * k + 1) % 6]
        d = c.choice('diff%d' % k, DIFFS if k == 0 else DIFFS[k % 2::2])
        actual = c.choice('actual%d' % k, (True, False))
        rows.append(dict(nth=k + 1, action=a, name=ACTIONS[a], equity=eq[0], diff=d[0], actual=actual))
        want.append((row_class(k + 1, actual), [['th', 1, 1, str(k + 1)], ['td', 1, 1, ACTIONS[a]], ['td', 1, 1, eq[1]],
                                                ['td', 1, 1, d[1] or '']]))
    store = Store(True, rows)
    out = run(c, store, PID + ':' + MID)
    c.check(store.asked == [(PID, MID)], 'the position asked about')
    got = tables(c, shown(c, out))
    c.check(len(got) == 2 and got[0][0] == 'cubeless' and got[1][0] == 'cubeaction', 'both tables')
    rectangular(c, got[0][1])
    first = got[0][1]
    c.check([x[0] for x in first] == ['headerrow', 'headerrow', 'oddrow', 'oddrow'], 'head and rows')
    c.check([x[3] for x in first[1][1]] == list(NAMES), 'the figures are named')
    c.check(first[2][1] == [['td', 2, 1, str(ply)], ['td', 1, 6, '%s (Money %s)' % (SIGNED[e][1], SIGNED[e + 3][1])]],
            'depth and equity without the cube')
    c.check(first[3][1] == [['td', 1, 1, fig[i][1]] for i in range(6)], 'each figure under its name')
    rectangular(c, got[1][1])
    c.check(got[1][1][0][0] == 'headerrow', 'a head')
    c.check(got[1][1][1:] == want, 'every action, in order, with its figures')
    c.see(got)
    c.reach('end')


def c33_moves(c):
    n = c.param('rows')
    e = c.choice('equity', (0, 1, 2))
    rows, want = [], []
    for k in range(n):
        m = MOVES[k % 3] + c.chars('move%d' % k, 2, '0129/*(),')
        ply = c.int('ply%d' % k, 0, 9)
        eq = SIGNED[(e + 2 * k + 1) % 6]
        d = c.choice('diff%d' % k, DIFFS if k == 0 else DIFFS[k % 2::2])
        actual = c.choice('actual%d' % k, (True, False, None) if k == 0 else (True, None))
        fig = figures(c, k)
        r = dict(nth=k + 1, move=m, ply=ply, equity=eq[0], diff=d[0], cubeful=True)
        for i in range(6):
            r[NAMES[i]] = fig[i][0]
        if actual is not None:
            r['actual'] = actual
        rows.append(r)
        cls = row_class(k + 1, actual)
        want.append((cls, [['th', 2, 1, str(k + 1)], ['td', 2, 1, m], ['td', 2, 1, str(ply)],
                           ['td', 1, 6, eq[1] + (' (%s)' % d[1] if d[1] else '')]]))
        want.append((cls, [['td', 1, 1, fig[i][1]] for i in range(6)]))
    store = Store(False, rows)
    out = run(c, store, PID + ':' + MID)
    c.check(store.asked == [(PID, MID)], 'the position asked about')
    got = tables(c, shown(c, out))
    c.check(len(got) == 1 and got[0][0] == 'move', 'one table')
    rectangular(c, got[0][1])
    c.check([x[0] for x in got[0][1][:2]] == ['headerrow', 'headerrow'], 'a head')
    c.check([x[3] for x in got[0][1][1][1]] == list(NAMES), 'the figures are named')
    c.check(got[0][1][2:] == want, 'every move, in order, with its figures')
    c.see(got)
    c.reach('end')


def query(c, t):
    """the pairs of a query written into HTML"""
    out = {}
    for p in t.split('&amp;'):
        i = p.find('=')
        v, k = '', i + 1
        while k < len(p):
            if p[k] == '%':
                v += chr(int(p[k + 1:k + 3], 16))
                k += 3
            else:
                v += ' ' if p[k] == '+' else p[k]
                k += 1
        c.check(p[:i] not in out, 'asked once')
        out[p[:i]] = v
    return out


ID = 'ABCXYZabcxyz0189/+'


def c33_position(c):
    """a position is shown by a picture of that position and no other"""
    a, b = c.chars('a', 1, ID), c.chars('b', 1, ID)
    good = c.choice('good', (True, False))
    pid, mid = '4HPwATDgc/ABM' + a, b + 'AkWAAAAAAA+'
    css = c.choice('css', (None, 'safari', 'neon'))
    form = c.choice('format', (None, 'jpg'))
    w, h = c.choice('width', (None, '57')), c.choice('height', (None, '1000'))
    sep = c.choice('sep', (',', ', '))
    s = pid + (':' if good else c.choice('bad', (';', '', '::'))) + mid
    if css:
        s += sep + 'css=' + css
    if form:
        s += sep + 'format' + form
    if w:
        s += sep + 'width' + w
    if h:
        s += sep + 'height' + h
    ed = doctree.Editor()
    root = doctree.BgWikiElementRoot()
    if c.param('after'):
        # another position before it, with every option
        ed.start(doctree.BgWikiElementRoot())
        macro.dispatch(ed, 'Position', 'AAAAAAAAAAAAAA:BBBBBBBBBBBB,css=matrix,formatgif,width9,height8')
        ed = doctree.Editor()
    ed.start(root)
    macro.dispatch(ed, 'Position', s)
    c.check(ed.current is root, 'the writer stands where it stood')
    ed.done()
    wr = doctree.HtmlWriter()
    ed.accept(wr)
    got = shown(c, wr.html())
    if not good:
        c.check(got[0] == ('start', 'span', (('class', 'error'),)) and
                got[1] == ('text', 'Bad args "%s" for Position' % s), 'what is no position is reported')
        c.reach('bad')
        return
    c.check(got[0] == ('start', 'span', (('class', 'position'),)), 'marked as a position')
    c.check(got[1][0] == 'single' and got[1][1] == 'img' and got[1][2][0][0] == 'src' and len(got[1][2]) == 1, 'a picture')
    src = got[1][2][0][1]
    c.check(src[:7] == '/image?', 'of the image service')
    c.check(query(c, src[7:]) == dict(gnubgid=pid + ':' + mid, css=css or 'minimal', format=form or 'png', width=w or '400',
                                      height=h or '300'), 'of that position, as asked')
    c.see(sorted(query(c, src[7:]).items()))
    c.reach('end')


def c33_words(c):
    """an unknown macro or bad arguments are reported, quoted safely"""
    name = c.chars('name', c.choice('n', (1, 3)), 'aB<&>"')
    args = c.choice('args', (None, 'x', '<b>', 'a&b'))
    ed = doctree.Editor()
    root = doctree.BgWikiElementRoot()
    ed.start(root)
    macro.dispatch(ed, name, args)
    ed.done()
    wr = doctree.HtmlWriter()
    ed.accept(wr)
    q = lambda s: s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
    got = shown(c, wr.html())
    c.check(got == [('start', 'span', (('class', 'error'),)),
                    ('text', 'No such macro "%s" with argument "%s"' % (q(name), q(args or 'None'))), ('end', 'span')],
            'an unknown macro is named')
    c.check(ed.current is root, 'the writer stands where it stood')
    c.see(got)
    c.reach('end')
