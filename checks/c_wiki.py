# C24: formatting wiki text.  C25: the document tree.
from bglib.doc import bgwiki, doctree
from bglib.doc import html as bgl_html

ENTITIES = ('&lt;', '&gt;', '&amp;', '&quot;')
NAME = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'


def entity(t, i):
    for e in ENTITIES:
        if t[i:i + len(e)] == e:
            return len(e)
    return 0


def letter(ch):
    return 'a' <= ch <= 'z' or 'A' <= ch <= 'Z' or '0' <= ch <= '9'


def word(t, i):
    """the end of the word at i (its letters are markup, which is never symbolic)"""
    n = len(t)
    while i < n and letter(t[i]):
        i = i + 1
    return i


def blank(ch):
    return ch == ' ' or ch == '\n'


def balanced(c, t):
    """every element opened is closed in nesting order and text is escaped"""
    stack, tags = [], []
    i, n = 0, len(t)
    while i < n:
        ch = t[i]
        if ch == '<':
            i = i + 1
            closing = t[i] == '/'
            if closing:
                i = i + 1
            j = word(t, i)
            c.check(j > i, 'an element has a name')
            name = t[i:j]
            i = j
            single = False
            while t[i] != '>':
                if blank(t[i]):
                    i = i + 1
                elif t[i] == '/':
                    i = i + 1
                    c.check(t[i] == '>', 'a slash ends the element')
                    single = True
                else:
                    c.check(not closing, 'a closing element has no attributes')
                    c.check(blank(t[i - 1]), 'attributes are apart')
                    j = word(t, i)
                    c.check(j > i, 'an attribute has a name')
                    c.check(t[j:j + 2] == '="', 'an attribute has a quoted value')
                    i = j + 2
                    while t[i] != '"':
                        c.check(t[i] != '<' and t[i] != '>', 'no angle bracket in an attribute')
                        if t[i] == '&':
                            k = entity(t, i)
                            c.check(k > 0, 'an ampersand in an attribute starts an entity')
                            i = i + k
                        else:
                            i = i + 1
                    i = i + 1
            i = i + 1
            if closing:
                c.check(len(stack) > 0 and stack[-1] == name, 'elements close in nesting order')
                stack.pop()
            elif not single:
                stack.append(name)
            tags.append((closing and '/' or '') + name)
        elif ch == '&':
            k = entity(t, i)
            c.check(k > 0, 'an ampersand starts an entity')
            i = i + k
        else:
            c.check(ch != '>', 'no stray angle bracket')
            i = i + 1
    c.check(len(stack) == 0, 'every element is closed')
    return tags


def source(c, form):
    out = ''
    k = 0
    for f in form:
        if isinstance(f, str):
            out = out + f
        elif isinstance(f, int):
            out = out + c.chars('t%d_' % k, f, c.param('alphabet', None))
        else:
            out = out + c.choice('pick%d' % k, f)
        k = k + 1
    return out


def write(text, path=None):
    f = bgwiki.Formatter(None, path)
    f.parse(text)
    return f.make_html()


def c24(c):
    text = source(c, c.param('form'))
    out = write(text)
    tags = balanced(c, out)
    c.check(write(text) == out, 'the same text formats the same')
    c.see(tags)
    c.reach('end')


# ---------------------------------------------------------------- C25
class N(doctree.Node):
    """an element whose container decides by a table that is free"""
    tag = 'n'

    def open(self):
        return '<%s>' % self.tag

    def close(self):
        return '</%s>' % self.tag

    def is_acceptable(self, e):
        return isinstance(e, doctree.Text) or self.table.ok(self, e)


class A(N):
    tag = 'a'


class B(N):
    tag = 'b'


class B2(B):
    tag = 'b2'


class M(N, doctree.BgWikiElementMacroNode):
    """a macro that stands for itself in the document"""
    tag = 'm'


SORTS = (A, B, B2)


class Table(object):
    """which element may contain which"""
    def __init__(self, c):
        self.c = c

    def ok(self, a, b):
        return self.c.bool('%s in %s' % (b.tag, a.tag))


class Model(object):
    """the document by the statement of the property: a nested list of
    [sort, children, parent, node] and the place where the editor stands"""
    def __init__(self, root):
        self.root = ['root', [], None, root]
        self.at = self.root
        self.words = []

    def accepts(self, box, sort, c):
        if box[0] == 'root':
            return True
        return c.bool('%s in %s' % (sort.tag, box[0].tag))

    def add(self, sort, node, c):
        box = self.at
        while not self.accepts(box, sort, c):
            box = box[2]
        e = [sort, [], box, node]
        box[1].append(e)
        self.at = box
        return e

    def find(self, sorts):
        e = self.at
        while e is not None:
            for s in sorts:
                if e[0] != 'root' and issubclass(e[0], s):
                    return e
            e = e[2]
        return None

    def say(self, word):
        kids = self.at[1]
        if kids and kids[-1][0] == 'text':
            kids[-1][3] = kids[-1][3] + word
        else:
            kids.append(['text', [], self.at, word])


def same(c, node, e):
    """the editor's tree is the one of the model"""
    kids = node.children
    c.check(len(kids) == len(e[1]), 'every element is in its place')
    for i in range(len(kids)):
        k, f = kids[i], e[1][i]
        c.check(k.parent is node, 'parent and child links agree')
        if f[0] == 'text':
            c.check(isinstance(k, doctree.Text), 'text is where it was added')
            c.check(k.text == f[3], 'text keeps its order and adjacent text is merged')
            c.check(len(k.children) == 0, 'text contains nothing')
        else:
            c.check(k is f[3], 'every element is in its place')
            same(c, k, f)


LEAVES = ((A,), (B,), (B2,), (A, B2))


def ask(c, ed, m, w):
    e = m.find(w)
    got = ed.ancestor(w[0])
    c.check(got is (e and e[3]), 'the nearest enclosing element')
    n = 0
    f = m.at
    while f is not None:
        if f[0] != 'root' and issubclass(f[0], w[0]):
            n = n + 1
        f = f[2]
    c.check(ed.count_nesting(w[0]) == n, 'how deep in such elements')


def c25_edit(c):
    """entering, appending, leaving and adding text in any order"""
    N.table = Table(c)
    root = doctree.BgWikiElementRoot()
    ed = doctree.Editor()
    ed.start(root)
    m = Model(root)
    ops = c.param('ops')
    sorts = (A, M) if c.param('macro', 0) else SORTS
    for k in range(c.param('n')):
        op = c.choice('op%d' % k, ops)
        if op == 'enter' or op == 'append':
            s = c.choice('sort%d' % k, sorts)
            if op == 'enter':
                node = ed.enter(s)
            else:
                node = ed.append(s)
            c.check(isinstance(node, s), 'the element asked for')
            e = m.add(s, node, c)
            if op == 'enter':
                m.at = e
            c.reach(op)
        elif op == 'leave':
            w = c.choice('which%d' % k, LEAVES)
            if len(w) == 1:
                ed.leave(w[0])
            else:
                ed.leave(w)
            e = m.find(w)
            if e is not None:
                m.at = e[2]
                c.reach('left')
            else:
                c.reach('nothing to leave')
        elif op == 'text':
            w = c.chars('word%d_' % k, 1)
            ed.append_text(w)
            m.say(w)
        elif op == 'ask':
            ask(c, ed, m, c.choice('asked%d' % k, LEAVES[:3]))
        elif op == 'done':
            c.check(ed.done() is root, 'the document')
            m.at = m.root
        at = m.at[3]
        c.check(ed.current is at, 'the editor stands where it should')
        c.check(root.parent is None, 'the document has no parent')
        same(c, root, m.root)
    for w in LEAVES[:3]:
        ask(c, ed, m, w)


class Log(doctree.Visitor):
    def __init__(self):
        self.log = []

    def enter(self, node):
        self.log.append(('in', node))

    def leave(self, node):
        self.log.append(('out', node))


def expected(node, out):
    out.append(('in', node))
    for k in node.children:
        expected(k, out)
    out.append(('out', node))
    return out


def written(e):
    if e[0] == 'text':
        return e[3] + '\n'
    inner = ''
    for k in e[1]:
        inner = inner + written(k)
    if e[0] == 'root':
        return inner
    return '<%s>' % e[0].tag + inner + '</%s>' % e[0].tag


def c25_write(c):
    """the written HTML visits every node once"""
    root = doctree.BgWikiElementRoot()
    m = Model(root)
    nodes = [m.root]
    for k in range(c.param('n')):
        s = c.choice('sort%d' % k, (A, B, doctree.Text))
        at = c.choice('under%d' % k, range(c.param('n')))
        c.assume(at < len(nodes))
        box = nodes[at]
        if s is doctree.Text:
            w = c.chars('word%d_' % k, 1)
            node = doctree.Text(box[3], text=w)
            box[1].append(['text', [], box, w])
        else:
            node = s(box[3])
            e = [s, [], box, node]
            box[1].append(e)
            nodes.append(e)
        box[3].append(node)
    log = Log()
    root.accept(log)
    want = expected(root, [])
    c.check(len(log.log) == len(want), 'every node is visited once')
    for i in range(len(want)):
        c.check(log.log[i][0] == want[i][0] and log.log[i][1] is want[i][1], 'in order, opening before and closing after')
    w = doctree.HtmlWriter()
    root.accept(w)
    c.check(w.html() == written(m.root), 'the writing of every node, its contents between')
    w = doctree.PDFWriter()
    root.accept(w)
    c.check(w.pdf() == written(m.root), 'the other writer too')
    c.see(w.pdf())
    c.reach('end')


# the elements a wiki document is built of, and what each may contain
SPAN = ('SpanElement', 'BRElement', 'BoldElement', 'ItalicElement', 'UnderlineElement', 'StrikeElement', 'SubscriptElement',
        'SuperscriptElement', 'MonospaceElement', 'AnchorElement', 'ImgElement')
BOX = ('BoxElement', 'H1Element', 'H2Element', 'H3Element', 'DefinitionBodyElement', 'DivElement', 'DefinitionListElement',
       'TableElement', 'BlockQuoteElement', 'CitationElement', 'ListElement')
LINE = ('TableCellElement', 'TableRowElement', 'TableHeaderElement', 'ItemizeElement', 'DefinitionHeaderElement',
        'CitationContentElement')
ALL = SPAN + BOX + LINE
MORE = {'TableRowElement': ('TableCellElement', 'TableHeaderElement'),
        'ItemizeElement': ('ListElement', 'ItemizeElement', 'TableElement', 'TableRowElement', 'TableHeaderElement', 'TableCellElement'),
        'DefinitionBodyElement': ('ListElement',), 'DivElement': BOX,
        'DefinitionListElement': ('DefinitionHeaderElement', 'DefinitionBodyElement', 'ListElement'),
        'TableElement': ('TableRowElement', 'TableHeaderElement', 'TableCellElement'),
        'CitationContentElement': ('CitationElement', 'CitationContentElement'),
        'CitationElement': ('CitationElement', 'CitationContentElement'), 'ListElement': ('ListElement', 'ItemizeElement')}


def may_contain(a, b):
    return b in SPAN or b in MORE.get(a, ())


def make(name):
    if name == 'ListElement':
        return dict(star='*', sign=None, ordered_numeric=None, ordered_alpha=None, ordered_roman=None)
    if name == 'ItemizeElement':
        return dict(style=None)
    return {}


def c25_real(c):
    """the real elements: each sits where its container accepts it"""
    root = doctree.BgWikiElementRoot()
    ed = doctree.Editor()
    ed.start(root)
    stack = []
    n = 0
    for k in range(c.param('n')):
        name = c.choice('sort%d' % k, c.param('sorts%d' % k, ALL))
        ed.enter(getattr(doctree, name), **make(name))
        n = n + 1
        while stack and not may_contain(stack[-1], name):
            stack.pop()
        stack.append(name)
        word = c.chars('word%d_' % k, 1, NAME)
        ed.append_text(word)
        node = ed.current
        for s in stack[::-1]:
            c.check(node.__class__.__name__ == s, 'elements nest as their containers allow')
            node = node.parent
        c.check(node is root, 'the outermost is the document')
    ed.done()
    w = doctree.HtmlWriter()
    ed.accept(w)
    balanced(c, w.html())
    c.reach('end')


def plain(c, t):
    """the text of HTML without its elements"""
    out = []
    i, n = 0, len(t)
    while i < n:
        if t[i] == '<':
            while t[i] != '>':
                i = i + 1
        else:
            out.append(t[i])
        i = i + 1
    return ''.join(out)


def c25_wiki(c):
    """text between pieces of markup keeps its order and none is lost"""
    marks, form = c.param('marks'), c.param('form')
    text = source(c, form)
    out = plain(c, write(text))
    at = 0
    for m in marks:
        i = out.find(m)
        c.check(i >= at, 'the text is there and in order')
        c.check(out.find(m, i + 1) < 0, 'the text is there once')
        at = i
    c.reach('end')
