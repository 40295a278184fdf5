# C26-C29: element trees, style rules, attributes and drawing of boards.
from bglib.image import base, css, draw, theme
from bglib.image.base import Element
from bglib.model import Board
from bglib.model.constants import *

# ------------------------------------------------- what each element declares
INT, STR, BOOL, FLOAT = 'int', 'str', 'bool', 'float'
NO = 'no default'
# name -> (type, inherited, default, allowed texts)
COMMON = {'x': (INT, True, NO, None), 'y': (INT, True, NO, None), 'width': (INT, True, NO, None),
          'height': (INT, True, NO, None), 'image': (STR, False, NO, None), 'flip': (BOOL, True, False, None),
          'background': (STR, False, NO, None), 'color': (STR, False, NO, None), 'font': (STR, True, NO, None),
          'mag': (FLOAT, True, NO, None)}
PLAYER = ('player', (STR, False, NO, ('you', 'him')))
ZERO = (INT, False, 0, None)
OWN = {'board': (), 'match': (), 'action': (PLAYER,), 'length': (), 'crawford': (), 'score': (PLAYER,),
       'position': (), 'top_frame': (), 'bottom_frame': (), 'cubeholder': (),
       'field': (PLAYER, ('text', (STR, False, NO, None))),
       'die': (('backgammon', (STR, False, NO, None)), ('diestyle', (STR, False, 'dot', ('dot', 'numeric'))),
               ('eyesize', (INT, False, NO, None)), ('id', (STR, False, NO, None))),
       'cube': (('initialCube', (STR, False, NO, None)),),
       'resign': (PLAYER, ('x_offset', ZERO), ('y_offset', ZERO)),
       'home': (PLAYER, ('fill', (BOOL, True, True, None))),
       'chequer': (PLAYER, ('x_offset', ZERO), ('y_offset', ZERO), ('x_offset2', ZERO), ('y_offset2', ZERO),
                   ('hide_count', (BOOL, False, False, None)), ('max_count', (INT, False, NO, None))),
       'bar': (PLAYER,),
       'point': (('fill', (BOOL, True, True, None)), ('parity', (STR, False, NO, ('even', 'odd'))))}
KINDS = ('board', 'match', 'action', 'length', 'crawford', 'score', 'position', 'top_frame', 'bottom_frame',
         'cubeholder', 'field', 'die', 'cube', 'resign', 'home', 'chequer', 'bar', 'point')
CONTENT = {'board': ('match', 'position'), 'match': ('action', 'length', 'crawford', 'score'), 'action': ('text',),
           'length': ('text',), 'crawford': ('text',), 'score': ('text',),
           'position': ('cubeholder', 'field', 'home', 'bar', 'point', 'top_frame', 'bottom_frame'),
           'top_frame': ('text',), 'bottom_frame': ('text',), 'cubeholder': ('text', 'cube'),
           'field': ('text', 'die', 'cube', 'resign'), 'die': ('text',), 'cube': ('text',), 'resign': ('text',),
           'home': ('text', 'cube', 'chequer'), 'chequer': ('text',), 'bar': ('text', 'chequer'),
           'point': ('text', 'chequer')}


def declared(kind):
    d = dict(COMMON)
    for n, v in OWN[kind]:
        d[n] = v
    return d


def make(kind):
    if kind == 'top_frame':
        return base.TopFrame()
    if kind == 'bottom_frame':
        return base.BottomFrame()
    return Element(kind)


def value(c, tag, t, n=3):
    """any value of a type"""
    if t == INT:
        return c.int(tag + 'i', -30000, 30000)
    if t == BOOL:
        return c.bool(tag + 'b')
    if t == FLOAT:
        return c.choice(tag + 'f', (0.0, 0.5, 1.0, -2.25, 1000.0))
    return c.chars(tag + 's', n)


def same(a, b):
    return type(a) is type(b) and a == b


# ------------------------------------------------------------------- C28
MISSING = ('missing',)


def read(e, name):
    try:
        return getattr(e, name)
    except AttributeError:
        return MISSING


def fits(t, allowed, kind, v):
    """does a value of this kind have the declared type (a bool is an int)"""
    if t != kind and not (t == INT and kind == BOOL):
        return False
    if allowed is not None:
        r = False
        for a in allowed:
            r = r or v == a
        return r
    return True


def c28_set(c):
    """set twice: the second time any kind of value"""
    kind = c.param('kind')
    names = sorted(declared(kind))
    name = c.choice('name', names)
    t, inherited, default, allowed = declared(kind)[name]
    e = make(kind)
    other = make(kind)
    started = c.choice('first', (True, False))
    first = MISSING
    if started:
        first = value(c, 'a', t)
        if allowed is not None:
            first = allowed[c.choice('which', (0, 1))]
        setattr(e, name, first)
        c.check(same(read(e, name), first), 'exactly the value set')
    k = c.choice('kind', (INT, STR, BOOL, FLOAT))
    v = value(c, 'v', k, allowed is None and 3 or c.choice('length', (3, 4, 7)))
    ok = fits(t, allowed, k, v)
    try:
        setattr(e, name, v)
        done = True
    except TypeError:
        done = False
    c.check(done == ok, 'accepted exactly when of the declared type')
    if done:
        c.check(read(e, name) == v, 'exactly the value set')
        c.reach('set')
    else:
        if started:
            c.check(same(read(e, name), first), 'a refused value changes nothing')
        else:
            c.check(read(e, name) == (MISSING if default == NO else default), 'a refused value changes nothing')
        c.reach('refused')
    for n in names:
        if n != name:
            d = declared(kind)[n][2]
            c.check(read(e, n) == (MISSING if d == NO else d), 'no other attribute changes')
    d = default
    c.check(read(other, name) == (MISSING if d == NO else d), 'no other element changes')
    c.see(read(e, name))


CHAINS = {'point': ('board', 'position', 'point', 'chequer'), 'home': ('board', 'position', 'home', 'cube'),
          'field': ('board', 'position', 'field', 'die'), 'resign': ('board', 'position', 'field', 'resign'),
          'home2': ('board', 'position', 'home', 'chequer'), 'bar': ('board', 'position', 'bar', 'chequer'),
          'match': ('board', 'match', 'score'), 'holder': ('board', 'position', 'cubeholder', 'cube')}


def c28_read(c):
    """reading through a chain of elements with any subset set"""
    chain = CHAINS[c.param('chain')]
    els = [make(k) for k in chain]
    for i in range(len(els) - 1):
        els[i].append(els[i + 1])
    name = c.choice('name', sorted(set([n for k in chain for n in declared(k)])))
    vals = []
    for i in range(len(chain)):
        if name in declared(chain[i]) and c.choice('set%d' % i, (False, True)):
            t, inherited, default, allowed = declared(chain[i])[name]
            v = allowed[c.choice('w%d' % i, (0, 1))] if allowed else value(c, 'v%d' % i, t)
            setattr(els[i], name, v)
            vals.append(v)
        else:
            vals.append(MISSING)
    for i in range(len(chain)):
        want = MISSING
        if name in declared(chain[i]):
            t, inherited, default, allowed = declared(chain[i])[name]
            j = i
            while want is MISSING and j >= 0:
                if j == i or (inherited and name in declared(chain[j])):
                    want = vals[j]
                j = j - 1
            if want is MISSING and default != NO:
                want = default
        got = read(els[i], name)
        c.check(got == want, 'own value, then an ancestor, then the default')
        c.see(got)
    c.reach('end')


def c28_child(c):
    parent = c.param('parent')
    child = c.choice('child', KINDS + ('text',))
    p = make(parent)
    n = c.choice('before', (0, 1))
    first = None
    if n:
        first = CONTENT[parent][0]
        p.append(c.chars('t', 2) if first == 'text' else make(first))
    before = list(p.children)
    e = c.chars('s', 3) if child == 'text' else make(child)
    first_parent = None
    if child != 'text' and c.choice('had one', (False, True)):
        # taken over from another parent
        for k in KINDS:
            if first_parent is None and child in CONTENT[k]:
                first_parent = make(k)
                first_parent.append(e)
                c.check(e.parent is first_parent, 'linked to its first parent')
    try:
        p.append(e)
        done = True
    except TypeError:
        done = False
    c.check(done == (child in CONTENT[parent]), 'accepted exactly when the content model lists it')
    c.check(len(p.children) == len(before) + (1 if done else 0), 'children added')
    for i in range(len(before)):
        c.check(p.children[i] is before[i] or p.children[i] == before[i], 'earlier children stay')
    if done:
        c.check(p.children[-1] is e or p.children[-1] == e, 'the child is last')
        c.reach('accepted')
    if child != 'text':
        c.check(e.parent is (first_parent if not done else p), 'linked to its parent')
    c.reach('end')


def c28_text(c):
    """text from a style sheet is read as the declared type"""
    kind = c.param('kind')
    name = c.choice('name', sorted(declared(kind)))
    t, inherited, default, allowed = declared(kind)[name]
    e = make(kind)
    if name in ('image', 'font'):
        s = c.chars('u', 3, 'abz./_9')
        e.apply('themes/x/default.css', {name: 'uri("' + s + '")'})
        c.assume(s[0] != '/')
        c.check(read(e, name) == 'themes/x/' + s, 'a file named relative to the sheet')
    else:
        v = allowed[c.choice('w', (0, 1))] if allowed else value(c, 'v', t)
        if t == BOOL:
            v = c.concrete(v)
        e.apply('themes/x/default.css', {name: v if t == STR else str(v)})
        c.check(read(e, name) == v, 'the text of a value sets that value')
    c.check(e.attributes[name].is_match(str(v)) if name not in ('image', 'font') and t != STR else True,
            'and matches it')
    c.see(read(e, name))
    c.reach('end')


# ------------------------------------------------------------------- C27
class Sel(object):
    """a selector that matches the elements it is told to"""
    def __init__(self, hits):
        self.hits = hits

    def is_match(self, e):
        return self.hits[e.at]


class Spot(object):
    def __init__(self, at):
        self.at = at
        self.name = 'point'


def embeds(hits, k, n):
    """the first k selectors match some elements among the first n, in order"""
    can = [True] + [False] * k
    for at in range(n):
        nxt = [True]
        for i in range(1, k + 1):
            nxt.append(can[i] or (can[i - 1] and hits[i - 1][at]))
        can = nxt
    return can[k]


def c27_path(c):
    """every pattern of which selectors match which elements of a path"""
    k, n = c.param('k'), c.param('n')
    hits = [[c.bool('m%d_%d' % (i, j)) for j in range(n)] for i in range(k)]
    r = css.Rule('x.css', 1)
    for i in range(k):
        r.add(Sel(hits[i]))
    path = [Spot(j) for j in range(n)]
    got = r.is_match(path)
    want = hits[k - 1][n - 1] and embeds(hits, k - 1, n - 1)
    c.check((got == True) == want, 'matches exactly the elements described')
    c.check(len(r.pattern) == k and len(path) == n, 'matching leaves rule and path alone')
    again = r.is_match(path)
    c.check((again == True) == want, 'and again')
    c.see(got == True)
    c.reach('end')


def c27_selector(c):
    """one selector against one element"""
    kind = c.param('kind')
    names = [n for n in sorted(declared(kind)) if n not in ('image', 'font', 'mag')]
    name = c.choice('name', names)
    t, inherited, default, allowed = declared(kind)[name]
    e = make(kind)
    sets = c.choice('set', (False, True))
    v = None
    if sets:
        v = allowed[c.choice('w', (0, 1))] if allowed else value(c, 'v', t, 2)
        if t == BOOL:
            v = c.concrete(v)
        setattr(e, name, v)
    other = c.choice('other', (False, True))
    if other:
        e.y = 7
    word = None
    if 'text' in CONTENT[kind] and c.choice('word', (False, True)):
        word = c.chars('t', c.choice('letters', (2, 3)))
        e.append(word)
    el = c.choice('element', (kind, 'board', 'die'))
    form = c.choice('form', ('element', 'value', 'data', 'both'))
    sv = sd = sn = None
    if form in ('value', 'both'):
        sn = name
        if t == INT:
            w = c.int('sv', -99, 30000)
            sv = str(w)
        elif t == BOOL:
            w = c.choice('sb', (True, False))
            sv = str(w)
        else:
            w = sv = c.chars('sv', c.choice('sv letters', (1, 2, 3)))
    if form in ('data', 'both'):
        sd = c.chars('sd', c.choice('sd letters', (1, 2)))
    s = css.Selector(el, sn, sv, sd)
    got = s.is_match(e)
    want = el == kind
    if sn is not None:
        own = MISSING
        if other and name == 'y':
            own = 7
        elif sets:
            own = v
        want = want and own is not MISSING and w == own
    if sd is not None:
        want = want and word is not None and word == sd
    c.check((got == True) == want, 'name, attribute value and content decide')
    c.check(len(e.children) == (0 if word is None else 1), 'matching leaves the element alone')
    c.see(got == True)
    c.reach('end')


def tree(c):
    """a board with a few elements in it"""
    t = base.ElementTree()
    for i, p in ((1, 'you'), (2, 'him'), (24, 'you')):
        ch = Element('chequer', player=p)
        ch.append('2')
        t.points[i].append(ch)
    cube = Element('cube')
    cube.append('3')
    t.home[0].append(cube)
    return t


def walk(e, path=()):
    p = path + (e,)
    out = [p]
    for x in e.children:
        if isinstance(x, base.BaseElement):
            out = out + walk(x, p)
    return out


RULES = (('point chequer', ['point', 'chequer']), ('chequer', ['chequer']), ('board chequer', ['board', 'chequer']),
         ('point', ['point']), ('home cube', ['home', 'cube']), ('chequer point', ['chequer', 'point']),
         ('position home cube', ['position', 'home', 'cube']), ('match', ['match']), ('board match', ['board', 'match']),
         ('match chequer', ['match', 'chequer']))


def described(names, path):
    have = [e.name for e in path]
    if have[-1] != names[-1]:
        return False
    rest = list(names[:-1])
    for n in have[:-1]:
        if rest and rest[0] == n:
            rest = rest[1:]
    return not rest


def c27_sheet(c):
    """a sheet of rules over a whole tree: the last of the matching rules decides"""
    t = tree(c)
    n = c.param('rules')
    b = css.Binder()
    sheet = []
    for i in range(n):
        text, names = c.choice('rule%d' % i, RULES)
        r = css.Rule('themes/x.css', i + 1)
        for s in names:
            r.add(css.Selector(s))
        v = c.int('v%d' % i, 0, 999)
        at = c.choice('attribute%d' % i, ('x', 'y'))
        r.update({at: str(v)})
        sheet.append((names, at, v, i + 1))
        b.append(r)
    b.apply(t)
    for path in walk(t.board):
        e = path[-1]
        for at in ('x', 'y'):
            want = MISSING
            lines = []
            for names, a, v, line in sheet:
                if described(names, path):
                    lines.append(line)
                    if a == at:
                        want = v
            own = e.attributes.get(at, None)
            c.check((MISSING if own is None else own.get()) == want, 'the last matching rule decides')
            c.check(e.css_lineno == lines, 'exactly the matching rules applied, in order')
        c.check('width' not in e.attributes and 'color' not in e.attributes, 'nothing else set')
    c.check(len(walk(t.board)) == len(walk(tree(c).board)), 'the tree keeps its shape')
    c.reach('end')


LETTER = 'abcxyzABXYZ_'
WORD = 'abz09_-AZ'


def c27_parse(c):
    """a rule written out reads back as its selectors and settings"""
    k = c.param('k')
    text = ''
    want = []
    for i in range(k):
        el = c.chars('e%d_' % i, c.param('letters', 2), LETTER)
        n = v = d = None
        form = c.choice('form%d' % i, ('plain', 'attribute', 'data', 'both'))
        text = text + (' ' if i else '') + el
        if form in ('attribute', 'both'):
            n = c.chars('n%d_' % i, 1, WORD)
            v = c.chars('v%d_' % i, 2, WORD)
            text = text + '[' + n + '=' + v + ']'
        if form in ('data', 'both'):
            d = c.chars('d%d_' % i, 2, 'aZ09*./')
            text = text + ':data(' + d + ')'
        want.append((el, n, v, d))
    m = c.param('m')
    text = text + c.choice('gap', ('', ' ')) + '{'
    block = {}
    sep = c.choice('space', ('', ' '))
    for i in range(m):
        a = (('x', 'y'), ('max_count', 'Z-9'), ('flip', '_'))[i][c.choice('a%d_' % i, (0, 1))]
        w = c.chars('w%d_' % i, c.param('wide', 2), 'aZ09#"().-:/')
        text = text + sep + a + ':' + sep + w + (';' if i < m - 1 or c.param('last', True) else '')
        block[a] = w
    text = text + '}\n'
    r = css.CSSParser().rule('x.css', 12, text)
    c.check(r is not None and r.lineno == 12 and r.css_path == 'x.css', 'a rule with its line')
    c.check(len(r.pattern) == k, 'every selector')
    for i in range(k):
        s = r.pattern[i]
        c.check((s.element, s.name, s.value, s.data) == want[i], 'the selector written')
    c.check(len(r.block) == m and r.block == block, 'the settings written')
    c.reach('end')


# ------------------------------------------------------------------- C26
import lib
from bglib.model import BoardEditor

FIXED_YOU = (1, 0, 0, 0, 0, 2, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0)
FIXED_HIM = (0, 1, 0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 2)


def content(e):
    """(elements, texts) directly inside an element"""
    els, texts = [], []
    for x in e.children:
        if isinstance(x, base.BaseElement):
            els.append(x)
        else:
            texts.append(x)
    return els, texts


def stacks(e):
    return [x for x in content(e)[0] if x.name == 'chequer']


def cubes(e):
    return [x for x in content(e)[0] if x.name == 'cube']


def places(t):
    """(place, you's count index, him's count index) by walking the drawn tree"""
    pos = [x for x in content(t.board)[0] if x.name == 'position'][0]
    points = [x for x in content(pos)[0] if x.name == 'point']
    bars = dict([(x.player, x) for x in content(pos)[0] if x.name == 'bar'])
    homes = dict([(x.player, x) for x in content(pos)[0] if x.name == 'home'])
    fields = dict([(x.player, x) for x in content(pos)[0] if x.name == 'field'])
    holders = [x for x in content(pos)[0] if x.name == 'cubeholder']
    return points, bars, homes, fields, holders


def shown(c, e, who, n):
    """a place shows n chequers of one player"""
    st = [x for x in stacks(e) if x.player == PLAYER_STRING[who]]
    if c.truth(n == 0):
        c.check(len(st) == 0, 'no stack where there is no chequer')
    else:
        c.check(len(st) == 1, 'one stack where there are chequers')
        els, texts = content(st[0])
        c.check(not els and len(texts) == 1 and texts[0] == str(n), 'the stack shows its number')


def c26_position(c):
    """any number of chequers on some of the locations"""
    free = c.param('free')
    you, him = list(FIXED_YOU), list(FIXED_HIM)
    for w, i in free:
        if w == 0:
            you[i] = c.int('y%d' % i, 0, 15)
        else:
            him[i] = c.int('h%d' % i, 0, 15)
    ny = nh = 0
    for i in range(25):
        ny = ny + you[i]
        nh = nh + him[i]
    c.assume(ny <= 15)
    c.assume(nh <= 15)
    b = BoardEditor(position=(tuple(you), tuple(him)), on_action=YOU, on_inner_action=YOU)
    t = base.ElementTree(b)
    points, bars, homes, fields, holders = places(t)
    c.check(len(points) == 24, 'twenty-four points')
    for i in range(24):
        p = points[i]
        c.check(content(p)[1] == [str(i + 1)] and p.parity == ('even' if i % 2 else 'odd'), 'points numbered')
        c.check(len(content(p)[0]) == len(stacks(p)), 'nothing else on a point')
        shown(c, p, YOU, you[i])
        shown(c, p, HIM, him[23 - i])
        c.check(len(stacks(p)) == len([x for x in stacks(p) if x.player in PLAYER_STRING]), 'every stack has an owner')
    for w, cells, total in ((YOU, you, ny), (HIM, him, nh)):
        mine, other = PLAYER_STRING[w], PLAYER_STRING[1 - w]
        shown(c, bars[mine], w, cells[24])
        shown(c, bars[mine], 1 - w, 0)
        shown(c, homes[mine], w, 15 - total)
        shown(c, homes[mine], 1 - w, 0)
        c.check(not stacks(fields[mine]) and not stacks(holders[0]), 'chequers only on points, bars and homes')
    c.check(len(bars) == 2 and len(homes) == 2 and len(fields) == 2 and len(holders) == 1, 'one of each place')
    c.see(t.xml())
    c.reach('end')


def c26_state(c):
    """every state of cube, turn, dice, offers and score"""
    action = c.param('action')
    case = c.choice('case', ('turn', 'offer', 'resign'))
    other = 1 - action
    doubled = c.choice('doubled', (False, True)) if case != 'offer' else True
    rolled = (c.int('d0', 1, 6), c.int('d1', 1, 6)) if case != 'offer' and c.choice('rolled', (False, True)) else (0, 0)
    resign = c.choice('resign', (1, 2, 3)) if case == 'resign' else 0
    owner = c.choice('owner', (YOU, HIM, CENTER))
    log = c.int('log', 0, 12)
    s0, s1, length = c.int('s0', 0, 99), c.int('s1', 0, 99), c.int('length', 0, 99)
    crawford = c.choice('crawford', (False, True))
    b = BoardEditor(position=(FIXED_YOU, FIXED_HIM), on_action=action,
                    on_inner_action=action if case == 'turn' else other, doubled=doubled, rolled=rolled,
                    resign_offer=resign, cube_owner=owner, cube_in_logarithm=log, score=(s0, s1), match_length=length,
                    crawford=crawford, game_state=c.int('game', 0, 4))
    t = base.ElementTree(b)
    points, bars, homes, fields, holders = places(t)
    m = [x for x in content(t.board)[0] if x.name == 'match'][0]
    scores = dict([(x.player, x) for x in content(m)[0] if x.name == 'score'])
    c.check(content(scores['you'])[1] == [str(s0)] and content(scores['him'])[1] == [str(s1)], 'the scores')
    c.check([content(x)[1] for x in content(m)[0] if x.name == 'length'] == [[str(length)]], 'the match length')
    c.check([content(x)[1] for x in content(m)[0] if x.name == 'crawford'] == [[str(crawford)]], 'the Crawford flag')
    # the cube
    spots = [(holders[0], 'holder'), (homes['you'], 'home you'), (homes['him'], 'home him'), (fields['you'], 'field you'),
             (fields['him'], 'field him')]
    found = [(w, x) for e, w in spots for x in cubes(e)]
    every = [p[-1] for p in walk(t.board) if p[-1].name == 'cube']
    c.check(len(every) == 1 and len(found) == 1, 'one cube')
    w, cube = found[0]
    if case == 'offer':
        c.check(w == 'field ' + PLAYER_STRING[other], 'on the side of the player it is offered to')
        c.check(content(cube)[1] == [str(log + 1)], 'at the doubled value')
    else:
        c.check(w == {YOU: 'home you', HIM: 'home him', CENTER: 'holder'}[owner], 'the cube is at its owner')
        c.check(content(cube)[1] == [str(log)], 'at its value')
    # dice
    for who in (YOU, HIM):
        dice = [x for x in content(fields[PLAYER_STRING[who]])[0] if x.name == 'die']
        if who == action and case != 'offer' and not (rolled == (0, 0)):
            c.check(len(dice) == 2, 'the dice rolled')
            for d in dice:
                c.check(d.id in ('left', 'right'), 'left or right')
            at = dict([(d.id, content(d)[1]) for d in dice])
            c.check(at == {'right': [str(rolled[0])], 'left': [str(rolled[1])]}, 'the dice rolled')
        else:
            c.check(not dice, 'no dice elsewhere')
        offers = [x for x in content(fields[PLAYER_STRING[who]])[0] if x.name == 'resign']
        if case == 'resign' and who == other:
            c.check([content(x)[1] for x in offers] == [[str(resign)]], 'the resignation offered')
        else:
            c.check(not offers, 'no other resignation')
    # who must act
    act = [x for x in content(m)[0] if x.name == 'action'][0]
    words = content(act)[1]
    c.check(len(words) == 1, 'one action line')
    must = action if case == 'turn' else other
    c.check((PLAYER_STRING[must] + ' to ') in words[0] and (PLAYER_STRING[1 - must] + ' to ') not in words[0],
            'names the player who must act')
    c.see(t.xml())
    c.reach(case)
    c.known('C26-your-double', case == 'offer' and action == YOU)
    c.check(act.player == PLAYER_STRING[must], 'and is that player\'s')


# ------------------------------------------------------------------- C29
def c29_mag(c):
    """the board is scaled to fit, and no larger would"""
    w, h = c.param('w'), c.param('h')
    most = c.param('most', 2047)
    if c.param('axis') == 'x':
        bx, by = c.int('bx', c.param('least', 1), most), c.param('other')
    elif c.param('axis') == 'y':
        bx, by = c.param('other'), c.int('by', c.param('least', 1), most)
    else:
        bx, by = c.int('bx', 1, most), c.int('by', 1, most)
    e = Element('board')
    e.width = w
    e.height = h
    e.set_mag((bx, by))
    x, y = e.calc_mag((w, h))
    c.check(x <= bx, 'the scaled width fits')
    c.check(y <= by, 'the scaled height fits')
    c.check(x >= bx - 1 or y >= by - 1, 'as large as fits')
    c.see((x, y))
    c.reach('end')


class Paper(object):
    """records what is drawn"""
    def __init__(self):
        self.calls = []

    def draw_ellipse(self, position, size, fill=None):
        self.calls.append(('ellipse', tuple(position), tuple(size), fill))

    def draw_text(self, position, size, text, font, fill):
        self.calls.append(('text', tuple(position), tuple(size), text, fill))

    def paste_image(self, src, position, size):
        self.calls.append(('image', tuple(position), tuple(size), src))

    def load_image(self, uri, size, flip):
        return (uri, tuple(size), flip)

    def draw_polygon(self, points, fill=None):
        self.calls.append(('polygon', points, fill))

    def draw_rect(self, position, size, fill=None):
        self.calls.append(('rect', tuple(position), tuple(size), fill))


def boxed(c, e, mag, least=0):
    """an element anywhere, of any size; its box in pixels"""
    x, y, w, h = c.int('x', 0, 1000), c.int('y', 0, 1000), c.int('w', least, 200), c.int('h', least, 200)
    e.x, e.y, e.width, e.height, e.mag = x, y, w, h, mag
    return [int(v * mag) for v in (x, y, w, h)]


def c29_die(c):
    e = Element('die')
    e.color = 'black'
    mag = c.param('mag')
    x, y, w, h = boxed(c, e, mag, 8)
    eye = c.int('eye', 0, 100)
    e.eyesize = eye
    d = int(eye * mag)
    c.assume(d + d <= w)
    c.assume(d + d <= h)
    c.assume(w >= 12)
    c.assume(h >= 12)
    n = c.choice('n', (1, 2, 3, 4, 5, 6))
    e.append(str(n))
    style = c.choice('style', ('dot', 'default', 'numeric', 'image'))
    p = Paper()
    if style == 'image':
        e.image = 'die.png'
    elif style != 'default':
        e.diestyle = style
    if style == 'numeric':
        e.font = 'a.ttf'
    e.draw(p)
    if style == 'image':
        c.check(p.calls == [('image', (x, y), (w, h), ('die.png', (w, h), False))], 'its picture in its box')
    elif style == 'numeric':
        c.check(p.calls == [('text', (x, y), (w, h), str(n), 'black')], 'its number in its box')
    else:
        c.check(len(p.calls) == n, 'as many dots as the die shows')
        at = []
        for k in p.calls:
            c.check(k[0] == 'ellipse' and k[2] == (d, d) and k[3] == 'black', 'dots of the size and colour asked')
            px, py = k[1]
            c.check(x <= px and px + d <= x + w and y <= py and py + d <= y + h, 'inside the die')
            at.append((px + px + d - x - x - w, py + py + d - y - y - h))
        for i in range(n):
            alone = True
            for j in range(n):
                if j != i:
                    alone = alone and not (at[i][0] == at[j][0] and at[i][1] == at[j][1])
            c.check(alone, 'no dot twice')
            opposite = False
            for j in range(n):
                sx, sy = at[i][0] + at[j][0], at[i][1] + at[j][1]
                opposite = opposite or (-4 <= sx and sx <= 4 and -4 <= sy and sy <= 4)
            c.check(opposite, 'every dot has its opposite')
        for i in range(n):
            # the pattern of an ordinary die: middle dot for odd numbers only, and nothing else on the axes but the
            # six's middle row
            middle = -2 <= at[i][0] and at[i][0] <= 2
            c.check(middle == (n % 2 == 1 and -2 <= at[i][1] and at[i][1] <= 2 and middle), 'columns left and right')
    c.see(p.calls)
    c.reach(style)


def c29_cube(c):
    e = Element('cube')
    mag = c.param('mag')
    x, y, w, h = boxed(c, e, mag)
    log = c.int('log', 0, 12)
    e.append(str(log))
    e.font = 'a.ttf'
    own = c.choice('initial', (False, True))
    if own:
        e.initialCube = '64'
    p = Paper()
    e.draw(p)
    c.check(len(p.calls) == 1 and p.calls[0][:3] == ('text', (x, y), (w, h)), 'one number in its box')
    got = p.calls[0][3]
    if own and c.truth(log == 0):
        c.check(got == '64', 'an undoubled cube may show its own text')
    else:
        c.check(got == str(1 << log), 'two to the power of its value')
    c.see(p.calls)
    c.reach('end')


def c29_chequer(c):
    home = Element(c.param('place'))
    e = Element('chequer')
    home.append(e)
    mag = c.param('mag')
    home.x, home.y, home.width, home.height = 20, 10, 60, 90
    e.x, e.y, e.width, e.height, e.mag = 21, 11, 15, 12, mag
    x, y, w, h = [int(v * mag) for v in (21, 11, 15, 12)]
    n, most = c.int('n', 0, 15), c.int('most', 0, 15)
    e.append(str(n))
    e.max_count = most
    e.x_offset, e.y_offset, e.x_offset2, e.y_offset2 = c.choice('offsets', ((0, 0, 0, 0), (16, 0, -48, 7), (0, 13, 4, -65)))
    kind = c.choice('look', ('image', 'colour', 'plain'))
    if kind == 'image':
        e.image = 'c.png'
    else:
        e.color = 'red'
    font = c.choice('font', (False, True))
    if font:
        e.font = 'a.ttf'
    hide = c.choice('hide', (None, False, True))
    if hide is not None:
        e.hide_count = hide
    p = Paper()
    e.draw(p)
    drawn = [k for k in p.calls if k[0] in ('image', 'ellipse')]
    words = [k for k in p.calls if k[0] == 'text']
    c.check(len(drawn) == lib.b_max(0, n if c.truth(n <= most) else most), 'as many chequers as it holds up to the maximum')
    for k in drawn:
        c.check(k[2] == (w, h) and k[0] == ('image' if kind == 'image' else 'ellipse'), 'whole chequers')
    if drawn:
        c.check(drawn[0][1] == (x, y), 'the first at its place')
    if c.truth(n > most) and font and not hide:
        c.check(len(words) == 1 and words[0][3] == str(n), 'the count beyond the maximum')
        c.reach('count')
    else:
        c.check(not words, 'and only then')
    c.check(len(p.calls) == len(drawn) + len(words), 'nothing else')
    c.see(p.calls)
    c.reach('end')


def c29_row(c):
    """the chequers of a stack that has room lie one offset apart"""
    home = Element('point')
    e = Element('chequer')
    home.append(e)
    mag = c.param('mag')
    home.x, home.y, home.width, home.height = 0, 0, 4000, 4000
    x, y, w, h = boxed(c, e, mag)
    ox, oy = c.int('ox', 0, 30), c.int('oy', 0, 30)
    e.x_offset, e.y_offset, e.x_offset2, e.y_offset2 = ox, oy, c.int('ox2', -30, 30), c.int('oy2', -30, 30)
    n = c.choice('n', (1, 2, 3, 5, 8, 15))
    e.append(str(n))
    e.max_count = 15
    e.color = 'red'
    p = Paper()
    e.draw(p)
    c.check(len(p.calls) == n, 'as many chequers as it holds')
    for i in range(n):
        c.check(p.calls[i] == ('ellipse', (x + i * int(ox * mag), y + i * int(oy * mag)), (w, h), 'red'),
                'one offset apart')
    c.see(p.calls)
    c.reach('end')


def c29_text(c):
    """scores, lengths, actions and resignations are written in their boxes"""
    kind = c.param('kind')
    e = Element(kind)
    mag = c.param('mag')
    x, y, w, h = boxed(c, e, mag)
    e.color = 'red'
    look = c.choice('look', ('font', 'image', 'both'))
    if look != 'image':
        e.font = 'a.ttf'
    if look != 'font':
        e.image = 's.png'
    p = Paper()
    times = 1
    if kind == 'crawford':
        on = c.choice('on', (True, False))
        e.append(str(on))
        want = '*' if on else None
    elif kind == 'resign':
        times = c.choice('offer', (1, 2, 3))
        e.append(str(times))
        want = (None, 'single', 'gammon', 'backgammon')[times]
        e.x_offset, e.y_offset = c.int('ox', 0, 30), c.int('oy', 0, 30)
    else:
        n = c.int('n', 0, 999)
        e.append(str(n))
        want = str(n)
    e.draw(p)
    if look == 'font':
        if want is None:
            c.check(not p.calls, 'no mark')
        else:
            c.check(p.calls == [('text', (x, y), (w, h), want, 'red')], 'its text in its box')
    else:
        c.check(len(p.calls) == times, 'its picture')
        for i in range(len(p.calls)):
            k = p.calls[i]
            if kind != 'resign':
                c.check(k == ('image', (x, y), (w, h), ('s.png', (w, h), False)), 'in its box')
            else:
                c.check(k == ('image', (x + (i + 1) * int(e.x_offset * mag), y + (i + 1) * int(e.y_offset * mag)), (w, h),
                              ('s.png', (w, h), False)), 'one offset apart')
    c.see(p.calls)
    c.reach('end')


# ------------------------------------------------------------------- C31
class Canvas(draw.Draw):
    """records what every element paints"""
    def __init__(self, sheet):
        draw.Draw.__init__(self, sheet)
        self.painted = []
        self.path = ()
        self.seen = []

    def result_from_dc(self):
        return self.painted

    def note(self, kind, x, y, w, h, what):
        self.painted.append((self.path, kind, x, y, w, h, what))

    def draw_text(self, position, size, text, font_name, fill):
        self.note('text', position[0], position[1], size[0], size[1], (text, font_name, fill))

    def draw_ellipse(self, position, size, fill=None):
        self.note('ellipse', position[0], position[1], size[0], size[1], fill)

    def draw_polygon(self, points, fill=None):
        xs = [p[0] for p in points]
        ys = [p[1] for p in points]
        self.note('polygon', min(xs), min(ys), max(xs) - min(xs), max(ys) - min(ys), fill)

    def draw_rect(self, position, size, fill=None):
        self.note('rect', position[0], position[1], size[0], size[1], fill)

    def paste_image(self, src, position, size):
        self.note('image', position[0], position[1], size[0], size[1], src)

    def draw_element(self, path):
        self.path = tuple(path)
        self.seen.append(path[-1])
        draw.Draw.draw_element(self, path)


def sheet_rules(path):
    """the rules of a sheet file, read without the package's parser: commented lines,
    [(line, [(name, attribute, value, data)], settings)]"""
    f = file(path)
    out = []
    comments = []
    no = 0
    for line in f.readlines():
        no = no + 1
        if line.startswith('#'):
            comments.append(no)
            continue    # meant as a comment; the package reads it as a rule, which a later one overrides
        a, b = line.find('{'), line.rfind('}')
        if a < 0 or b < a:
            continue
        selectors = []
        for word in line[:a].split():
            data = None
            if ':data(' in word:
                word, rest = word.split(':data(')
                data = rest.split(')')[0]
            attr = val = None
            if '[' in word:
                word, rest = word.split('[')
                attr, val = rest.split(']')[0].split('=')
            selectors.append((word, attr, val, data))
        settings = {}
        for item in line[a + 1:b].split(';'):
            if ':' in item:
                k = item.index(':')
                settings[item[:k].strip()] = item[k + 1:].split()[0]
        out.append((no, selectors, settings))
    f.close()
    return comments, out


def selected(sel, e):
    name, attr, val, data = sel
    if e.name != name:
        return False
    if attr is not None and e.attributes.get(attr) is None:
        return False
    if attr is not None and str(e.attributes[attr]) != val:
        return False
    if data is not None:
        words = [x for x in e.children if isinstance(x, str)]
        return len(words) == 1 and words[0] == data
    return True


def c31_board(c, kind):
    """a board with the fields of the given kind arbitrary"""
    you, him = [0] * 25, [0] * 25
    d = dict(game_state=1)
    if kind == 'stack':
        i = c.choice('point', c.param('points'))
        n = c.int('n', 1, 15)
        if c.choice('side', (YOU, HIM) if c.param('sides', 2) == 2 else (i % 2,)) == YOU:
            you[i] = n
            him[23 - (i + 1) % 24 if i < 24 else 24] = 2
        else:
            him[i] = n
            you[23 - (i + 1) % 24 if i < 24 else 24] = 2
    else:
        you[5], him[5] = 15, 15
    if kind == 'home':
        who = c.choice('side', (YOU, HIM))
        (you, him)[who][5] = 15 - c.int('n', 1, 15)
    if kind == 'match':
        s0, s1, length = 3, 3, 7
        which = c.choice('which', ('you', 'him', 'length', 'crawford'))
        if which == 'you':
            s0 = c.int('v', 0, c.param('top'))
        elif which == 'him':
            s1 = c.int('v', 0, c.param('top'))
        elif which == 'length':
            length = c.int('v', 0, c.param('top'))
        d.update(score=(s0, s1), match_length=length, crawford=c.choice('crawford', (False, True)))
    if kind == 'dice':
        who = c.choice('who', (YOU, HIM))
        d.update(on_action=who, on_inner_action=who, rolled=(c.int('d0', 1, 6), c.choice('d1', c.param('second'))))
    if kind == 'cube':
        who = c.choice('who', (YOU, HIM))
        offer = c.choice('offer', (False, True))
        d.update(on_action=who, on_inner_action=1 - who if offer else who, doubled=offer,
                 cube_in_logarithm=c.int('log', 0, 12), cube_owner=c.choice('owner', (YOU, HIM, CENTER)))
    if kind == 'resign':
        who = c.choice('who', (YOU, HIM))
        d.update(on_action=who, on_inner_action=1 - who, resign_offer=c.choice('resign', (1, 2, 3)))
        if c.choice('rolled', (False, True)):
            d.update(rolled=(c.int('d0', 1, 6), 2))
    return Board(position=(tuple(you), tuple(him)), **d)


def styled(b, rules):
    t = base.ElementTree(b)
    rules.apply(t)
    return [(p[-1].name, p[-1].css_lineno[:], sorted([(k, v.get()) for k, v in p[-1].attributes.items()])) for p in walk(t.board)]


def c31_loads(c):
    """a sheet means what its file says, whatever else was loaded or used before"""
    def path(name):
        return theme.themata + '/' + name + '/default.css'
    first, then = path(c.param('theme')), path(c.choice('then', c.param('themes')))
    b = BoardEditor(rolled=(2, 5))
    if c.param('who'):
        b.on_action = c.choice('who', (YOU, HIM))
    plain = {}
    for name in (first, then):
        rules, p, no = css.Binder(), css.CSSParser(), 0
        f = file(name)
        for line in f.readlines():
            no += 1
            r = p.rule(name, no, line)
            if r:
                rules.append(r)
        f.close()
        plain[name] = styled(b, rules)
    one = css.load(first)
    two = css.load(then)
    c.check(styled(b, two) == plain[then], 'the second sheet loaded')
    c.check(styled(b, one) == plain[first], 'the first sheet loaded')
    for k in ('die', 'board'):
        one.append(css.CSSParser().rule(first, 999, k + ' {x: 977; y: 978}'))
    c.check(styled(b, one) != plain[first], 'one more rule')
    c.check(styled(b, css.load(then)) == plain[then], 'the second sheet loaded again')
    c.check(styled(b, css.load(first)) == plain[first], 'the first sheet loaded again')
    c.see(plain[then])
    c.reach('end')


def c31_theme(c):
    """any board drawn with a shipped sheet: as its rules say, inside the picture"""
    kind = c.param('kind')
    path = theme.themata + '/' + c.param('theme') + '/default.css'
    b = c31_board(c, kind)
    size = c.choice('size', c.param('sizes'))
    canvas = Canvas(css.load(path))
    painted = canvas.draw(b, size)
    board = canvas.seen[0]
    c.check(board.name == 'board' and int(board.width * board.mag) <= size[0]
            and int(board.height * board.mag) <= size[1], 'scaled to fit')
    for p, k, x, y, w, h, what in painted:
        c.check(0 <= x and 0 <= y and x + w <= size[0] and y + h <= size[1], 'painted inside the picture')
    paths = walk(board)
    c.check(len(paths) == len(canvas.seen), 'every element visited')
    # the settings of every element are those of the sheet's rules, the later rule deciding
    rules = {}
    comments, found = sheet_rules(path)
    for no, selectors, settings in found:
        rules.setdefault(selectors[-1][0], []).append((no, selectors, settings))
    for i in range(len(paths)):
        p = paths[i]
        e = p[-1]
        c.check(canvas.seen[i] is e, 'in order')
        lines = []
        want = {}
        for no, selectors, settings in rules.get(e.name, ()):
            if not selected(selectors[-1], e):
                continue
            rest = selectors[:-1]
            for a in reversed(p[:-1]):
                if rest and selected(rest[-1], a):
                    rest = rest[:-1]
            if not rest:
                lines.append(no)
                want.update(settings)
        c.check([x for x in e.css_lineno if x not in comments] == lines, 'exactly the matching rules')
        for name in want:
            v = getattr(e, name)
            text = want[name]
            if name in ('image', 'font'):
                text = path[:path.rindex('/') + 1] + text.split('"')[1]
            elif name in ('flip', 'fill', 'hide_count'):
                text = text != 'False'
            elif type(v) is int:
                text = int(text)
            c.check(v == text and type(v) is type(text), 'the setting of the last rule')
    # points do not cover one another
    boxes = [(e.x, e.y, e.width, e.height) for e in canvas.seen if e.name == 'point']
    for i in range(24):
        for j in range(i):
            p, q = boxes[i], boxes[j]
            c.check(p[0] + p[2] <= q[0] or q[0] + q[2] <= p[0] or p[1] + p[3] <= q[1] or q[1] + q[3] <= p[1],
                    'points apart')
    # every stack is shown at its place in its owner's look
    looks = {}
    for s in canvas.seen:
        if s.name != 'chequer':
            continue
        mine = [q for q in painted if q[0][-1] is s]
        place = s.parent
        if place.name == 'home' and not mine:
            continue
        count = int(s.children[0])
        bits = [q for q in mine if q[1] != 'text']
        c.check(len(bits) == min(count, s.max_count), 'as many chequers as there are, up to the maximum')
        px, py, pw, ph = [int(v * board.mag) for v in (place.x, place.y, place.width, place.height)]
        q = bits[0]
        c.check(px - 1 <= q[2] and q[2] + q[4] <= px + pw + 1 and py - 1 <= q[3] and q[3] + q[5] <= py + ph + 1,
                'the first chequer in its place')
        for q in bits:
            c.check(q[6] == bits[0][6], 'all alike')
        looks.setdefault(s.player, []).append(bits[0][6])
        if len(mine) > len(bits):
            c.check(mine[-1][6][0] == str(count) and len(mine) == len(bits) + 1 and count > s.max_count, 'the count')
    for p in looks.get('you', ()):
        for q in looks.get('him', ()):
            c.check(p != q, 'the sides look different')
    if kind == 'dice':
        dice = [q for q in painted if q[0][-1].name == 'die']
        c.check(len([e for e in canvas.seen if e.name == 'die']) == 2, 'two dice')
        c.check(len(dice) >= 2, 'the dice are shown')
    c.see([q[1:6] for q in painted])
    c.reach('end')
