# C34: moves, dice and boards combined, copied and printed.
# C35: the XML written for a board, and the DTD it follows.
import copy
from bglib.model import Board, BoardEditor, PartialMove, Move, MoveFactory, AvailableToPlay, util
from bglib.model.constants import *
from bglib.image import base, css
import lib
from c_image import make, declared, KINDS, CONTENT


def part(c, k, back=False):
    """a chequer moved forward (or taken back) between any two locations"""
    s, d = c.int('s%s' % k, -1, 24), c.int('d%s' % k, -1, 24)
    if back and c.choice('back%s' % k, (False, True)):
        c.assume(s < d)
    else:
        c.assume(s > d)
    return PartialMove(c.int('die%s' % k, 1, 6), s, d, c.truth(c.bool('hit%s' % k)))


def told(p):
    return (p.die, p.src, p.dest, p.is_hitting)


def c34_print(c):
    """the text of a move is its parts in order, each readable"""
    n = c.param('n')
    parts = [part(c, k) for k in range(n)]
    m = Move()
    for p in parts:
        m.append(p)
    c.check(len(m) == n and [told(p) for p in m] == [told(p) for p in parts], 'keeps its parts in order')
    s = str(m)
    if n == 0:
        c.check(s == 'o-o', 'no move')
    else:
        words = s.split(', ')
        c.check(len(words) == n, 'one word for each part')
        for w, p in zip(words, parts):
            c.check(w == str(p), 'the text of the part')
            hit = w[-1:] == '*'
            c.check(hit == p.is_hitting, 'a star for a hit')
            ends = (w[:-1] if hit else w).split('/')
            c.check(len(ends) == 2, 'from and to')
            c.check(util.move_pton(ends[0]) == p.src and util.move_pton(ends[1]) == p.dest, 'the points moved between')
            c.check(str(p) in repr(p) and repr(p) in repr(m), 'shown when inspected')
            c.check(p.is_undo() == (p.dest > p.src) and not p.is_dance(), 'forward')
    c.see(s)
    c.reach('end')


def c34_add(c):
    """adding a move is adding its parts; taking everything back leaves nothing"""
    a, b, one = Move(), Move(), Move()
    want = []
    for k in range(c.param('n')):
        p = part(c, 'a%d' % k)
        a.append(p)
        one.append(p)
        want.append(told(p))
    for k in range(c.param('m')):
        b.append(part(c, 'b%d' % k, back=True))
    before = [told(p) for p in b]
    same = Move(src=a)
    for p in b:
        one.append(p)
        for k in range(len(want) - 1, -1, -1):
            d, s, t, h = want[k]
            if d == p.die and s == p.dest and t == p.src and h == p.is_hitting:
                want.pop(k)
                break
        else:
            want.append(told(p))
    c.check(a.add(b) is None, 'nothing else')
    c.check([told(p) for p in a] == want, 'a part taken back leaves the latest part it undoes, and nothing else')
    c.check([told(p) for p in a] == [told(p) for p in one], 'as if appended one by one')
    c.check([told(p) for p in b] == before, 'what is added stays')
    c.check(len(same) == c.param('n'), 'a copy stays')
    back = Move()
    for p in reversed(list(a)):
        back.append(PartialMove(p.die, p.dest, p.src, p.is_hitting))
    if len(back) == len(a):
        a.add(back)
        c.check(len(a) == 0 and not a and str(a) == 'o-o', 'taken back, nothing is left')
        c.reach('taken back')
    c.see([told(p) for p in one])
    c.reach('end')


def c34_factory(c):
    """a factory plays a move as its parts, and leaves the move alone"""
    pos = lib.position(c, valid=False)
    who = c.choice('who', (0, 1))
    dice = c.param('dice')
    e, f = (lib.editor(position=pos, on_action=who, rolled=dice) for i in (0, 1))
    mv = Move()
    for k in range(c.param('n')):
        d = dice[k % 2]
        s = c.int('s%d' % k, d, 24)
        mv.append(PartialMove(d, s, s - d, c.truth(c.bool('hit%d' % k))))
    one, two = MoveFactory(e), MoveFactory(f)
    failed = [None, None]
    try:
        one.add(mv)
    except ValueError, x:
        failed[0] = str(x)
    try:
        for p in mv:
            two.append(p)
    except ValueError, x:
        failed[1] = str(x)
    c.check(failed[0] == failed[1], 'refused alike')
    c.check(e.position == f.position, 'the same board')
    c.check([told(p) for p in one.move] == [told(p) for p in two.move], 'the same move')
    c.check(one.available.items() == two.available.items(), 'the same dice left')
    c.check(len(mv) == c.param('n'), 'the move stays')
    c.see(e.position)
    c.reach('end')


def c34_handed(c):
    """a factory handed a move and the dice left goes on where the other one stands"""
    dice = c.param('dice')
    pos = lib.position(c, valid=False)
    one = MoveFactory(lib.editor(position=pos, on_action=c.choice('who', (0, 1)), rolled=dice))
    n = c.param('n')
    for k in range(n):
        d = dice[k % 2]
        s = c.int('s%d' % k, d, 24)
        try:
            one.append(PartialMove(d, s, s - d, c.truth(c.bool('hit%d' % k))))
        except ValueError:
            c.fail('the dice rolled can be played')
    two = MoveFactory(BoardEditor(one.board), one.move, one.available)
    left = one.available.items()
    c.check(two.available.items() == left and len(two.available) == len(one.available), 'the same dice left')
    c.check([told(p) for p in two.move] == [told(p) for p in one.move], 'the same move')
    before = [told(p) for p in one.move]
    last = list(two.move)[-1]
    two.append(PartialMove(last.die, last.dest, last.src, last.is_hitting))
    c.check(len(two.move) == n - 1 and two.available[last.die] == one.available[last.die] + 1, 'one part taken back')
    c.check([told(p) for p in one.move] == before and one.available.items() == left, 'the other one stays')
    c.see(one.board.position)
    c.reach('end')


def c34_dice(c):
    d0, d1 = c.int('d0', 0, 6), c.int('d1', 0, 6)
    c.assume((d0 == 0) == (d1 == 0))
    a = AvailableToPlay(rolled=(d0, d1))
    want = {}
    for i in range(1, 7):
        want[i] = 0
    if d0 == 0:
        c.reach('not rolled')
    elif d0 == d1:
        want[c.concrete(d0)] = 4
    else:
        want[c.concrete(d0)] = 1
        want[c.concrete(d1)] = 1
    for k in range(c.param('n')):
        d = c.concrete(c.int('use%d' % k, 1, 6))
        if c.choice('op%d' % k, ('consume', 'add')) == 'add':
            a.add(d)
            want[d] += 1
        else:
            try:
                a.consume(d)
                c.check(want[d] > 0, 'only a die that is left')
                want[d] -= 1
            except ValueError, x:
                c.check(want[d] == 0 and str(d) in str(x), 'no die left of that kind')
                c.reach('refused')
    total = 0
    text = []
    for i in range(1, 7):
        total += want[i]
        text.extend([str(i)] * want[i])
        c.check((i in a) == (want[i] > 0) and a[i] == want[i], 'as many as are left')
    c.check(len(a) == total and bool(a) == (total > 0), 'counted')
    c.check(str(a) == 'Available to play: ' + ', '.join(text), 'each die as often as it is left')
    c.check(a.is_doubles() == (len([i for i in want if want[i] > 1]) > 0), 'more than one alike')
    most = [i for i in range(1, 7) if want[i] > 0]
    c.check(a.get_max() == (max(most) if most else None), 'the largest left')
    b = AvailableToPlay(copy_src=a)
    c.check(str(b) == str(a) and repr(b) == repr(a), 'a copy is the same')
    b.add(1)
    c.check(a[1] == want[1] and b[1] == want[1] + 1, 'and its own')
    c.see(str(a))
    c.reach('end')


def c34_board(c):
    """the dump of a board names every field with its value, once"""
    pos = (tuple([c.int('y%d' % i, 0, 2) if i in (0, 24) else 0 for i in range(25)]), (1,) * 15 + (0,) * 10)
    kw = lib.board_kw(c, pos)
    for k in ('cube_in_logarithm', 'match_length'):
        c.assume(kw[k] <= 12)
    c.assume(kw['score'][0] <= 12)
    c.assume(kw['score'][1] <= 12)
    b = lib.editor(**kw) if c.param('edit') else Board(**kw)
    lines = repr(b).split('\n')
    c.check(len(lines) == 14 and 'start' in lines[0] and 'end' in lines[13], 'a frame and a line for each field')
    got = {}
    for l in lines[1:13]:
        i = l.find(': ')
        got[l[:i]] = l[i + 2:]
    c.check(sorted(got) == sorted(kw), 'every field, no other')
    for k in kw:
        c.check(got[k] == str(kw[k]), 'the value of ' + k)
    if not c.param('edit'):
        d = copy.copy(b)
        c.check(d == b and not (d != b) and lib.same_fields(d, b), 'a copy is the same')
    c.see(sorted(got.items()))
    c.reach('end')


# ---------------------------------------------------------------- C35
BLANK = ' \n\t'


def text_of(c, t):
    """character data with its references replaced"""
    out = ''
    while t:
        i = t.find('&')
        if i < 0:
            return out + t
        out += t[:i]
        t = t[i:]
        for k, v in (('&lt;', '<'), ('&gt;', '>'), ('&amp;', '&'), ('&quot;', '"'), ('&apos;', "'")):
            if t[:len(k)] == k:
                out += v
                t = t[len(k):]
                break
        else:
            c.fail('a bare ampersand')
    return out


def parsed(c, t):
    """an XML element: [name, {attribute: value}, [child or text]]"""
    top = ['', {}, []]
    stack = [top]
    pieces = t.split('<')
    c.check(pieces[0].strip() == '', 'nothing before the root')
    for piece in pieces[1:]:
        if piece[:1] == '/':
            i = piece.find('>')
            c.check(i > 0, 'an end tag')
            c.check(len(stack) > 1 and stack[-1][0] == piece[1:i].rstrip(), 'closed in order')
            stack.pop(-1)
            rest = piece[i + 1:]
        else:
            e = [None, {}, []]
            segs = piece.split('"')
            k = 0
            while True:
                c.check(k < len(segs), 'a closed tag')
                words = segs[k]
                i = words.find('>')
                if i >= 0:
                    rest = '"'.join([words[i + 1:]] + segs[k + 1:])
                    words = words[:i]
                words = words.split()
                if e[0] is None:
                    c.check(len(words) > 0 and plain(words[0]), 'a start tag')
                    e[0] = words.pop(0)
                if i >= 0:
                    c.check(words == [], 'no attribute without a value')
                    break
                c.check(len(words) == 1 and words[0][-1:] == '=' and plain(words[0][:-1]), 'an attribute')
                a = words[0][:-1]
                c.check(a not in e[1], 'an attribute once')
                c.check(k + 1 < len(segs), 'an attribute value')
                e[1][a] = text_of(c, segs[k + 1])
                k += 2
            stack[-1][2].append(e)
            stack.append(e)
        if rest.strip():
            stack[-1][2].append(text_of(c, rest))
    c.check(len(stack) == 1, 'everything closed')
    return top[2]


def plain(n):
    for ch in n:
        if not (ch.isalnum() or ch in '_-'):
            return False
    return n != ''


def settled(x):
    return [x[0], sorted(x[1].items()), [settled(k) if isinstance(k, list) else k for k in x[2]]]


def dtd(c):
    """the declarations of the DTD: {element: (mixed, children, attributes)}"""
    t = base.Element.make_dtd()
    kinds, atts = {}, {}
    while t.strip():
        t = t.lstrip()
        i = t.find('>')
        c.check(t[:2] == '<!' and i > 0, 'a declaration')
        words = t[2:i].split()
        t = t[i + 1:]
        if words[0] == 'ELEMENT':
            c.check(words[1] not in kinds and len(words) == 3, 'declared once')
            m = words[2]
            c.check(m[:1] == '(' and m[-2:] == ')*', 'any number of a choice')
            m = m[1:-2].split('|')
            c.check(len(set(m)) == len(m) and '' not in m, 'a choice of different things')
            c.check('#PCDATA' not in m[1:], 'text stands first')
            kinds[words[1]] = m
        else:
            c.check(words[0] == 'ATTLIST' and words[1] not in atts, 'declared once')
            atts[words[1]] = {}
            rest = words[2:]
            c.check(len(rest) % 3 == 0, 'name, type and default')
            for k in range(0, len(rest), 3):
                c.check(rest[k] not in atts[words[1]], 'an attribute once')
                c.check(rest[k + 1] == 'CDATA' and rest[k + 2] == '#IMPLIED', 'any text, or none')
                atts[words[1]][rest[k]] = True
    c.check(sorted(kinds) == sorted(atts), 'contents and attributes of the same elements')
    for k in kinds:
        for m in kinds[k]:
            c.check(m == '#PCDATA' or m in kinds, 'every child is declared')
    return kinds, atts


def c35_dtd(c):
    kinds, atts = dtd(c)
    c.check(sorted(kinds) == sorted(KINDS), 'every kind of element')
    for k in KINDS:
        c.check(sorted([m == '#PCDATA' and 'text' or m for m in kinds[k]]) == sorted(CONTENT[k]), 'the children of each')
        c.check(sorted(atts[k]) == sorted(declared(k)), 'the attributes of each')
    c.see(sorted(kinds))
    c.reach('end')


HEAD = '<?xml version="1.0" encoding="us-ascii" ?>\n<!DOCTYPE board SYSTEM "http://dtd.wxpygammon.org/backgammon.dtd" >\n'


def valid(c, t, kinds, atts):
    c.check(t[:len(HEAD)] == HEAD, 'a prologue')
    top = [k for k in parsed(c, t[len(HEAD):]) if isinstance(k, list) or k.strip()]
    c.check(len(top) == 1 and isinstance(top[0], list) and top[0][0] == 'board', 'one root')
    todo = [top[0]]
    while todo:
        n, a, kids = todo.pop(0)
        c.check(n in kinds, 'a declared element')
        for k in a:
            c.check(k in atts[n], 'a declared attribute')
        for k in kids:
            if isinstance(k, list):
                c.check(k[0] in kinds[n], 'an allowed child')
                todo.append(k)
            elif '#PCDATA' not in kinds[n]:
                c.check(k.strip() == '', 'no text')
    return top[0]


def alike(c, x, e):
    """the XML says what the element holds"""
    c.check(x[0] == e.name, 'the element')
    c.check(sorted(x[1]) == sorted(e.attributes), 'its attributes')
    for k in x[1]:
        c.check(x[1][k] == str(e.attributes[k].get()), 'their values')
    kids = [k for k in x[2] if isinstance(k, list) or k.strip()]
    c.check(len(kids) == len(e.children), 'its contents')
    for k, m in zip(kids, e.children):
        if isinstance(k, list):
            c.check(isinstance(m, base.BaseElement), 'elements')
            alike(c, k, m)
        else:
            c.check(k.strip() == m.strip(), 'texts')


SHEET = ('board {x: 0; y: 0; width: 100; height: 80; font: uri("a.ttf"); background: green}',
         'score[player=him] {y: 40; color: red}', 'die {diestyle: numeric; eyesize: 3}',
         'chequer {max_count: 5; hide_count: True; x_offset: 2}', 'point[parity=odd] {fill: False; flip: True}')


def c35_board(c):
    """any board: valid by the DTD, and the tree it was written from"""
    kind = c.param('kind')
    you, him = [0] * 25, [0] * 25
    kw = {}
    if kind == 'stack':
        at = c.choice('at', (0, 11, 24))
        you[at] = c.int('n', 0, 15)
        him[at] = c.int('m', 0, 15)
        b = BoardEditor(position=(tuple(you), tuple(him)))
    elif kind == 'dice':
        b = BoardEditor(rolled=(c.int('d0', 1, 6), c.int('d1', 1, 6)), on_action=c.choice('who', (0, 1)))
        b.on_inner_action = b.on_action
    elif kind == 'cube':
        b = BoardEditor(cube_in_logarithm=c.int('log', 0, 12), cube_owner=c.choice('owner', (YOU, HIM, CENTER)))
    elif kind == 'score':
        b = BoardEditor(score=(c.int('s0', 0, 99), 3), match_length=c.int('length', 0, 25),
                        crawford=c.choice('crawford', (False, True)))
    else:
        who = c.choice('who', (0, 1))
        b = BoardEditor(match_length=9, score=(0, c.int('s1', 0, 8)), cube_in_logarithm=1, on_action=who,
                        on_inner_action=1 - who)
        if c.choice('what', ('double', 'resign')) == 'double':
            b.doubled = True
        else:
            b.resign_offer = c.choice('resign', (1, 2, 3))
    t = base.ElementTree(b)
    if c.choice('styled', (False, True)):
        p = css.CSSParser()
        s = css.Binder()
        for i in range(len(SHEET)):
            s.append(p.rule('a/b.css', i + 1, SHEET[i]))
        s.apply(t)
        t.board.set_mag((50, 40))
        c.reach('styled')
    kinds, atts = dtd(c)
    x = valid(c, t.xml(), kinds, atts)
    alike(c, x, t.board)
    c.see(settled(x))
    c.reach('end')


def c35_words(c):
    """any words in attributes and texts are written so that they read back"""
    b = base.ElementTree(Board())
    n = c.param('n')
    word = c.chars('w', n, c.param('alphabet'))
    where = c.choice('where', ('attribute', 'sheet', 'text'))
    e = b.field[0]
    if where == 'attribute':
        e.text = word
    elif where == 'sheet':
        c.assume(word.strip() == word)
        for ch in word:
            c.assume(ch not in ' ;]{}')
        r = css.CSSParser().rule('a/b.css', 1, 'field {text: ' + word + '}')
        css_rule = css.Binder()
        css_rule.append(r)
        css_rule.apply(b)
        c.check(e.text == word, 'as the sheet says')
    else:
        c.assume(word.strip() == word)
        e.append(word)
    kinds, atts = dtd(c)
    text = b.xml()
    x = valid(c, text, kinds, atts)
    alike(c, x, b.board)
    c.check(b.xml() == text, 'the same again')
    c.see(settled(x))
    c.reach(where)
