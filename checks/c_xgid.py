# C14 and C13: XGID.
import lib
from lib import *
from bglib.encoding import xgid, gnubgid
import bglib.encoding

LETTERS = '-ABCDEFGHIJKLMNOabcdefghijklmno'
GOOD = ['-b----E-C---eE---c-e----B-', '0', '0', '1', '52', '0', '0', '0', '5', '10']


def his_count(ch):
    o = ord(ch)
    return o - 96 if o >= 97 and o <= 111 else 0


def your_count(ch):
    o = ord(ch)
    return o - 64 if o >= 65 and o <= 79 else 0


def c14_position(c):
    s = c.chars('p', 26, LETTERS)
    lower, upper = xgid.decode_position(s)
    c.check(len(lower) == 25 and len(upper) == 25, 'two sides of 25 locations')
    ok = True
    for i in range(25):
        # the upper case side sees the text from left to right, its bar last
        ok = ok and upper[i] == your_count(s[i + 1])
    c.check(ok, 'upper case side')
    ok = True
    for i in range(25):
        ok = ok and lower[i] == his_count(s[24 - i])
    c.check(ok, 'lower case side')
    c.see((lower, upper))
    c.reach('end')


def c14_board(c):
    s = c.chars('p', 26, LETTERS)
    cube = c.int('cube', 0, 12)
    owner = c.choice('owner', (-1, 0, 1))
    turn = c.choice('turn', (-1, 1))
    dice = c.chars('die', 2, '0123456')
    ys = c.int('ys', 0, 99)
    hs = c.int('hs', 0, 99)
    flag = c.choice('flag', (0, 1))
    length = c.int('length', 0, 99)
    top = c.int('max', 0, 12)
    text = ':'.join([s, str(cube), str(owner), str(turn), dice, str(ys), str(hs), str(flag), str(length), str(top)])
    # a board that held something else before
    b = BoardEditor(position=INITIAL_POSITION, crawford=True, cube_owner=0, cube_in_logarithm=5, rolled=(3, 3),
                    score=(7, 8), match_length=77, on_action=0, on_inner_action=1, game_state=0)
    xgid.decode(b, text)
    you, him = b.position
    ok = True
    for i in range(25):
        ok = ok and you[i] == his_count(s[24 - i]) and him[i] == your_count(s[i + 1])
    c.check(ok, 'position')
    c.check(b.cube_in_logarithm == cube, 'cube value')
    c.check(b.cube_owner == {-1: YOU, 0: CENTER, 1: HIM}[owner], 'cube owner')
    c.check(b.on_action == {-1: YOU, 1: HIM}[turn], 'turn')
    c.check(b.on_inner_action == b.on_action, 'decision')
    c.check(b.rolled == (ord(dice[0]) - 48, ord(dice[1]) - 48), 'dice')
    c.check(b.score == (hs, ys), 'scores')
    c.check(b.match_length == length, 'match length')
    if length == 0:
        c.check(b.crawford == False, 'no Crawford game in money play')
    else:
        c.check(b.crawford == (flag == 1), 'Crawford flag')
    c.check(b.game_state == ON_GOING, 'game state')
    c.see((b.position, b.score, b.rolled, b.crawford))
    c.reach('end')


# ---------------------------------------------------------------- C13
def attempt(c, text):
    """decoding ends in a value or a documented error"""
    b = BoardEditor()
    try:
        xgid.decode(b, text)
        return b
    except bglib.encoding.DecodeError:
        return None
    except bglib.encoding.InconsistentData:
        return None


def no_colon(c, s):
    for ch in s:
        c.assume(ch != ':')


def digit(ch):
    o = ord(ch)
    return o >= 48 and o <= 57


def plain_number(s):
    """optional sign and digits"""
    r = len(s) > 0
    for i in range(len(s)):
        if i == 0 and len(s) > 1:
            r = r and (digit(s[0]) or s[0] == '-' or s[0] == '+')
        else:
            r = r and digit(s[i])
    return r


def outside(s):
    """characters no spelling of a number has"""
    r = False
    for ch in s:
        o = ord(ch)
        r = r or (o > 32 and o < 127 and not (o >= 48 and o <= 57) and o != 43 and o != 45)
    return r


def c13_field(c):
    """one field is any text, the others are in order"""
    k = c.param('field')
    n = c.param('n')
    f = c.chars('f', n)
    no_colon(c, f)
    parts = list(GOOD)
    parts[k] = f
    b = attempt(c, ':'.join(parts))
    c.see(b is None)
    if b is None:
        if k in (1, 5, 6, 8) and n > 0:
            c.check(not (plain_number(f) and f[0] != '-'), 'a plain number is accepted')
        if k in (2, 3, 7):
            c.check(f != '1', 'a plain flag is accepted')
        c.reach('refused')
        return
    if k in (1, 2, 3, 5, 6, 7, 8):
        c.check(n > 0, 'empty number refused')
        c.check(not outside(f), 'non-numeric number refused')
    if k in (2, 3, 7) and n == 1:
        c.check(f == '1' or (k != 3 and f == '0'), 'unknown owner, turn or flag refused')
    if k in (2, 3, 7) and n == 2 and plain_number(f):
        c.check(f[1] == '1' or (k != 3 and f[1] == '0'), 'unknown owner, turn or flag refused')
        c.check(f[0] == '0' or f[0] == '+' or (f[0] == '-' and k != 7) or f == '-0',
                'unknown owner, turn or flag refused')
    if k == 8 and n > 1 and plain_number(f) and f[0] == '-':
        v = False
        for ch in f[1:]:
            v = v or ch != '0'
        c.check(not v, 'negative match length refused')
    if k == 4:
        c.check(n == 2, 'roll has two dice')
        c.check(digit(f[0]) and digit(f[1]), 'dice are digits')
    if k == 0:
        c.check(n == 26, 'position has 26 characters')
    c.check(b.match_length >= 0, 'match length of a decoded board')
    c.check(b.cube_owner == YOU or b.cube_owner == HIM or b.cube_owner == CENTER, 'owner of a decoded board')
    c.check(b.on_action == YOU or b.on_action == HIM, 'turn of a decoded board')
    c.reach('accepted')


def c13_short(c):
    """any short text"""
    n = c.param('n')
    s = c.chars('s', n)
    b = attempt(c, s)
    c.check(b is None, 'too short a text is refused')
    c.reach('end')


def c13_count(c):
    """any number of fields but ten"""
    n = c.param('n')
    f = [c.chars('f%d_' % i, 1) for i in range(n)]
    for x in f:
        no_colon(c, x)
    b = attempt(c, ':'.join(f))
    c.check(b is None, 'wrong number of fields is refused')
    c.reach('end')


def c13_two(c):
    """two fields are any text of one character"""
    i = c.param('i')
    j = c.choice('j', range(i + 1, 10))
    parts = list(GOOD)
    for k in (i, j):
        parts[k] = c.chars('f%d_' % k, 1)
        no_colon(c, parts[k])
    b = attempt(c, ':'.join(parts))
    c.see(b is None)
    if b is not None:
        c.check(i != 0 and j != 4 and i != 4, 'position and roll of the wrong length refused')
        ok = True
        for k in (i, j):
            if k != 9:
                ok = ok and digit(parts[k])
        c.check(ok, 'non-numeric number refused')
    c.reach('end')


def c13_pid(c):
    """position IDs over an alphabet with every kind of character"""
    n = c.param('n')
    s = c.param('head', '') + c.chars('s', n, c.param('alphabet'))
    try:
        p = gnubgid.decode_position(s)
    except TypeError:
        c.reach('refused')
        return
    except bglib.encoding.DecodeError:
        c.reach('refused')
        return
    c.see(p)
    c.check(len(p) == 2 and len(p[0]) == 25 and len(p[1]) == 25, 'complete position')
    c.check('=' not in s, 'padding refused')
    c.reach('accepted')
