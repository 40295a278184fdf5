# C15: the database byte form of boards.
import lib
from lib import *
from bglib.encoding import dbbyte


def sgn(s, i):
    o = ord(s[i])
    return o - 256 if o > 127 else o


def c15_position(c):
    a = lib.side(c, 'y', 127)
    b = lib.side(c, 'h', 127)
    lib.disjoint(c, a, b)
    s = dbbyte.encode_position((a, b))
    c.check(len(s) == 26, 'position is 26 bytes')
    ok = True
    for i in range(26):
        n = 0
        if i > 0:
            n = a[i - 1]
        if i < 25:
            n = n - b[24 - i]
        ok = ok and sgn(s, i) == n
    c.check(ok, 'one signed count per location')
    c.check(dbbyte.decode_position(s) == (a, b), 'bytes turn back into the position')
    c.see(s)
    c.reach('end')


def c15_bytes(c):
    # any 26 bytes a position can have: your counts, his negative
    s = c.chars('s', 26)
    for i in range(26):
        c.assume(s[i] != '\x80')
    c.assume(sgn(s, 0) <= 0)
    c.assume(sgn(s, 25) >= 0)
    p = dbbyte.decode_position(s)
    c.check(dbbyte.encode_position(p) == s, 'position turns back into the bytes')
    c.see(p)
    c.reach('end')


def c15_board(c):
    who = c.param('who')
    a = lib.side(c, 'y', 15)
    b = lib.side(c, 'h', 15)
    lib.disjoint(c, a, b)
    kw = lib.board_kw(c, (a, b), who)
    m = Board(**kw)
    e = dbbyte.DatabaseBytesExpression(m)
    c.check(len(e.position) == 26, 'position is 26 bytes')
    if who == 0:
        mine, theirs = a, b
    else:
        mine, theirs = b, a
    ok = True
    for i in range(26):
        n = 0
        if i > 0:
            n = mine[i - 1]
        if i < 25:
            n = n - theirs[24 - i]
        ok = ok and sgn(e.position, i) == n
    c.check(ok, 'signed counts from the view of the player on turn')
    for k in FIELDS:
        if k != 'position':
            c.check(getattr(e, k) == getattr(m, k), 'field kept: ' + k)
    r = e.tomodel()
    for k in FIELDS:
        c.check(getattr(r, k) == kw[k], 'field restored: ' + k)
    c.check(r == m, 'equal board')
    c.see(e.position)
    c.reach('end')


def c15_default(c):
    e = dbbyte.DatabaseBytesExpression()
    c.check(e.tomodel() == Board(), 'default board')
    try:
        e.score = (1, 1)
        c.fail('immutable')
    except TypeError:
        pass
    try:
        e.nothing
        c.fail('no other attribute')
    except AttributeError:
        pass
    c.reach('end')


def c15_distance(c):
    n = c.param('n')
    x = c.chars('x', n)
    y = c.chars('y', n)
    d = dbbyte.distance(x, y)
    s = 0
    for i in range(n):
        t = sgn(x, i) - sgn(y, i)
        s = s + t * t
    c.check(d == s, 'distance is the sum of squared differences')
    if n <= 2:
        c.check(dbbyte.distance(y, x) == d, 'distance is symmetric')
        c.check((d == 0) == (x == y), 'distance is zero exactly for equal positions')
    c.check(dbbyte.distance(x, x) == 0, 'distance to itself')
    c.see(d)
    c.reach('end')
