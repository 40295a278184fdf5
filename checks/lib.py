# Shared parts of the harnesses: arbitrary boards and an independent statement
# of the rules of backgammon.  Runs translated (symbolic) and under Jython.
from bglib.model import Board, BoardEditor
from bglib.model.constants import *

YOU_, HIM_, CENTER_ = 0, 1, 3


def side(c, name, hi=15, total=None, n=25):
    xs = tuple([c.int('%s%d' % (name, i), 0, hi) for i in range(n)])
    if total is not None:
        s = 0
        for x in xs:
            s = s + x
        c.assume(s <= total)
    return xs


def disjoint(c, a, b):
    # no point is held by both sides
    for i in range(24):
        c.assume(a[i] == 0 or b[23 - i] == 0)


def position(c, valid=True):
    a = side(c, 'y', 15, valid and 15 or None)
    b = side(c, 'h', 15, valid and 15 or None)
    if valid:
        disjoint(c, a, b)
    return (a, b)


FIELDS = ('position', 'cube_in_logarithm', 'cube_owner', 'on_action', 'crawford', 'game_state', 'on_inner_action',
          'doubled', 'resign_offer', 'rolled', 'match_length', 'score')


def board_kw(c, pos, who=None):
    if who is None:
        who = c.choice('who', (0, 1))
    owner = c.int('owner', 0, 3)
    c.assume(owner != 2)
    return dict(position=pos,
                cube_in_logarithm=c.int('cube', 0, 15),
                cube_owner=owner,
                on_action=who,
                crawford=c.bool('crawford'),
                game_state=c.int('game_state', 0, 4),
                on_inner_action=c.int('inner', 0, 1),
                doubled=c.bool('doubled'),
                resign_offer=c.int('resign', 0, 3),
                rolled=(c.int('d0', 0, 6), c.int('d1', 0, 6)),
                match_length=c.int('length', 0, 200),
                score=(c.int('s0', 0, 200), c.int('s1', 0, 200)))


def same_fields(a, b, skip=()):
    r = True
    for f in FIELDS:
        if f in skip:
            continue
        r = r and getattr(a, f) == getattr(b, f)
    return r


def editor(**kw):
    # BoardEditor's constructor drops None only; build one holding exactly kw
    e = BoardEditor()
    for k in kw:
        setattr(e, k, kw[k])
    return e


# ------------------------------------------------------------ rules of play
def mine_theirs(pos, who):
    if who == 0:
        return pos[0], pos[1]
    return pos[1], pos[0]


def in_home(mine):
    # every chequer of the side stands on its six home points
    r = True
    for i in range(6, 25):
        r = r and mine[i] == 0
    return r


def none_behind(mine, src, n=6):
    # no chequer on home points above src
    r = True
    for i in range(n):
        r = r and (i <= src or mine[i] == 0)
    return r


def legal(mine, theirs, src, die):
    """one chequer from src with die is a legal backgammon move"""
    dest = src - die
    r = mine[src] >= 1 and (mine[24] == 0 or src == 24)
    land = True
    for p in range(24):
        land = land and (dest != p or theirs[23 - p] < 2)
    off = dest == -1 or none_behind(mine, src)
    return r and land and (dest >= 0 or (in_home(mine) and off))


def hits(theirs, dest):
    r = False
    for p in range(24):
        r = r or (dest == p and theirs[23 - p] == 1)
    return r


def b_max(a, b):
    if a > b:
        return a
    return b


def dice(c, deep=False):
    """rolled dice and the number of each die value left in the turn"""
    d0 = c.concrete(c.int('d0', 1, 6))
    d1 = c.concrete(c.int('d1', 1, 6))
    if not deep:
        c.assume(d0 >= d1)
    left = {1: 0, 2: 0, 3: 0, 4: 0, 5: 0, 6: 0}
    used = []
    if d0 == d1:
        k = c.choice('used', (0, 1, 2, 3, 4))
        left[d0] = 4 - k
        used = [d0] * k
    else:
        if deep or (d0, d1) in ((6, 1), (3, 2)):
            k = c.choice('used2', (0, 1, 2, 3))
        else:
            k = 0
        if k & 1:
            used.append(d0)
        else:
            left[d0] = 1
        if k & 2:
            used.append(d1)
        else:
            left[d1] = 1
    return (d0, d1), left, used
