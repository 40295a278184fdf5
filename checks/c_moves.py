# C01-C06: moves and dice
from bglib.model import Board, BoardEditor, PartialMove, Move, MoveFactory, AvailableToPlay
from bglib.model.constants import *
import lib


def sides(e):
    if e.on_action == 0:
        return e.position[0], e.position[1]
    return e.position[1], e.position[0]


def c01_apply(c):
    pos = lib.position(c, valid=False)
    who = c.choice('who', (0, 1))
    kw = lib.board_kw(c, pos, who)
    e = lib.editor(**kw)
    src = c.int('src', 0, 24)
    dest = c.int('dest', -1, 23)
    hit = c.bool('hit')
    c.assume(src > dest)
    if who == 0:
        mine, theirs = pos
    else:
        theirs, mine = pos
    pm = PartialMove(c.int('die', 1, 6), src, dest, hit)
    if c.truth(hit):
        c.assume(dest >= 0)
        hit = True
    else:
        hit = False
    pm.is_hitting = hit
    e.make_partial_move(pm)
    if who == 0:
        m2, t2 = e.position
    else:
        t2, m2 = e.position
    c.see(e.position)
    c.check(isinstance(e.position, tuple) and isinstance(m2, tuple) and isinstance(t2, tuple), 'tuples')
    c.check(len(m2) == 25 and len(t2) == 25, 'sizes')
    for i in range(25):
        want = mine[i]
        want = want - (src == i and 1 or 0)
        want = want + (dest == i and 1 or 0)
        c.check(m2[i] == want, 'mover count')
        w2 = theirs[i]
        if hit:
            w2 = w2 - (dest == 23 - i and 1 or 0)
            if i == 24:
                w2 = w2 + 1
        c.check(t2[i] == w2, 'opponent count')
    for f in lib.FIELDS:
        if f != 'position':
            c.check(getattr(e, f) == kw[f], 'field ' + f)
    inv = PartialMove(pm.die, pm.dest, pm.src, hit)
    c.check(inv.is_undo(), 'inverse is an undo')
    c.check(not pm.is_undo(), 'move is no undo')
    e.make_partial_move(inv)
    c.check(e.position == pos, 'inverse restores')
    c.see(e.position)
    if hit:
        c.reach('hit')
    elif c.truth(dest == -1):
        c.reach('off')
    else:
        c.reach('plain')


def c01_make(c):
    pos = lib.position(c, valid=False)
    who = c.choice('who', (0, 1))
    e = lib.editor(position=pos, on_action=who)
    f = lib.editor(position=pos, on_action=who)
    mv = Move()
    pms = []
    for k in range(c.param('n')):
        src = c.int('src%d' % k, 0, 24)
        dest = c.int('dest%d' % k, -1, 23)
        c.assume(src > dest)
        hit = c.truth(c.bool('hit%d' % k))
        if hit:
            c.assume(dest >= 0)
        pms.append(PartialMove(c.int('die%d' % k, 1, 6), src, dest, hit))
    for pm in pms:
        mv.append(pm)
    e.make(mv)
    for pm in pms:
        f.make_partial_move(pm)
    c.check(e.position == f.position, 'make applies the moves in order')
    c.see(e.position)
    for pm in reversed(pms):
        e.make_partial_move(PartialMove(pm.die, pm.dest, pm.src, pm.is_hitting))
    c.check(e.position == pos, 'inverses in reverse order restore')
    c.reach('end')


# ---------------------------------------------------------------- C02, C03
def factory(c, pos, who):
    rolled, left, used = lib.dice(c, c.param('deep'))
    e = lib.editor(position=pos, on_action=who, on_inner_action=who, rolled=rolled, game_state=ON_GOING)
    mf = MoveFactory(e)
    for d in used:
        mf.available.consume(d)
    return mf, e, rolled, left


def left_of(mf):
    return dict(mf.available.items())


def asked_only(c, mf, e, pos, rolled, left):
    c.check(e.position == pos, 'asking leaves the position')
    c.check(e.rolled == rolled, 'asking leaves the roll')
    c.check(left_of(mf) == left, 'asking leaves the dice')
    c.check(len(mf.move) == 0, 'asking plays nothing')


def c02(c):
    pos = lib.position(c, valid=False)
    who = c.param('who')
    mine, theirs = lib.mine_theirs(pos, who)
    mf, e, rolled, left = factory(c, pos, who)
    src = c.int('src', 0, 24)
    pm = mf.guess_your_single_pm_from_source(src)
    asked_only(c, mf, e, pos, rolled, left)
    avail = [d for d in (6, 5, 4, 3, 2, 1) if left[d] > 0]
    if pm:
        c.check(pm.die in avail, 'die is available')
        c.check(pm.src == src, 'starts at the source')
        c.check(lib.legal(mine, theirs, src, pm.die), 'move is legal')
        want = src - pm.die
        if c.truth(want < 0):
            c.check(pm.dest == -1, 'borne off')
            c.check(not pm.is_hitting, 'no hit when bearing off')
            c.reach('bear off')
        else:
            c.check(pm.dest == want, 'lands a die away')
            c.check(bool(pm.is_hitting) == lib.hits(theirs, want), 'hit flag')
            c.reach('move')
        for d in avail:
            if d > pm.die:
                c.check(not lib.legal(mine, theirs, src, d), 'highest legal die')
        c.see((pm.die, pm.src, pm.dest, bool(pm.is_hitting)))
    else:
        c.check(pm is None or isinstance(pm, MoveFactory.Error), 'refusal is an error')
        for d in avail:
            c.check(not lib.legal(mine, theirs, src, d), 'no legal move missed')
        c.see('refused')
        c.reach('refused')


def c02_given(c):
    # a board and dice passed in are only read
    pos = lib.position(c, valid=False)
    who = c.param('who')
    mine, theirs = lib.mine_theirs(pos, who)
    d = c.concrete(c.int('die', 1, 6))
    e = lib.editor(position=pos, on_action=who, rolled=(d, d))
    f = lib.editor(position=INITIAL_POSITION, on_action=who, rolled=(1, 2))
    mf = MoveFactory(f)
    av = AvailableToPlay(rolled=(d, d))
    for i in range(3):
        av.consume(d)
    src = c.int('src', 0, 24)
    if c.param('way') == 'src':
        pm = mf.guess_your_single_pm_from_source(src, e, av)
    else:
        pm = mf.guess_your_single_pm_from_dest(src - 1, e, av)
    c.check(av[d] == 1 and len(av) == 1, 'given dice are only read')
    c.check(e.position == pos and f.position == INITIAL_POSITION, 'given board is only read')
    if pm:
        c.check(lib.legal(mine, theirs, pm.src, d), 'legal on the given board')
        c.reach('move')
    else:
        c.reach('refused')


def c03(c):
    pos = lib.position(c, valid=False)
    who = c.param('who')
    mine, theirs = lib.mine_theirs(pos, who)
    mf, e, rolled, left = factory(c, pos, who)
    if c.param('off'):
        dest = -1
    else:
        dest = c.int('dest', 0, 23)
    pm = mf.guess_your_single_pm_from_dest(dest)
    asked_only(c, mf, e, pos, rolled, left)
    avail = [d for d in (6, 5, 4, 3, 2, 1) if left[d] > 0]
    if pm:
        c.check(pm.die in avail, 'die is available')
        c.check(pm.dest == dest, 'reaches the destination')
        c.check(pm.src >= 0 and pm.src <= 24, 'source on the board')
        c.check(lib.legal(mine, theirs, pm.src, pm.die), 'move is legal')
        if c.param('off'):
            c.check(pm.src < pm.die, 'die is large enough')
            c.check(not pm.is_hitting, 'no hit when bearing off')
        else:
            c.check(pm.src == dest + pm.die, 'a die away')
            c.check(bool(pm.is_hitting) == lib.hits(theirs, dest), 'hit flag')
        c.see((pm.die, pm.src, pm.dest, bool(pm.is_hitting)))
        c.reach('move')
    else:
        c.check(pm is None or isinstance(pm, MoveFactory.Error), 'refusal is an error')
        for d in avail:
            if c.param('off'):
                for s in range(d):
                    c.check(not lib.legal(mine, theirs, s, d), 'no legal bear-off missed')
            else:
                c.check(not (dest + d <= 24 and lib.legal(mine, theirs, clip(dest + d), d)), 'no legal move missed')
        c.see('refused')
        c.reach('refused')


def clip(n):
    if n > 24:
        return 24
    return n


# ---------------------------------------------------------------- C04
def play(mine, theirs, pm):
    mine[pm.src] -= 1
    if pm.dest >= 0:
        mine[pm.dest] += 1
        if pm.is_hitting:
            theirs[23 - pm.dest] -= 1
            theirs[24] += 1


def c04_moves(c):
    pos = lib.position(c, valid=False)
    who = c.param('who')
    mine, theirs = lib.mine_theirs(pos, who)
    mine, theirs = list(mine), list(theirs)
    mf, e, rolled, left = factory(c, pos, who)
    n = 0
    for d in left:
        n = n + left[d]
    c.assume(n <= c.param('n'))
    src = c.int('src', 0, 24)
    dest = c.int('dest', -1, 23)
    c.assume(src > dest)
    mv = mf.guess_your_multiple_pms(src, dest)
    asked_only(c, mf, e, pos, rolled, left)
    if mv:
        pms = list(mv)
        c.check(pms[0].src == src, 'begins at the source')
        at = src
        for pm in pms:
            c.check(pm.src == at, 'legs join')
            c.check(pm.die in (1, 2, 3, 4, 5, 6), 'a die')
            left[pm.die] -= 1
            c.check(left[pm.die] >= 0, 'no more dice than remain')
            c.check(lib.legal(mine, theirs, at, pm.die), 'leg is legal')
            to = at - pm.die
            if c.truth(to < 0):
                c.check(pm.dest == -1 and not pm.is_hitting, 'borne off')
                to = -1
            else:
                c.check(pm.dest == to, 'lands a die away')
                c.check(bool(pm.is_hitting) == lib.hits(theirs, to), 'hit flag')
            play(mine, theirs, pm)
            at = to
        c.check(at == dest, 'ends at the destination')
        c.see([(pm.die, pm.src, pm.dest, bool(pm.is_hitting)) for pm in pms])
        if len(pms) > 1:
            c.reach('several dice')
        else:
            c.reach('one die')
    else:
        c.check(mv is None or isinstance(mv, MoveFactory.Error), 'refusal is an error')
        c.reach('refused')
        c.see('refused')


def c04_undo(c):
    pos = lib.position(c, valid=False)
    who = c.param('who')
    die = c.param('die')
    e = lib.editor(position=pos, on_action=who, rolled=die)
    mv = Move()
    kept = []
    for k in range(c.param('n')):
        d = die[k % 2]
        s = c.int('s%d' % k, 0, 24)
        off = c.truth(s < d)
        hit = not off and c.truth(c.bool('hit%d' % k))
        pm = PartialMove(d, s, off and -1 or s - d, hit)
        kept.append(pm)
        mv.append(pm)
    mf = MoveFactory(e, move=mv)
    c.check(len(mf.move) == len(kept), 'moves are kept')
    src = c.int('src', -1, 23)
    dest = c.int('dest', 0, 24)
    c.assume(src < dest)
    before = left_of(mf)
    got = mf.guess_your_multiple_partial_undoes(src, dest)
    c.check(e.position == pos, 'asking leaves the position')
    c.check(left_of(mf) == before, 'asking leaves the dice')
    now = list(mf.move)
    c.check(len(now) == len(kept), 'asking leaves the kept moves')
    for a, b in zip(now, kept):
        c.check(a is b, 'asking leaves the kept moves')
    if got:
        at = src
        left = list(kept)
        for pm in got:
            c.check(pm.src == at, 'chain joins')
            c.check(pm.dest > pm.src, 'takes back')
            for k in left:
                if k.are_invertible_element(pm):
                    left.remove(k)
                    break
            else:
                c.fail('inverse of a move played')
            at = pm.dest
        c.check(at == dest, 'ends at the destination')
        c.see([(pm.die, pm.src, pm.dest, bool(pm.is_hitting)) for pm in got])
        if len(got) > 1:
            c.reach('several')
        else:
            c.reach('one')
    else:
        c.reach('refused')
        c.see('refused')


def c04_point(c):
    # asking how to make a point
    pos = lib.position(c, valid=False)
    who = c.param('who')
    mine, theirs = lib.mine_theirs(pos, who)
    mine, theirs = list(mine), list(theirs)
    d0, d1 = c.param('dice')
    e = lib.editor(position=pos, on_action=who, rolled=(d0, d1))
    mf = MoveFactory(e)
    before = left_of(mf)
    left = dict(before)
    dest = c.int('dest', 0, 23)
    pms = mf.guess_your_making_point(dest)
    asked_only(c, mf, e, pos, (d0, d1), before)
    if pms:
        c.check(len(pms) == 2, 'two moves make a point')
        for pm in pms:
            left[pm.die] -= 1
            c.check(left[pm.die] >= 0, 'no more dice than remain')
            c.check(lib.legal(mine, theirs, pm.src, pm.die), 'move is legal')
            c.check(pm.dest == dest and pm.src == dest + pm.die, 'reaches the point')
            c.check(bool(pm.is_hitting) == lib.hits(theirs, dest), 'hit flag')
            play(mine, theirs, pm)
        c.reach('made')
    else:
        c.reach('refused')


# ---------------------------------------------------------------- C05
def c05(c):
    pos = lib.position(c, valid=False)
    who = c.param('who')
    d0, d1 = c.param('dice')
    e = lib.editor(position=pos, on_action=who, rolled=(d0, d1))
    mf = MoveFactory(e)
    total = {1: 0, 2: 0, 3: 0, 4: 0, 5: 0, 6: 0}
    if d0 == d1:
        total[d0] = 4
    else:
        total[d0] = 1
        total[d1] = 1
    kept = []
    values = [d0]
    if d0 != d1:
        values.append(d1)
    other = 1
    while other in values:
        other += 1
    values.append(other)
    for k in range(c.param('n')):
        op = c.choice('op%d' % k, ('play', 'back'))
        if op == 'play':
            d = c.choice('die%d' % k, values)
            s = c.int('s%d' % k, 0, 24)
            off = c.truth(s < d)
            hit = not off and c.truth(c.bool('hit%d' % k))
            pm = PartialMove(d, s, off and -1 or s - d, hit)
            used = 0
            for p in kept:
                used += p.die == d and 1 or 0
            if used < total[d]:
                mf.append(pm)
                kept.append(pm)
                c.reach('played')
            else:
                try:
                    mf.append(pm)
                    refused = False
                except Exception:
                    refused = True
                c.check(refused, 'unavailable die is refused')
                c.reach('refused')
        else:
            if not kept:
                c.assume(False)
            p = c.choice('which%d_%d' % (k, len(kept)), kept)
            mf.append(PartialMove(p.die, p.dest, p.src, p.is_hitting))
            # the latest equal move goes
            for q in reversed(kept):
                if q.are_invertible_element(PartialMove(p.die, p.dest, p.src, p.is_hitting)):
                    kept = [x for x in kept if x is not q]
                    break
            c.reach('taken back')
        now = list(mf.move)
        c.check(len(now) == len(kept), 'kept moves')
        for a, b in zip(now, kept):
            c.check(a.die == b.die and a.src == b.src and a.dest == b.dest and a.is_hitting == b.is_hitting,
                    'kept moves')
        left = left_of(mf)
        for d in (1, 2, 3, 4, 5, 6):
            used = 0
            for p in kept:
                used += p.die == d and 1 or 0
            c.check(left[d] + used == total[d], 'dice used plus dice left is the roll')
        c.check(len(mf.available) + len(kept) == total[d0] + (d0 != d1 and 1 or 0), 'number of dice')
        c.check(e.rolled == (d0, d1), 'roll stays')
        mine, theirs = lib.mine_theirs(pos, who)
        mine, theirs = list(mine), list(theirs)
        for p in kept:
            play(mine, theirs, p)
        if who == 0:
            c.check(e.position == (tuple(mine), tuple(theirs)), 'position is the start with the kept moves')
        else:
            c.check(e.position == (tuple(theirs), tuple(mine)), 'position is the start with the kept moves')
    c.see(e.position)
    c.see(sorted(left_of(mf).items()))


def c05_copy(c):
    # a factory started from given moves and dice keeps its own
    who = c.param('who')
    pos = lib.position(c, valid=False)
    e = lib.editor(position=pos, on_action=who, rolled=(5, 2))
    mv = Move()
    s = c.int('s', 2, 24)
    mv.append(PartialMove(2, s, s - 2, False))
    av = AvailableToPlay(rolled=(5, 2))
    av.consume(2)
    mf = MoveFactory(e, move=mv, available=av)
    c.check(len(mf.move) == 1 and left_of(mf) == dict(av.items()), 'starts from what it is given')
    t = c.int('t', 5, 24)
    mf.append(PartialMove(5, t, t - 5, False))
    c.check(len(mv) == 1 and av[5] == 1, 'given moves and dice are its own')
    c.check(len(mf.move) == 2 and mf.available[5] == 0, 'plays')
    mf.append(PartialMove(2, s - 2, s, False))
    c.check(len(mv) == 1 and av[2] == 0, 'given moves and dice are its own')
    c.check(len(mf.move) == 1 and mf.available[2] == 1, 'takes back')
    b = AvailableToPlay(copy_src=mf.available)
    b.consume(2)
    b.add(5)
    c.check(mf.available[2] == 1 and mf.available[5] == 0, 'copies are independent')
    c.reach('end')


# ---------------------------------------------------------------- C06
def sparse(c, k, points):
    """the mover's chequers stand on at most k chosen points"""
    mine = [0] * 25
    last = -1
    for i in range(k):
        p = c.concrete(c.int('p%d' % i, 0, 24))
        c.assume(p > last)
        last = p
        mine[p] = c.int('n%d' % i, 0, 15)
        points.append(p)
    return tuple(mine)


def opponents(c, points, rolled):
    if rolled[0] == rolled[1]:
        return lib.side(c, 't', 15, None)
    rest = c.choice('rest', (0, 2))
    theirs = [rest] * 24 + [c.int('tbar', 0, 15)]
    for s in points:
        for d in (rolled[0], rolled[1], rolled[0] + rolled[1]):
            if s - d >= 0:
                theirs[23 - (s - d)] = c.int('t%d' % (s - d), 0, 15)
    return tuple(theirs)


def some_legal(mine, theirs, d):
    r = False
    for s in range(25):
        r = r or lib.legal(mine, theirs, s, d)
    return r


def c06(c):
    who = c.param('who')
    rolled = c.param('dice')
    points = []
    mine = sparse(c, c.param('k'), points)
    theirs = opponents(c, points, rolled)
    pos = who == 0 and (mine, theirs) or (theirs, mine)
    e = lib.editor(position=pos, on_action=who, on_inner_action=who, rolled=rolled, game_state=ON_GOING)
    kw = dict([(f, getattr(e, f)) for f in lib.FIELDS])
    mf = MoveFactory(e)
    for d in c.param('used', ()):
        mf.available.consume(d)
    left = left_of(mf)
    ok = mf.is_leagal_to_pickup_dice()
    for f in lib.FIELDS:
        c.check(getattr(e, f) == kw[f], 'asking leaves ' + f)
    c.check(left_of(mf) == left and len(mf.move) == 0, 'asking leaves the dice and the moves')
    dice = [d for d in (1, 2, 3, 4, 5, 6) if left[d] > 0]
    can = False
    for d in dice:
        can = can or some_legal(mine, theirs, d)
    if not dice:
        c.check(ok, 'all dice used')
        c.reach('all used')
    else:
        c.check(not (can and ok), 'not while a die can be played')
        c.check(can or ok, 'a dance may end the turn')
    c.see(bool(ok))
    if ok:
        c.reach('may')
        mf.pickupdice()
        c.check(e.rolled == (0, 0), 'no dice rolled')
        c.check(e.on_action == 1 - who and e.on_inner_action == 1 - who, 'turn passes')
        c.check(e.position == pos, 'picking up leaves the position')
        for f in lib.FIELDS:
            if f not in ('rolled', 'on_action', 'on_inner_action'):
                c.check(getattr(e, f) == kw[f], 'picking up leaves ' + f)
    else:
        c.reach('may not')
        refused = False
        try:
            mf.pickupdice()
        except AssertionError:
            refused = True
        c.check(refused, 'picking up is refused')
        c.check(e.rolled == rolled and e.on_action == who, 'refusal changes nothing')


def c06_after(c):
    # part of the roll has been played: the answer leaves everything alone and
    # never frees a player who can still move
    who = c.param('who')
    rolled = c.param('dice')
    points = []
    mine = sparse(c, c.param('k'), points)
    theirs = opponents(c, points, rolled)
    pos = who == 0 and (mine, theirs) or (theirs, mine)
    e = lib.editor(position=pos, on_action=who, on_inner_action=who, rolled=rolled, game_state=ON_GOING)
    mf = MoveFactory(e)
    d = c.param('first')
    s = c.int('s', d, 24)
    c.assume(lib.legal(mine, theirs, s, d))
    s = c.concrete(s)
    hit = c.truth(lib.hits(theirs, s - d))
    pm = PartialMove(d, s, s - d, hit)
    mf.append(pm)
    at = e.position
    left = left_of(mf)
    ok = mf.is_leagal_to_pickup_dice()
    c.check(e.position == at, 'asking leaves the position')
    c.check(e.rolled == rolled and e.on_action == who and e.on_inner_action == who, 'asking leaves the board')
    c.check(left_of(mf) == left and [p is pm for p in mf.move] == [True], 'asking leaves the dice and the moves')
    m2, t2 = lib.mine_theirs(at, who)
    can = False
    for x in left:
        if left[x] > 0:
            can = can or some_legal(m2, t2, x)
    c.check(not (can and ok), 'not while a die can be played')
    c.see(bool(ok))
    if ok:
        c.reach('may')
    else:
        c.reach('may not')
