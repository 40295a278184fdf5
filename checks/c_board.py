# C07-C10, C15, C30: boards, rules of the cube, notation
from bglib.model import Board, BoardEditor
from bglib.model import util
from bglib.model.constants import *
import lib


def ask(f, *a):
    try:
        return f(*a)
    except AssertionError:
        return 'refused'


def same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if a is None or b is None:
        return a is None and b is None
    return bool(a) == bool(b)


# ---------------------------------------------------------------- C07
def c07_flip(c):
    pos = lib.position(c, valid=False)
    kw = lib.board_kw(c, pos)
    e = lib.editor(**kw)
    e.flip()
    sw = {0: 1, 1: 0, 3: 3}
    c.check(e.position == (pos[1], pos[0]), 'positions swap')
    c.check(e.score == (kw['score'][1], kw['score'][0]), 'scores swap')
    c.check(e.on_action == 1 - kw['on_action'], 'player on turn swaps')
    c.check(e.on_inner_action == 1 - kw['on_inner_action'], 'player to decide swaps')
    o = kw['cube_owner']
    c.check(e.cube_owner == (o == 3 and 3 or (o == 0 and 1 or 0)), 'cube owner swaps')
    for f in lib.FIELDS:
        if f not in ('position', 'score', 'on_action', 'on_inner_action', 'cube_owner'):
            c.check(getattr(e, f) == kw[f], 'flip leaves ' + f)
    e.flip()
    for f in lib.FIELDS:
        c.check(getattr(e, f) == kw[f], 'flip twice is the same board: ' + f)
    c.see(e.cube_owner)
    c.reach('end')


def both(c, pos=None):
    if pos is None:
        pos = lib.position(c, valid=False)
    kw = lib.board_kw(c, pos)
    e = lib.editor(**kw)
    g = lib.editor(**kw)
    g.flip()
    return e, g, kw


QUESTIONS = ('is_leagal_to_roll', 'is_leagal_to_move', 'is_leagal_to_double', 'is_cube_take_or_pass',
             'is_leagal_to_redouble', 'is_leagal_to_resign', 'is_to_accept_resign')


def c07_who(c):
    q = c.param('q')
    e, g, kw = both(c, (c.param('any'), c.param('any')))
    for who in (YOU, HIM):
        a = ask(getattr(e, q), who)
        b = ask(getattr(g, q), 1 - who)
        c.check(same(a, b), q + ' is the same on the swapped board')
        c.see(a)
        if a == 'refused' or not a:
            c.reach('no')
        else:
            c.reach('yes')
    c.check(e.has_rolled() == g.has_rolled(), 'has_rolled')
    if e.has_rolled():
        c.check(e.is_doubles() == g.is_doubles(), 'is_doubles')


def c07_point(c):
    q = c.param('q')
    e, g, kw = both(c)
    n = c.int('n', c.param('lo'), c.param('hi'))
    args = [n]
    if q == 'is_ok_to_bearoff_from':
        args.append(c.int('die', 1, 6))
    if q == 'find_src_of_bearoff_with':
        c.assume(n >= 1 and n <= 6)
    a = ask(getattr(e, q), *args)
    b = ask(getattr(g, q), *args)
    if q == 'find_src_of_bearoff_with' or q == 'has_chequer_to_move':
        c.check((a is None) == (b is None) and (a is None or a == b), q + ' is the same on the swapped board')
    else:
        c.check(same(a, b), q + ' is the same on the swapped board')
    c.see(a)
    if a is None or not a:
        c.reach('no')
    else:
        c.reach('yes')


# ---------------------------------------------------------------- C08
def c08_ask(c):
    pos = (c.param('any'), c.param('any'))
    kw = lib.board_kw(c, pos)
    e = lib.editor(**kw)
    who = c.choice('asked', (0, 1))
    mine = kw['on_action'] == who and kw['on_inner_action'] == who
    fresh = kw['rolled'][0] == 0 and kw['rolled'][1] == 0
    quiet = kw['resign_offer'] == 0
    going = kw['game_state'] == ON_GOING
    value = 1
    for i in range(kw['cube_in_logarithm']):
        value = value * 2
    a = ask(e.is_leagal_to_roll, who)
    c.check(bool(a) == (mine and fresh and quiet and going), 'who may roll')
    a = ask(e.is_leagal_to_move, who)
    c.check(bool(a) == (mine and not fresh and quiet and going), 'who may move')
    a = ask(e.is_leagal_to_double, who)
    use = kw['match_length'] == 0 or kw['score'][who] + value < kw['match_length']
    may = mine and fresh and going and not kw['crawford'] and not kw['doubled'] and use
    c.check((a != 'refused' and bool(a)) == may, 'who may double')
    if may:
        c.reach('may double')
    a = ask(e.is_cube_take_or_pass, who)
    offered = kw['doubled'] and kw['on_inner_action'] != kw['on_action'] and kw['on_inner_action'] == who
    c.check(bool(a) == offered, 'who may take or pass')
    a = ask(e.is_leagal_to_redouble, who)
    c.check(bool(a) == (offered and kw['match_length'] == 0), 'who may redouble')
    a = ask(e.is_leagal_to_resign, who)
    c.check(bool(a) == mine, 'who may resign')
    a = ask(e.is_to_accept_resign, who)
    c.check(bool(a) == (not quiet and kw['on_inner_action'] == who), 'who answers a resignation')
    for f in lib.FIELDS:
        c.check(getattr(e, f) == kw[f], 'asking leaves ' + f)
    c.reach('end')


def c08_act(c):
    pos = (c.param('any'), c.param('any'))
    kw = lib.board_kw(c, pos)
    e = lib.editor(**kw)
    who = c.choice('actor', (0, 1))
    opp = 1 - who
    act = c.param('act')
    value = 1
    for i in range(kw['cube_in_logarithm']):
        value = value * 2
    mine = kw['on_action'] == who and kw['on_inner_action'] == who
    score = kw['score']
    want = dict(kw)
    if act == 'double':
        may = mine and kw['rolled'] == (0, 0) and kw['game_state'] == ON_GOING and not kw['crawford'] \
            and not kw['doubled'] and (kw['match_length'] == 0 or score[who] + value < kw['match_length'])
        want.update(on_inner_action=opp, doubled=True)
        f, a = e.double, (who,)
    elif act == 'take' or act == 'drop':
        may = kw['doubled'] and kw['on_inner_action'] != kw['on_action'] and kw['on_inner_action'] == who
        if act == 'take':
            want.update(on_inner_action=kw['on_action'])
            f, a = e.take, (who,)
        else:
            s = [score[0], score[1]]
            s[opp] = s[opp] + value
            want.update(game_state=DOUBLED_OUT, score=tuple(s))
            f, a = e.drop, (who,)
    elif act == 'resign':
        how = c.int('how', -1, 5)
        may = mine and how >= 1 and how <= 3
        want.update(resign_offer=how, on_inner_action=opp)
        f, a = e.offer_resign, (who, how)
    else:
        may = kw['resign_offer'] != 0 and kw['on_inner_action'] == who
        if act == 'accept':
            s = [score[0], score[1]]
            s[who] = s[who] + kw['resign_offer'] * value
            want.update(game_state=RESIGNED, score=tuple(s))
            f, a = e.accept_resign, (who,)
        else:
            want.update(resign_offer=0, on_inner_action=opp)
            f, a = e.reject_resign, (who,)
    refused = False
    try:
        f(*a)
    except AssertionError:
        refused = True
    if refused:
        c.check(not may, act + ' is allowed')
        want = kw
        c.reach('refused')
    else:
        c.check(may, act + ' is refused')
        c.reach('done')
    for f in lib.FIELDS:
        c.check(getattr(e, f) == want[f], act + ': ' + f)
    c.see((refused, e.score, e.on_inner_action))


def c08_offer(c):
    # whole exchange: offer, who may act meanwhile, answer
    pos = (c.param('any'), c.param('any'))
    kw = lib.board_kw(c, pos)
    who = kw['on_action']
    opp = 1 - who
    kw['on_inner_action'] = who
    kw['game_state'] = ON_GOING
    kw['resign_offer'] = 0
    kw['doubled'] = False
    kw['rolled'] = (0, 0)
    e = lib.editor(**kw)
    kind = c.choice('kind', ('double', 'resign'))
    if kind == 'double':
        c.assume(e.is_leagal_to_double(who))
        e.double(who)
    else:
        e.offer_resign(who, c.int('how', 1, 3))
    # nobody but the opponent, nothing but an answer
    for p in (0, 1):
        c.check(not e.is_leagal_to_roll(p), 'no roll while an offer is pending')
        c.check(not e.is_leagal_to_double(p), 'no double while an offer is pending')
        c.check(not e.is_leagal_to_resign(p), 'no resignation while an offer is pending')
        c.check(bool(e.is_cube_take_or_pass(p)) == (kind == 'double' and p == opp), 'only the opponent takes or drops')
        c.check(bool(e.is_to_accept_resign(p)) == (kind == 'resign' and p == opp), 'only the opponent answers')
    c.check(e.score == kw['score'] and e.game_state == ON_GOING, 'an offer costs nothing')
    yes = c.truth(c.bool('yes'))
    if kind == 'double':
        if yes:
            e.take(opp)
            c.reach('take')
        else:
            e.drop(opp)
            c.reach('drop')
    elif yes:
        e.accept_resign(opp)
        c.reach('accept')
    else:
        e.reject_resign(opp)
        c.reach('reject')
    if (kind == 'double') == yes:
        c.check(e.on_inner_action == who and e.on_action == who, 'decision goes back')
        c.check(e.score == kw['score'] and e.game_state == ON_GOING, 'scores untouched')
        c.check(e.is_leagal_to_roll(who), 'game goes on')
    else:
        loser = opp
        if kind == 'resign':
            loser = who
        c.check(e.score[loser] == kw['score'][loser], "loser's score never changes")
        c.check(e.score[1 - loser] > kw['score'][1 - loser], 'winner gains')
        c.check(e.game_state in (DOUBLED_OUT, RESIGNED), 'game is over')
        c.check(not e.is_leagal_to_roll(0) and not e.is_leagal_to_roll(1), 'nobody rolls on')
    c.see(e.score)


# ---------------------------------------------------------------- C09
def c09_board(c):
    pos = lib.position(c, valid=False)
    kw = lib.board_kw(c, pos)
    for k in c.param('leave', ()):
        del kw[k]
    b = Board(**kw)
    for f in lib.FIELDS:
        if f in kw:
            c.check(getattr(b, f) == kw[f], 'takes ' + f)
        else:
            c.check(getattr(b, f) == DEFAULTS[f], 'default ' + f)
    other = c.param('change')
    try:
        setattr(b, other, 1)
        c.fail('boards cannot be changed')
    except TypeError:
        pass
    try:
        b.no_such_field = 1
        c.fail('boards take no new fields')
    except TypeError:
        pass
    for f in lib.FIELDS:
        c.check(getattr(b, f) == kw.get(f, DEFAULTS[f]), 'refused change leaves ' + f)
    try:
        Board(no_such_field=3)
        c.fail('unknown fields are refused')
    except AssertionError:
        pass
    e = BoardEditor(b)
    g = e.freeze()
    c.check(isinstance(g, Board), 'frozen is a board')
    c.check(g == b, 'frozen board equals')
    c.check(not (g != b), 'frozen board is not different')
    h = BoardEditor(e).freeze()
    c.check(h == b, 'editor of an editor')
    c.check(hash(h) == hash(b), 'equal boards hash alike')
    c.reach('end')


DEFAULTS = dict(position=INITIAL_POSITION, cube_in_logarithm=0, cube_owner=3, on_action=0, crawford=False,
                game_state=0, on_inner_action=0, doubled=False, resign_offer=0, rolled=(0, 0), match_length=0,
                score=(0, 0))


def c09_equal(c):
    # two arbitrary boards
    k1 = lib.board_kw(c, (lib.side(c, 'y', n=25), lib.side(c, 'h', n=25)), c.choice('who', (0, 1)))
    k2 = dict(k1)
    f = c.param('field')
    if f == 'position':
        k2[f] = (lib.side(c, 'y2', n=25), lib.side(c, 'h2', n=25))
    elif f == 'rolled':
        k2[f] = (c.int('d0x', 0, 6), c.int('d1x', 0, 6))
    elif f == 'score':
        k2[f] = (c.int('s0x', 0, 200), c.int('s1x', 0, 200))
    elif f in ('crawford', 'doubled'):
        k2[f] = c.bool('flagx')
    elif f == 'none':
        pass
    else:
        k2[f] = c.int('valx', 0, 200)
    kind = c.param('kind')
    if kind == 'board':
        a, b = Board(**k1), Board(**k2)
    else:
        a, b = lib.editor(**k1), lib.editor(**k2)
    eq = a == b
    ne = a != b
    want = True
    for x in lib.FIELDS:
        want = want and k1[x] == k2[x]
    c.check(bool(eq) == want, 'equal exactly when all fields are')
    c.check(bool(ne) == (not want), 'different is not equal')
    c.check(a == a and not (a != a), 'equal to itself')
    if want:
        c.reach('equal')
    else:
        c.reach('different')
    c.see((bool(eq), bool(ne)))


def c09_editor(c):
    pos = lib.position(c, valid=False)
    kw = lib.board_kw(c, pos)
    b = Board(**kw)
    e = BoardEditor(b)
    e2 = BoardEditor(e)
    frozen = e.freeze()
    f = c.param('field')
    v = VALUES[f]
    setattr(e, f, v)
    for x in lib.FIELDS:
        want = kw[x]
        if x == f:
            want = v
        c.check(getattr(e, x) == want, 'editing one field: ' + x)
        c.check(getattr(b, x) == kw[x], 'board stays: ' + x)
        c.check(getattr(frozen, x) == kw[x], 'frozen board stays: ' + x)
        c.check(getattr(e2, x) == kw[x], 'other editor stays: ' + x)
        c.check(getattr(e.freeze(), x) == want, 'freezing the edit: ' + x)
    c.check(BoardEditor().freeze() == Board(), 'standard values')
    # moves too
    from bglib.model import PartialMove
    e2.make_partial_move(PartialMove(1, 5, 4, False))
    for x in lib.FIELDS:
        c.check(getattr(b, x) == kw[x], 'board stays after a move: ' + x)
        if x != 'position':
            c.check(getattr(e2, x) == kw[x], 'a move leaves ' + x)
    args = {f: v}
    d = BoardEditor(b, **args)
    for x in lib.FIELDS:
        want = kw[x]
        if x == f:
            want = v
        c.check(getattr(d, x) == want, 'field given to the editor: ' + x)
        c.check(getattr(b, x) == kw[x], 'board stays: ' + x)
    c.reach('end')


VALUES = dict(position=((1,) * 25, (2,) * 25), cube_in_logarithm=5, cube_owner=1, on_action=1, crawford=True,
              game_state=2, on_inner_action=1, doubled=True, resign_offer=2, rolled=(6, 3), match_length=25,
              score=(3, 4))


# ---------------------------------------------------------------- C10
def c10_points(c):
    who = c.choice('who', (0, 1))
    n = c.int('n', -1, 24)
    s = util.position_ntop(n, who)
    c.check(isinstance(s, str), 'text')
    c.check(util.position_pton(s, who) == n, 'position text reads back')
    t = util.move_ntop(n)
    c.check(util.move_pton(t) == n, 'move text reads back')
    c.see((s, t))
    if n >= 0 and n < 24:
        c.check(util.position_pton(s, 1 - who) == util.flip_point(n), 'seen from the other side')
        other = util.position_ntop(util.flip_point(n), 1 - who)
        c.check(other == s, 'one text per point')
        mine, his = int(util.position_ntop(n, who)), int(util.position_ntop(n, 1 - who))
        c.check(mine + his == 25, 'the two numbers add up to 25')
        c.check(util.flip_point(util.flip_point(n)) == n, 'flip twice')
        c.check(int(t) == n + 1, 'move text is the point number')
        c.reach('point')
    else:
        c.reach('bar or off')


def c10_distinct(c):
    who = c.choice('who', (0, 1))
    n = c.int('n', -1, 24)
    m = c.int('m', -1, 24)
    c.assume(n < m)
    c.check(util.position_ntop(n, who) != util.position_ntop(m, who), 'different texts')
    c.check(util.move_ntop(n) != util.move_ntop(m), 'different move texts')
    c.reach('end')


def c10_refuse(c):
    who = c.choice('who', (0, 1))
    n = c.int('n', 25, 4000)
    for f, a in ((util.position_ntop, (n, who)), (util.move_ntop, (n,)), (util.get_opp, (n,))):
        try:
            f(*a)
            c.fail('number outside the board is refused')
        except ValueError:
            pass
    k = c.int('k', -4000, 4000)
    # 0 and 25 are documented as undefined in move notation
    c.assume(k < 0 or k > 25)
    s = str(k)
    for f, a in ((util.position_pton, (s, who)), (util.move_pton, (s,))):
        try:
            f(*a)
            c.fail('text outside the board is refused')
        except ValueError:
            pass
    for s in ('0', '25'):
        try:
            util.position_pton(s, who)
            c.fail('text outside the board is refused')
        except ValueError:
            pass
    c.reach('end')


def c10_text(c):
    # any short text: read as a point only if it denotes one
    who = c.choice('who', (0, 1))
    s = c.chars('t', c.param('n'), c.param('alphabet'))
    try:
        p = util.position_pton(s, who)
    except ValueError:
        p = None
    try:
        m = util.move_pton(s)
    except ValueError:
        m = None
    if p is not None:
        c.check(p >= -1 and p <= 24, 'a location')
        if p >= 0 and p < 24:
            c.check(int(s) == int(util.position_ntop(p, who)), 'the point it denotes')
        c.reach('read')
    if m is not None:
        c.check(m >= -1 and m <= 24, 'a location')
    c.check(util.get_opp(util.get_opp(who)) == who and util.get_opp(who) != who, 'opponent')
    c.see((p, m))
    c.reach('end')
