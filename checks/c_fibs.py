# C16: FIBS board lines.
import lib
from lib import *
from bglib.encoding import FIBS


def two(a, b):
    return [str(a), str(b)]


def line(c, cells, turn, colour, direction, dice_you, dice_him, cube, may, doubled, length, score, rest):
    f = ['board', 'You', 'someone', str(length), str(score[0]), str(score[1])]
    f = f + [str(x) for x in cells]
    f = f + [str(turn)]
    f = f + [str(x) for x in dice_you] + [str(x) for x in dice_him]
    f = f + [str(cube), str(may[0]), str(may[1]), str(doubled), str(colour), str(direction)]
    f = f + (direction < 0 and ['0', '25'] or ['25', '0'])
    f = f + [str(x) for x in rest]
    return ':'.join(f)


def cells_of(you, him, colour, direction):
    """the 26 numbers FIBS sends for a position (its own description of them)"""
    r = [0] * 26
    for i in range(25):
        if direction < 0:
            # you move from 24 to 1: point n is index n, your bar is 25, his is 0
            at, his = i + 1, 24 - i
        else:
            at, his = 24 - i, i + 1
        r[at] = r[at] + colour * you[i]
        r[his] = r[his] - colour * him[i]
    return r


def full(c, m, you, him, colour, direction, whose):
    cube = c.choice('cube', [1 << i for i in c.param('cubes', (0, 1, 6))])
    turn = {'you': colour, 'him': -colour, 'none': 0}[whose]
    may = (c.choice('may0', (0, 1)), c.choice('may1', (0, 1)))
    doubled = c.choice('was', (0, 1))
    length = c.int('length', 0, 9999)
    score = (c.int('ys', 0, 9999), c.int('hs', 0, 9999))
    dy = (c.int('y1', 0, 6), c.int('y2', 0, 6))
    dh = (c.int('h1', 0, 6), c.int('h2', 0, 6))
    rest = [c.int('r%d' % i, 0, 15) for i in range(8)]
    s = line(c, cells_of(you, him, colour, direction), turn, colour, direction, dy, dh, cube, may, doubled, length,
             score, rest)
    FIBS.decode(m, s)
    c.check(m.position == (you, him), 'chequers where the line says')
    c.check((1 << m.cube_in_logarithm) == cube, 'cube value')
    if may[0] and not may[1]:
        c.check(m.cube_owner == YOU, 'cube owner')
    elif may[1] and not may[0]:
        c.check(m.cube_owner == HIM, 'cube owner')
    else:
        c.check(m.cube_owner == CENTER, 'cube owner')
    c.check(m.crawford == (not may[0] and not may[1]), 'Crawford game')
    if whose == 'you':
        c.check(m.on_action == YOU and m.rolled == dy and m.game_state == ON_GOING, 'your turn and dice')
        c.check(m.on_inner_action == (HIM if doubled else YOU), 'who decides')
    elif whose == 'him':
        c.check(m.on_action == HIM and m.rolled == dh and m.game_state == ON_GOING, 'his turn and dice')
        c.check(m.on_inner_action == (YOU if doubled else HIM), 'who decides')
    else:
        c.check(m.game_state == FINISHED and m.rolled == (0, 0), 'nobody on turn: the game is over')
    c.check(m.doubled == (doubled == 1), 'doubled flag')
    c.check(m.resign_offer == RESIGN_NONE, 'no resignation')
    c.check(m.match_length == length, 'match length')
    c.check(m.score == score, 'scores')
    c.see((m.position, m.rolled, m.score, m.match_length, m.doubled, m.on_action, m.on_inner_action, m.cube_owner))


OLD = dict(position=INITIAL_POSITION, crawford=True, cube_owner=0, cube_in_logarithm=5, rolled=(3, 3), doubled=True,
           resign_offer=2, score=(7, 8), match_length=77, on_action=0, on_inner_action=1, game_state=3)


def c16_state(c):
    """every state of the match; one lop-sided position"""
    you = (3, 0, 0, 0, 0, 5, 0, 3, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1)
    him = (0, 1, 0, 0, 2, 5, 0, 3, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2)
    m = BoardEditor(**OLD)
    full(c, m, you, him, c.param('colour'), c.param('direction'), c.choice('whose', ('you', 'him', 'none')))
    c.reach('end')


def c16_position(c):
    """every position"""
    you = lib.side(c, 'y', 15)
    him = lib.side(c, 'h', 15)
    lib.disjoint(c, you, him)
    colour, direction = c.param('colour'), c.param('direction')
    if c.param('signs', None):
        # which locations are whose is fixed; the counts are not
        pass
    s = line(c, cells_of(you, him, colour, direction), colour, colour, direction, (3, 1), (0, 0), 1, (1, 1), 0, 5,
             (1, 2), [0] * 8)
    m = BoardEditor(**OLD)
    FIBS.decode(m, s)
    ok = True
    for i in range(25):
        ok = ok and m.position[0][i] == you[i] and m.position[1][i] == him[i]
    c.check(ok, 'chequers where the line says')
    c.check(len(m.position[0]) == 25 and len(m.position[1]) == 25, 'complete position')
    # the same position described from the other direction and in the other colour
    s2 = line(c, cells_of(you, him, -colour, -direction), -colour, -colour, -direction, (3, 1), (0, 0), 1, (1, 1), 0,
              5, (1, 2), [0] * 8)
    m2 = BoardEditor(**OLD)
    FIBS.decode(m2, s2)
    c.check(m2 == m, 'mirrored descriptions decode alike')
    c.see(m.position)
    c.reach('end')
