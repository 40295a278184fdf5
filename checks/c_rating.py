# C18: ratings.  C30: handicaps.
import lib
import rnd
from bglib.stat import rating


def near(c, a, b):
    """exact over the reals; within rounding on the real interpreter"""
    if c.symbolic:
        return a == b
    return abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b))


def leq(c, a, b):
    if c.symbolic:
        return a <= b
    return a <= b + 1e-9 * (1 + abs(a) + abs(b))


def length_of(c):
    n = c.param('n', None)
    if n is not None:
        return n
    return c.int('length', 1, 64)


def rate(c, name):
    return c.real(name, -500, 3500)


def c18_two(c):
    a = rate(c, 'a')
    b = rate(c, 'b')
    n = length_of(c)
    if a < b:
        lo, hi = a, b
    else:
        lo, hi = b, a
    up = rating.upset_chance(hi, lo, n)
    win = rating.winning_chance(hi, lo, n)
    c.check(near(c, up + win, 1), 'chances add up to 1')
    c.check(leq(c, 0, up) and leq(c, up, 1) and leq(c, 0, win) and leq(c, win, 1), 'chances are probabilities')
    c.check(leq(c, 0.5, win), 'the higher rated player is not the underdog')
    if a == b:
        c.check(near(c, up, 0.5), 'equal ratings give one half')
    else:
        if c.symbolic:
            c.check(win > 0.5, 'the higher rated player is the favourite')
    ga = rating.gain_on_win(a, b, n)
    gb = rating.gain_on_win(b, a, n)
    c.check(near(c, ga + gb, n), 'gains add up to the match length')
    c.check(leq(c, 0, ga) and leq(c, ga, n), 'gain between 0 and the match length')
    # the winner gains the length times the chance the loser had
    if a < b:
        c.check(near(c, ga, n * win), 'gain is the length times the chance of the loser')
    else:
        c.check(near(c, ga, n * up), 'gain is the length times the chance of the loser')
    c.see((a, b))
    c.reach('end')


def c18_three(c):
    """beating a higher rated opponent never gains less"""
    a = rate(c, 'a')
    b = rate(c, 'b')
    d = rate(c, 'd')
    n = length_of(c)
    c.assume(b <= d)
    c.check(leq(c, rating.gain_on_win(a, b, n), rating.gain_on_win(a, d, n)), 'higher rated opponent, no smaller gain')
    c.reach('end')


def c18_exact(c):
    """at concrete differences the chance is the published one"""
    import math
    n = c.param('n')
    lo = c.param('lo')
    d = c.choice('d', (0, 1, 7, 50, 100, 333, 1000))
    want = 1 / (10 ** (d * math.sqrt(n) / 2000) + 1)
    up = rating.upset_chance(lo + d, lo, n)
    c.check(up - want < 1e-12 and want - up < 1e-12, 'published formula')
    c.check(abs(rating.gain_on_win(lo + d, lo, n) - n * want) < 1e-9, 'published formula of the gain')
    c.check(abs(rating.gain_on_win(lo, lo + d, n) - n * (1 - want)) < 1e-9, 'published formula of the gain')
    c.see(up)
    c.reach('end')


# ---------------------------------------------------------------- C30

from bglib.stat import tourney


def money(c, name):
    return c.real(name, 0, 100000)


def c30_chance(c):
    a = rate(c, 'player')
    m = rate(c, 'average')
    k = c.param('rounds')
    n = length_of(c)
    w, r = tourney.tourney_chance(a, m, k, n)
    c.check(leq(c, 0, w) and leq(c, w, 1), 'chance to win is a probability')
    c.check(leq(c, 0, r) and leq(c, r, 1), 'chance to come second is a probability')
    c.check(leq(c, w + r, 1), 'not both')
    if a >= m:
        one = rating.winning_chance(a, m, n)
    else:
        one = rating.upset_chance(m, a, n)
    want = 1
    for i in range(k - 1):
        want = want * one
    c.check(near(c, w, want * one), 'wins every round')
    c.check(near(c, r, want * (1 - one)), 'wins all but the last round')
    c.reach('end')


def c30_prize(c):
    a = rate(c, 'player')
    m = rate(c, 'average')
    k = c.param('rounds')
    n = length_of(c)
    p = money(c, 'winner')
    q = money(c, 'runnerup')
    f = money(c, 'fee')
    w, r = tourney.tourney_chance(a, m, k, n)
    aw, ar = tourney.tourney_chance(m, m, k, n)
    x, y = tourney.prize_handicap(a, m, k, n, p, q)
    c.check(near(c, x * w, aw * p), "winner's prize times chance is the average expectation")
    c.check(near(c, y * r, ar * q), "runner-up's prize times chance is the average expectation")
    z = tourney.entryfee_handicap(a, m, k, n, f)
    c.check(near(c, z * aw, f * w), 'fee in proportion to the chance of winning')
    if a == m:
        c.check(near(c, x, p) and near(c, y, q) and near(c, z, f), 'an average player has no handicap')
        c.reach('average')
    else:
        c.reach('other')


def c30_order(c):
    a = rate(c, 'player')
    b = rate(c, 'other')
    m = rate(c, 'average')
    c.assume(a <= b)
    k = c.param('rounds')
    n = length_of(c)
    p = money(c, 'winner')
    f = money(c, 'fee')
    x = tourney.prize_handicap(a, m, k, n, p, 1.0)[0]
    y = tourney.prize_handicap(b, m, k, n, p, 1.0)[0]
    c.check(leq(c, y, x), "a stronger player's winning prize is not larger")
    c.check(leq(c, tourney.entryfee_handicap(a, m, k, n, f), tourney.entryfee_handicap(b, m, k, n, f)),
            "a stronger player's fee is not smaller")
    c.reach('end')


# ---------------------------------------------------------------- C19
RATINGS = (1000, 1500, 1250.5, 1900)


def start(c, n, lives):
    return [(i, lives[i]) for i in range(n)]


def c19_rounds(c):
    n = c.param('n')
    rounds = c.param('rounds')
    lives = [c.int('lives%d' % i, 1, 3) for i in range(n)]
    turn = c.param('turn', 0)
    rate_of = [RATINGS[(i + turn) % len(RATINGS)] for i in range(n)]
    ps = dict([(i, tourney.Player(lives[i], rate_of[i])) for i in range(n)])
    t = tourney.Tourney(n, ps)
    t.matchlength = c.param('length', 7)
    c.check(len(ps) == n, 'entries left alone')
    want = list(lives)
    for k in range(rounds):
        source = rnd.Source(c, 'r%d_' % k, c.param('swaps', None))
        rnd.use(source)
        alive = [i for i in range(n) if i in t.alive]
        t.round()
        rnd.use(None)
        losses = 0
        for i in range(n):
            was = want[i]
            now = ps[i].lives
            c.check(now == was or now == was - 1, 'at most one life')
            if i not in alive:
                c.check(now == was, 'the dead never play again')
            if now != was:
                losses += 1
            want[i] = now
            c.check(ps[i].rating == rate_of[i], 'ratings stay')
        c.check(losses == len(alive) / 2, 'one life per match')
        here = []
        for i in range(n):
            a = i in t.alive
            d = i in t.dead
            c.check((a or d) and not (a and d), 'alive or dead')
            if a:
                c.check(t.alive[i] is ps[i] and want[i] > 0, 'alive with lives left')
            else:
                c.check(t.dead[i] is ps[i] and want[i] <= 0, 'dead with none')
            here.append(a)
        c.check(len(t.alive) + len(t.dead) == n, 'nobody lost or duplicated')
        # who met whom and who won
        order = source.order
        if order is not None and len(source.draws) == len(order) / 2:
            for m in range(len(order) / 2):
                a, b = order[2 * m], order[2 * m + 1]
                if rate_of[a] >= rate_of[b]:
                    chance = rating.winning_chance(rate_of[a], rate_of[b], t.matchlength)
                else:
                    chance = rating.upset_chance(rate_of[b], rate_of[a], t.matchlength)
                # at the very edge rounding decides
                c.assume(source.draws[m] < chance - 1e-9 or source.draws[m] > chance + 1e-9)
                loser = a
                if source.draws[m] <= chance:
                    loser = b
                c.check(before_minus(want, lives, loser, k), 'the draw decides the match')
        lives = list(want)
    c.see([x for x in want])
    c.reach('end')


def before_minus(want, lives, i, k):
    return want[i] == lives[i] - 1


def c19_default(c):
    n = c.choice('n', range(0, 9))
    t = tourney.Tourney(n)
    c.check(sorted(t.alive.keys()) == list(range(n)) and t.dead == {}, 'everybody starts alive')
    for i in range(n):
        p = t.alive[i]
        c.check(p.lives > 0 and not p.isdead(), 'with lives')
        for j in range(i):
            c.check(t.alive[j] is not p, 'players are distinct')
    v = c.int('lives', -3, 9)
    p = tourney.Player(v, 1500)
    c.check(p.isdead() == (v <= 0), 'dead without lives')
    p.lost()
    c.check(p.lives == v - 1 and p.rating == 1500, 'losing takes one life')
    c.reach('end')
