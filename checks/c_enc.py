# C11, C12, C13 (gnubg part): GNU Backgammon position and match IDs.
import lib
from lib import *
from bglib.encoding import gnubgid
import bglib.encoding

STD = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
POS = ((0, 2, 0, 1, 0, 5, 0, 3, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 1),
       (1, 0, 0, 0, 3, 4, 0, 3, 0, 0, 0, 0, 2, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0))


def val64(ch):
    o = ord(ch)
    return o - 65 if o >= 65 and o <= 90 else (
        o - 71 if o >= 97 and o <= 122 else (o + 4 if o >= 48 and o <= 57 else (62 if o == 43 else 63)))


def is64(ch):
    o = ord(ch)
    return (o >= 65 and o <= 90) or (o >= 97 and o <= 122) or (o >= 48 and o <= 57) or o == 43 or o == 47


def bits_of_text(s):
    """bits of a base64 text, first byte first, least significant bit first"""
    big = []
    for ch in s:
        v = val64(ch)
        for k in range(5, -1, -1):
            big.append((v >> k) & 1)
    out = []
    for i in range(0, len(big) - len(big) % 8, 8):
        out.extend(reversed(big[i:i + 8]))
    return out


def number(bits):
    n = 0
    k = 0
    for b in bits:
        n = n + (b << k)
        k += 1
    return n


# ---------------------------------------------------------------- C12
def state(c):
    owner = c.int('owner', 0, 3)
    c.assume(owner != 2)
    return dict(cube_in_logarithm=c.int('cube', 0, 15), cube_owner=owner, on_action=c.int('who', 0, 1),
                crawford=c.bool('crawford'), game_state=c.int('state', 0, 4), on_inner_action=c.int('inner', 0, 1),
                doubled=c.bool('doubled'), resign_offer=c.int('resign', 0, 3),
                rolled=(c.int('d0', 0, 6), c.int('d1', 0, 6)), match_length=c.int('length', 0, 32767),
                score=(c.int('s0', 0, 32767), c.int('s1', 0, 32767)))


LAYOUT = (('cube_in_logarithm', None, 4), ('cube_owner', None, 2), ('on_action', None, 1), ('crawford', None, 1),
          ('game_state', None, 3), ('on_inner_action', None, 1), ('doubled', None, 1), ('resign_offer', None, 2),
          ('rolled', 0, 3), ('rolled', 1, 3), ('match_length', None, 15), ('score', 0, 15), ('score', 1, 15))


def c12_board(c):
    st = state(c)
    kw = dict(st)
    kw['position'] = POS
    m = lib.editor(**kw)
    pid, mid = gnubgid.encode(m)
    for k in st:
        c.check(getattr(m, k) == st[k], 'encoding leaves the board: ' + k)
    c.check(len(mid) == 12, 'match ID has 12 characters')
    ok = True
    for i in range(12):
        ok = ok and is64(mid[i])
    c.check(ok, 'match ID is base64 text')
    bits = bits_of_text(mid)
    at = 0
    for name, part, n in LAYOUT:
        v = st[name]
        if part is not None:
            v = v[part]
        if name in ('crawford', 'doubled'):
            v = 1 if v else 0
        c.check(number(bits[at:at + n]) == v, 'published bits of ' + name)
        at += n
    c.check(number(bits[66:72]) == 0, 'padding bits are zero')
    # back again, into a board that held something else
    r = BoardEditor(cube_in_logarithm=9, cube_owner=0, on_action=1, crawford=True, game_state=2, on_inner_action=1,
                    doubled=True, resign_offer=2, rolled=(6, 6), match_length=77, score=(8, 9))
    bad = st['game_state'] == 1 and st['match_length'] == 0 and (st['score'][0] > 0 or st['score'][1] > 0)
    c.see(mid)
    c.see(pid)
    try:
        gnubgid.decode(r, pid, mid)
        raised = False
    except bglib.encoding.InconsistentData:
        raised = True
    if raised:
        c.check(bad, 'only a money game with a score is refused')
        c.reach('refused')
        return
    c.check(not bad, 'a money game with a score is refused')
    for k in st:
        c.check(getattr(r, k) == st[k], 'decoded field: ' + k)
    c.check(r.position == POS, 'decoded position')
    c.reach('end')


def c12_positions(c):
    # which side's counts come first depends on the turn, as in GNU Backgammon
    who = c.choice('who', (0, 1))
    m = lib.editor(position=POS, on_action=who)
    pid, mid = gnubgid.encode(m)
    first = gnubgid.decode_position(pid)
    if who == 0:
        c.check(first == (POS[1], POS[0]), 'order of the sides in the position ID')
    else:
        c.check(first == POS, 'order of the sides in the position ID')
    r = BoardEditor(on_action=1 - who)
    gnubgid.decode(r, pid, mid)
    c.check(r.position == POS, 'decoded position')
    c.check(r.on_action == who, 'decoded turn')
    c.see(pid)
    c.reach('end')


def c12_text(c):
    # every match ID text
    s = c.chars('s', 12, STD)
    bits = bits_of_text(s)
    mp = gnubgid.decode_match(s)
    at = 0
    for name, part, n in LAYOUT:
        v = getattr(mp, name)
        if part is not None:
            v = v[part]
        want = number(bits[at:at + n])
        if name in ('crawford', 'doubled'):
            c.check((want == 1) == v, 'decoded bits of ' + name)
        else:
            c.check(v == want, 'decoded bits of ' + name)
        at += n
    c.see((mp.cube_in_logarithm, mp.cube_owner, mp.rolled, mp.score))
    c.reach('end')


# ---------------------------------------------------------------- C11
def spec_bits(xs):
    out = []
    for x in xs:
        out.extend([1] * x)
        out.append(0)
    return out + [0] * (80 - len(out))


def c11_piles(c):
    """positions made of a background and two symbolic piles"""
    i, j = c.choice('pair', c.param('pairs'))
    f = list(c.param('back'))
    room = [15, 15]
    for k in range(50):
        if k != i and k != j:
            room[k / 25] -= f[k]
    a = c.concrete(c.int('a', 0, 15))
    b = c.concrete(c.int('b', 0, 15))
    if i / 25 == j / 25:
        c.assume(a + b <= room[i / 25])
    else:
        c.assume(a <= room[i / 25] and b <= room[j / 25])
    f[i] = a
    f[j] = b
    xs = (tuple(f[:25]), tuple(f[25:]))
    s = gnubgid.encode_position(xs)
    c.check(len(s) == 14, 'position ID has 14 characters')
    want = spec_bits(f)
    got = bits_of_text(s)
    c.check(got[:80] == want, 'published bit layout')
    c.check(gnubgid.decode_position(s) == xs, 'ID decodes to the position')
    c.see(s)
    c.reach('end')
