"""Obligations of each property (what run.py explores)."""

COMMON_ASSUMPTIONS = [
    'The Python 2 operations of the translated code are modelled by engine/rt.py; agreement with the real interpreter '
    '(Jython) is checked on sampled path models of every run.',
    'Diagnostics printed on standard output and logging calls are not modelled.',
    'Resource exhaustion, signals and concurrent mutation from other threads are outside the model.',
]

PLANS = {}
FIELDS = ('position', 'cube_in_logarithm', 'cube_owner', 'on_action', 'crawford', 'game_state', 'on_inner_action',
          'doubled', 'resign_offer', 'rolled', 'match_length', 'score')


def plan(prop, **k):
    PLANS[prop] = k


def ob(name, fn, **k):
    d = dict(name=name, fn=fn)
    for x in ('width', 'logic', 'max_ticks', 'query_ms', 'summarize', 'sum_limit', 'optional', 'reach'):
        if x in k:
            d[x] = k.pop(x)
    d['params'] = k
    return d


# ---------------------------------------------------------------- C01
plan('C01',
     obligations=lambda tier: [ob('apply-and-invert', 'c_moves.c01_apply', reach=['hit', 'off', 'plain']),
                               ob('make-move', 'c_moves.c01_make', n=2 if tier == 'quick' else 3, reach=['end'])],
     bounds='every pair of 25-tuples with counts 0..15, source 0..24, destination -1..23 below the source, hit flag, '
            'player on turn, all other board fields arbitrary; sequences of up to 3 moves',
     width=16)


# ---------------------------------------------------------------- C02, C03
plan('C02',
     obligations=lambda tier: [ob('source-%s' % n, 'c_moves.c02', who=w, deep=tier != 'quick', reach=['bear off', 'move', 'refused'])
                               for w, n in ((0, 'you'), (1, 'him'))] +
     [ob('given-%s' % n, 'c_moves.c02_given', who=w, way='src', reach=['move', 'refused'])
      for w, n in ((0, 'you'), (1, 'him'))],
     bounds='every pair of 25-tuples with counts 0..15, every source 0..24, every roll and every part of it already '
            'used, both players',
     width=16)

plan('C03',
     obligations=lambda tier: [ob('dest-%s' % n, 'c_moves.c03', who=w, off=False, deep=tier != 'quick', reach=['move', 'refused'])
                               for w, n in ((0, 'you'), (1, 'him'))] +
     [ob('off-%s' % n, 'c_moves.c03', who=w, off=True, deep=tier != 'quick', reach=['move', 'refused'])
      for w, n in ((0, 'you'), (1, 'him'))] +
     [ob('given-%s' % n, 'c_moves.c02_given', who=w, way='dest', reach=['move', 'refused'])
      for w, n in ((0, 'you'), (1, 'him'))],
     bounds='every pair of 25-tuples with counts 0..15, every destination -1..23, every roll and every part of it '
            'already used, both players',
     width=16)


# ---------------------------------------------------------------- C04, C05
plan('C04',
     obligations=lambda tier: [ob('moves-%s' % n, 'c_moves.c04_moves', who=w, deep=False,
                                  n=2 if tier == 'quick' else 4, reach=['one die', 'several dice', 'refused'])
                               for w, n in ((0, 'you'), (1, 'him'))] +
     [ob('undo-%s-%s' % (n, '%d%d' % d), 'c_moves.c04_undo', who=w, die=d, n=k, reach=['one', 'several', 'refused'])
      for w, n in ((0, 'you'), (1, 'him')) for d, k in (((3, 1), 2), ((2, 2), 3 if tier == 'quick' else 4))] +
     [ob('making-a-point-%s-%d%d' % (n, d[0], d[1]), 'c_moves.c04_point', who=w, dice=d, reach=['made', 'refused'])
      for w, n in ((0, 'you'), (1, 'him')) for d in ((3, 1), (6, 5), (2, 2))],
     bounds='boards with any counts 0..15; every source, destination and roll with at most 2 (quick) or 4 (thorough) '
            'dice left; take-back questions after 2 or 3 (thorough 4) kept moves',
     width=16)

plan('C05',
     obligations=lambda tier: [ob('turn-%s-%d%d' % (n, d[0], d[1]), 'c_moves.c05', who=w, dice=d,
                                  n=3 if tier == 'quick' else 4, reach=['played', 'refused', 'taken back'])
                               for w, n in ((0, 'you'), (1, 'him')) for d in ((3, 1), (5, 5))] +
     [ob('own-copies-%s' % n, 'c_moves.c05_copy', who=w, reach=['end']) for w, n in ((0, 'you'), (1, 'him'))],
     bounds='boards with any counts 0..15; turns of up to 3 (quick) or 4 (thorough) steps, each playing a chosen die '
            'from any point or taking back any kept move',
     width=16)


# ---------------------------------------------------------------- C06
ROLLS = [(a, b) for a in range(1, 7) for b in range(1, a + 1)]


def c06_obs(tier):
    r = []
    for w, n in ((0, 'you'), (1, 'him')):
        for d in ROLLS:
            for k in (1, 2):
                if tier == 'quick' and k == 2 and d not in ((4, 4),):
                    continue
                r.append(ob('start-%s-%d%d-%d' % (n, d[0], d[1], k), 'c_moves.c06', who=w, dice=d, k=k,
                            reach=['may', 'may not'], optional=k > 1))
        r.append(ob('used-%s' % n, 'c_moves.c06', who=w, dice=(4, 3), used=(4, 3), k=1, reach=['all used']))
        for d in (ROLLS if tier != 'quick' else [(6, 5), (3, 1), (2, 2)]):
            for f in sorted(set(d)):
                r.append(ob('after-%s-%d%d-%d' % (n, d[0], d[1], f), 'c_moves.c06_after', who=w, dice=d, first=f,
                            k=1 if tier == 'quick' else 2, reach=['may', 'may not'], optional=tier != 'quick'))
    return r


plan('C06', obligations=c06_obs,
     bounds='chequers of the player on turn on at most one (quick) or two (thorough) points or the bar, any number of '
            'them; any number of opposing chequers on every point; the listed rolls (thorough: all 21)',
     outside='positions with the mover on more points; the rule that both dice must be used when some order allows it',
     width=16)


# ---------------------------------------------------------------- C07-C10
C07_WHO = ('is_leagal_to_roll', 'is_leagal_to_move', 'is_leagal_to_double', 'is_cube_take_or_pass',
           'is_leagal_to_redouble', 'is_leagal_to_resign', 'is_to_accept_resign')
C07_POINT = (('is_open_to_land', -1, 23), ('is_hitting_to_land', -1, 23), ('has_chequer_to_move', 0, 24),
             ('is_ok_to_bearoff_from', 0, 24), ('find_src_of_bearoff_with', 1, 6))

plan('C07',
     obligations=lambda tier: [ob('flip', 'c_board.c07_flip', reach=['end'])] +
     [ob(q, 'c_board.c07_who', q=q, reach=['yes', 'no']) for q in C07_WHO] +
     [ob(q, 'c_board.c07_point', q=q, lo=lo, hi=hi, reach=['yes', 'no']) for q, lo, hi in C07_POINT],
     bounds='every board: counts 0..15 on every point, scores and length 0..200, cube 2^0..2^15, every flag; every '
            'point and die',
     width=24)

plan('C08',
     obligations=lambda tier: [ob('questions', 'c_board.c08_ask', reach=['end', 'may double']),
                               ob('exchange', 'c_board.c08_offer', reach=['take', 'drop', 'accept', 'reject'])] +
     [ob(a, 'c_board.c08_act', act=a, reach=['done', 'refused']) for a in ('double', 'take', 'drop', 'resign', 'accept',
                                                                          'reject')],
     bounds='every board state: scores and length 0..200, cube 2^0..2^15, every flag, both players; one action from any '
            'state and every offer with its answer',
     outside='cube ownership and the cube level after a take, which the code does not track',
     width=24)

plan('C09',
     obligations=lambda tier: [ob('board-%s' % f, 'c_board.c09_board', change=f, leave=lv, reach=['end'])
                               for f, lv in (('position', ()), ('score', ('position', 'rolled')),
                                             ('rolled', ('cube_owner', 'score', 'game_state', 'crawford')),
                                             ('on_action', ('match_length', 'doubled', 'resign_offer',
                                                            'on_inner_action', 'on_action', 'cube_in_logarithm')))] +
     [ob('equal-%s-%s' % (k, f), 'c_board.c09_equal', kind=k, field=f,
         reach=['equal'] if f == 'none' else ['equal', 'different'])
      for k in ('board', 'editor') for f in FIELDS + ('none',)] +
     [ob('editor-%s' % f, 'c_board.c09_editor', field=f, reach=['end']) for f in FIELDS],
     bounds='every board: counts 0..15 on every point, scores and length 0..200, cube 2^0..2^15, every flag; boards '
            'differing in one (any) field',
     width=24)

DIGITS = '0123456789'
plan('C10',
     obligations=lambda tier: [ob('round-trip', 'c_board.c10_points', reach=['point', 'bar or off']),
                               ob('distinct', 'c_board.c10_distinct', reach=['end']),
                               ob('refused', 'c_board.c10_refuse', reach=['end'])] +
     [ob('text-%d' % n, 'c_board.c10_text', n=n, alphabet='019+- .barofyuhm25', reach=['end'])
      for n in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4))],
     bounds='every location of both players, numbers -4000..4000, and every text of up to 3 (thorough 4) characters '
            'over a small alphabet',
     width=16)


# ---------------------------------------------------------------- C15
plan('C15',
     obligations=lambda tier: [ob('position', 'c_dbbyte.c15_position', reach=['end']),
                               ob('bytes', 'c_dbbyte.c15_bytes', reach=['end']),
                               ob('default', 'c_dbbyte.c15_default', reach=['end'])] +
     [ob('board-%s' % n, 'c_dbbyte.c15_board', who=w, reach=['end']) for w, n in ((0, 'you'), (1, 'him'))] +
     [ob('distance-%d' % n, 'c_dbbyte.c15_distance', n=n, width=24, query_ms=40000, reach=['end']) for n in (0, 1, 2, 26)],
     bounds='every position with at most 127 (whole boards: 15) chequers per location and no point held by both sides; '
            'every other board field; every pair of 26-byte strings for the distance formula, every pair of strings of '
            'up to 2 bytes for its symmetry and zero',
     width=16)


# ---------------------------------------------------------------- C12
TONIC = 'The bit array and combinatorics library (tonic) is not installed: /verif/stubs/tonic stands in for it.'
plan('C12',
     obligations=lambda tier: [ob('board', 'c_enc.c12_board', reach=['end', 'refused']),
                               ob('positions', 'c_enc.c12_positions', reach=['end']),
                               ob('text', 'c_enc.c12_text', reach=['end'])],
     bounds='every value of every match field at once (cube 0..15, owner, turn, Crawford, game state 0..4, decision, '
            'doubled, resignation 0..3, dice 0..6, match length and scores 0..32767); every match ID text of 12 base64 '
            'characters; one asymmetric position, both turns',
     assumptions=[TONIC], width=24)

EMPTY = [0] * 50
START = [0, 0, 0, 0, 0, 5, 0, 3, 0, 0, 0, 0, 5, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0]


def c11(tier):
    out = [ob('totals', 'c_enc.c11_piles', pairs=[(0, 24), (0, 25), (0, 49), (24, 49)], back=EMPTY, reach=['end'])]
    for k in range(8 if tier == 'quick' else 24):
        if tier == 'quick':
            ps = [(i, i + 1) for i in range(k, 49, 8)]
        else:
            ps = [(i, j) for i in range(50) for j in range(i + 1, 50) if (i + j) % 24 == k]
        out.append(ob('piles-%d' % k, 'c_enc.c11_piles', pairs=ps, back=EMPTY, reach=['end']))
    out.append(ob('opening', 'c_enc.c11_piles', pairs=[(i, j) for i in (5, 7, 12, 23) for j in (0, 24, 30, 32, 37, 48)],
                  back=START + START, reach=['end']))
    return out


plan('C11', obligations=c11,
     bounds='positions with chequers on two locations, each with 0..15 and at most 15 per side: every pair of '
            'neighbouring locations and four pairs giving every total (quick), every pair of locations (thorough); and '
            'the opening position with two locations changed.  The unary code forks on every count, so a path is a '
            'position here',
     outside='positions with more than two occupied locations other than the variations of the opening position',
     width=24)


# ---------------------------------------------------------------- C13, C14
def c13(tier):
    deep = tier != 'quick'
    out = []
    for k in range(10):
        ns = (0, 1, 2, 25, 26, 27) if k == 0 else (0, 1, 2, 3) if k == 4 or deep else (0, 1, 2)
        for n in ns:
            if k == 0:
                r = ['accepted'] if n == 26 else ['refused']
            elif k == 9:
                r = ['accepted']
            elif k == 4:
                r = ['accepted'] if n == 2 else ['refused']
            else:
                r = ['refused'] if n == 0 else ['refused', 'accepted']
            out.append(ob('field-%d-%d' % (k, n), 'c_xgid.c13_field', field=k, n=n, reach=r))
    for n in range(0, 6 if deep else 5):
        out.append(ob('short-%d' % n, 'c_xgid.c13_short', n=n, reach=['end']))
    for n in list(range(1, 10)) + [11, 12, 13]:
        out.append(ob('count-%d' % n, 'c_xgid.c13_count', n=n, reach=['end']))
    for i in range(9):
        out.append(ob('two-%d' % i, 'c_xgid.c13_two', i=i, reach=['end']))
    for n in range(0, 6 if deep else 4):
        out.append(ob('pid-%d' % n, 'c_xgid.c13_pid', n=n, alphabet='A/= \x80', reach=['refused']))
    for h, n in (('4HPwATDgc/ABMA', 2), ('4HPwATDgc/AB', 3 if deep else 2), ('AAAAAAAAAAAAA', 2), ('//////////////', 2)):
        out.append(ob('pid-tail-%d-%d' % (ord(h[0]), len(h)), 'c_xgid.c13_pid', n=n, head=h, alphabet='Aa9/=\n-', reach=['refused']))
    return out


plan('C13', obligations=c13, max_ticks=60000,
     bounds='XGIDs with one field of any bytes (position of 0,1,2,25,26,27 characters, others up to 2, thorough 3), two '
            'fields of any one character, any text of up to 4 (thorough 5) characters, 1..13 fields; position IDs of up '
            'to 3 (thorough 5) characters over the alphabet A / = space 0x80 and longer IDs with 2 (3) free characters',
     assumptions=[], width=24)

plan('C14',
     obligations=lambda tier: [ob('position', 'c_xgid.c14_position', reach=['end']),
                               ob('board', 'c_xgid.c14_board', reach=['end'])],
     bounds='each of the 31 letters at each of the 26 places at once; cube exponent 0..12, owner, turn, dice 0..6, '
            'scores and match length 0..99, Crawford flag',
     outside='letters beyond o, scores and lengths of three digits',
     width=24)


# ---------------------------------------------------------------- C16
plan('C16',
     obligations=lambda tier: [ob('%s-%s%s' % (k, 'o' if x > 0 else 'x', 'up' if d > 0 else 'down'), 'c_fibs.c16_' + k,
                                  colour=x, direction=d, reach=['end'],
                                  **(dict(cubes=(0, 1, 6) if tier == 'quick' else tuple(range(11))) if k == 'state' else {}))
                               for k in ('state', 'position') for x in (1, -1) for d in (1, -1)],
     bounds='every position with at most 15 chequers per location and no point held by both sides, both colours and '
            'directions; every turn (or none), dice 0..6 of both players, three cube values (thorough: 1..1024), both may-'
            'double flags, doubled flag, scores and match length 0..9999 (9999: unlimited) and ignored trailing fields 0..15',
     outside='malformed lines',
     width=24)


# ---------------------------------------------------------------- C18, C30
REALS = ('Ratings, fees and chances are real numbers: rounding of floating point arithmetic is not modelled. Powers of '
         'ten and square roots are uninterpreted values with exact axioms (monotone, inverse, square).')


def c18(tier):
    ns = (1, 2, 3, 5, 7, 11, 17, 25) if tier == 'quick' else tuple(range(1, 26))
    return [ob('two-%d' % n, 'c_rating.c18_two', n=n, reach=['end']) for n in ns] + \
        [ob('three-%d' % n, 'c_rating.c18_three', n=n, reach=['end']) for n in ns] + \
        [ob('two-any', 'c_rating.c18_two', reach=['end']), ob('three-any', 'c_rating.c18_three', reach=['end'])] + \
        [ob('published-%d' % n, 'c_rating.c18_exact', n=n, lo=lo, reach=['end']) for n, lo in ((1, 1500), (4, 1000), (7, 0))]


plan('C18', obligations=c18,
     bounds='ratings any real in -500..3500; every match length 1..64 at once, and the listed lengths with exact square '
            'roots (quick: 1,2,3,5,7,11,17,25; thorough: 1..25); the published numbers at 21 points',
     assumptions=[REALS], logic='ALL', width=24)

plan('C30',
     obligations=lambda tier: [ob('%s-%d-%s' % (k, r, n or 'any'), 'c_rating.c30_' + k, rounds=r,
                                  reach=['average', 'other'] if k == 'prize' else ['end'], **({'n': n} if n else {}))
                               for k in ('chance', 'prize', 'order') for r in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4, 5, 6))
                               for n in (None, 1, 7)],
     bounds='ratings any real in -500..3500, prizes and fees any real 0..100000, every match length 1..64 at once (and 1 '
            'and 7 with exact square roots), 1..3 (thorough 1..6) rounds',
     assumptions=[REALS], logic='ALL', width=24)

plan('C19',
     obligations=lambda tier: [ob('rounds-%d-%d-%d' % (n, r, t), 'c_rating.c19_rounds', n=n, rounds=r, turn=t,
                                  length=7 if t == 0 else 3, reach=['end'])
                               for n, r, t in (((0, 1, 0), (1, 2, 0), (2, 3, 0), (3, 2, 1), (4, 1, 0), (4, 1, 2), (5, 1, 0))
                                               if tier == 'quick' else ((2, 4, 0), (3, 3, 1), (4, 2, 0), (5, 1, 0), (6, 1, 1)))] +
     [ob('start', 'c_rating.c19_default', reach=['end'])],
     bounds='every pairing and every draw; 0..5 (thorough 6) players with 1..3 lives each, up to 3 (thorough 4) rounds, '
            'ratings among four values, match lengths 3 and 7',
     assumptions=[REALS], logic='ALL', width=24)


# ---------------------------------------------------------------- C17
def c17(tier):
    q = tier == 'quick'
    out = [ob('distinct-%d' % m, 'c_bearoff.c17_distinct', m=m, reach=['end']) for m in ((1, 2, 3) if q else (1, 2, 3, 4, 5))]
    top = 54264
    for lo, hi in (((0, 211), (27132, 27231), (top - 120, top - 1)) if q else
                   [(k, k + 249) for k in list(range(0, 5000, 250)) + list(range(38760 - 500, 38760 + 500, 250)) +
                    list(range(top - 2500, top, 250))]):
        out.append(ob('inverse-%d' % lo, 'c_bearoff.c17_inverse', lo=lo, hi=hi, reach=['end']))
    for p in range(6):
        for k in ((14, 15) if q else (9, 12, 13, 14, 15)):
            out.append(ob('back-%d-%d' % (p, k), 'c_bearoff.c17_back', point=p, m=2 if q else 4, total=k, reach=['end']))
    for p, m in (((1, 15), (2, 5), (3, 4), (4, 3), (5, 2)) if q else ((1, 15), (2, 8), (3, 6), (4, 4), (6, 4), (10, 2), (24, 1))):
        out.append(ob('gnubg-%d-%d' % (p, m), 'c_bearoff.c17_gnubg', p=p, m=m, reach=['end']))
    # asked again: after a position of more points
    for p, m in ((2, 2), (3, 1)):
        out.append(ob('gnubg-%d-%d' % (p, m), 'c_bearoff.c17_gnubg', p=p, m=m, reach=['end']))
    for f in ((0, 1, 2, 3, 4, 5), (0, 5, 6, 12, 18, 23, 24)):
        out.append(ob('points-and-chequers-%d' % f[-1], 'c_bearoff.c17_param', width=16, free=f, reach=['end']))
    for n in (3, 4, 11):
        out.append(ob('record-%d' % n, 'c_bearoff.c17_read', size=n, reach=['out of range'] + (['read'] if n > 3 else [])))
    out.append(ob('counting', 'c_bearoff.c17_count', reach=['end']))
    return out


plan('C17', obligations=c17,
     bounds="bglib's numbering: any two home positions with up to 3 (thorough 5) chequers compared by one query; every index "
            'in 0..211, 100 around the middle and the last 120 (thorough: 0..5000, around 38760 and the last 2500) turned '
            'back and forth; positions of 14 and 15 chequers with two away from the main pile.  GNU numbering: any two '
            'positions of (points, chequers) up to (1,15), (2,5), (3,4), (4,3), (5,2).  Records of 4 bytes at every index '
            'of files of 3, 4 and 11 arbitrary bytes, with every pattern of short reads',
     outside="Trice's two-sided numbering, which is unfinished (its index function returns 0)",
     assumptions=[TONIC], sum_limit=600, width=24)


# ---------------------------------------------------------------- C23
plan('C23',
     obligations=lambda tier: [ob('back-%d' % n, 'c_html.c23', n=n, summarize=False, reach=['end']) for n in ((0, 1, 2, 3, 4) if tier == "quick" else (0, 1, 2, 3, 4, 5))] +
     [ob('parts-%d-%d' % (n, m), 'c_html.c23_parts', n=n, m=m, summarize=False, reach=['end']) for n, m in (((2, 1), (3, 1), (3, 2)) if tier == 'quick' else
                                                                            ((2, 1), (3, 1), (3, 2), (4, 2), (5, 1), (5, 4)))] +
     [ob('plain-%d' % n, 'c_html.c23_plain', n=n, summarize=False, reach=['end']) for n in ((1, 4, 8) if tier == 'quick' else (1, 4, 8, 16, 24))],
     bounds='every text of up to 4 (thorough 5) characters, each any byte; plain text of up to 8 (thorough 24)',
     width=16)


# ---------------------------------------------------------------- C28
KINDS = ('board', 'match', 'action', 'length', 'crawford', 'score', 'position', 'top_frame', 'bottom_frame',
         'cubeholder', 'field', 'die', 'cube', 'resign', 'home', 'chequer', 'bar', 'point')
plan('C28',
     obligations=lambda tier: [ob('set-%s' % k, 'c_image.c28_set', kind=k, reach=['set', 'refused']) for k in KINDS] +
     [ob('read-%s' % k, 'c_image.c28_read', chain=k, reach=['end'])
      for k in ('point', 'home', 'home2', 'bar', 'field', 'resign', 'match', 'holder')] +
     [ob('child-%s' % k, 'c_image.c28_child', parent=k, reach=['accepted', 'end']) for k in KINDS] +
     [ob('text-%s' % k, 'c_image.c28_text', kind=k, reach=['end']) for k in KINDS],
     bounds='every element kind, every attribute, every kind of value: any integer -30000..30000, either boolean, five '
            'floating-point numbers, any text of 3 (where texts are restricted also 4 and 7) bytes; chains of up to four '
            'elements with any subset of them set; every parent and child kind',
     width=24)


# ---------------------------------------------------------------- C27
plan('C27',
     obligations=lambda tier: [ob('path-%d-%d' % (k, n), 'c_image.c27_path', k=k, n=n, reach=['end'])
                               for k in (1, 2, 3, 4) for n in ((1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5, 6))] +
     [ob('selector-%s' % k, 'c_image.c27_selector', kind=k, reach=['end']) for k in KINDS] +
     [ob('sheet-%d' % n, 'c_image.c27_sheet', rules=n, reach=['end']) for n in ((1, 2) if tier == 'quick' else (1, 2, 3))] +
     [ob('parse-%d-%d' % (k, m), 'c_image.c27_parse', k=k, m=m, reach=['end'])
      for k, m in (((1, 1), (2, 1), (1, 2)) if tier == 'quick' else ((1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3)))],
     bounds='every pattern of which of up to four selectors match which elements of a path of up to 4 (thorough 6); every '
            'element kind and attribute (image, font and mag apart) against every selector form with texts of two bytes and '
            'integers -99..30000; sheets of up to 2 (thorough 3) of ten rules over a whole tree; rules of up to 2 '
            '(thorough 3) selectors and settings with names and values of one or two characters',
     width=24)


# ---------------------------------------------------------------- C20
NAME = 'abAZ_<> 019-.'


def c20(tier):
    q = tier == 'quick'
    out = [ob('one-line-%s' % p, 'c_proto.c20_one', phase=p, reach=['named', 'default']) for p in ('login', 'motd', 'run')]
    out.append(ob('empty', 'c_proto.c20_empty', reach=['end']))
    n = 3 if q else 4
    out.append(ob('history-login', 'c_proto.c20_history', phase='login', n=n, reach=['preferred', 'end'],
                  kinds=('CLIP_WELCOME', 'CLIP_OWN_INFO', 'FIBS_PreLogin', 'FIBS_FailedLogin')))
    for a, ks in (('a', ('CLIP_WHO_INFO', 'FIBS_Board', 'FIBS_BAD_Board')),
                  ('b', ('FIBS_Waves', 'FIBS_YouRoll', 'CLIP_SAYS', 'FIBS_CantMove')),
                  ('c', ('FIBS_PlayerMoves', 'FIBS_Doubles', 'FIBS_Junk', 'FIBS_PlayerWantsToResign'))):
        out.append(ob('history-run-%s' % a, 'c_proto.c20_history', phase='run', n=n, kinds=ks, reach=['preferred', 'end']))
    for p, k in (('login', 0), ('motd', 0), ('run', 0)) if q else (('login', 0), ('motd', 0), ('run', 0), ('run', 7), ('run', 30)):
        out.append(ob('long-%s-%d' % (p, k), 'c_proto.c20_long', phase=p, skip=k, every=(1 if p != 'run' else 8 if q else 3), max_ticks=4000000, reach=['preferred', 'end']))
    out.append(ob('phases', 'c_proto.c20_phases', n=4 if q else 6, reach=['login', 'motd', 'run'],
                  kinds=(('login', ('CLIP_MOTD_BEGIN', 'FIBS_FailedLogin')), ('motd', ('CLIP_MOTD_END', 'FIBS_MOTD')),
                         ('run', ('FIBS_Goodbye', 'FIBS_BAD_Board')))))
    for p, b in (('login', ('run', 'login')), ('run', ('login', 'run')), ('motd', ('motd', 'run'))):
        out.append(ob('past-%s' % p, 'c_proto.c20_past', phase=p, before=b, reach=['end'],
                      kinds=('FIBS_FailedLogin', 'CLIP_WELCOME', 'FIBS_MOTD', 'CLIP_MOTD_END', 'FIBS_BAD_Board',
                             'CLIP_MOTD_BEGIN')))
    for p, ns in (('login', range(0, 6)), ('motd', range(0, 4)), ('run', range(0, 3) if q else range(0, 5))):
        for n in ns:
            out.append(ob('text-%s-%d' % (p, n), 'c_proto.c20_text', phase=p, n=n, reach=['end'], summarize=False))
            if n:
                out.append(ob('marker-%s-%d' % (p, n), 'c_proto.c20_marker', phase=p, n=n, summarize=False,
                              reach=['stayed'] + (['moved'] if n == 1 and p != 'run' else [])))
    for b, n, e in (('You roll ', 1, ' and 3'), ('12 ', 2, ' hi'), ('board:', 2, ':b:0'), ('', 2, ' doubles.'), ('** ', 2, ' You'),
                    ('a', 1, ' wants to resign. '), ('**', 2, ' 3 1 - 2'), ('5 ', 1, ' - - 1'), ('^3', 1, ''), ('   ', 2, 'Goodbye.'),
                    ('It', 1, 's your turn. Please roll or double'), ('a wins the game and gets 1 point', 2, '')):
        out.append(ob('text-run-%s' % (b + '_' * n + e), 'c_proto.c20_text', phase='run', before=b, n=n, after=e, reach=['end'],
                      summarize=False))
    out.append(ob('marker-goodbye', 'c_proto.c20_marker', phase='run', n=2, before=' ' * 11 + 'Goodby', summarize=False,
                  reach=['moved', 'stayed']))
    return out


plan('C20', obligations=c20,
     bounds='one line with every set of the patterns of its phase matching; three (thorough four) lines over every match '
            'pattern of chosen groups of message kinds; four (thorough six) lines over the phase markers from the start; '
            'real patterns against every text of up to 5 bytes at login, 3 in the message of the day, 2 (thorough 4) '
            'while running',
     outside='which of several kinds is reported when patterns of different kinds match a line and none was seen before '
             '(the language leaves the order of class members open)',
     width=16)


# ---------------------------------------------------------------- C21
def c21(tier):
    q = tier == 'quick'
    deeds = ['value', 'nothing', 'error', 'exit', 'attribute']
    out = [ob('guard-%d' % n, 'c_session.c21_guard', deep=n, reach=deeds) for n in ((1, 2, 3) if q else (1, 2, 3, 4, 6))]
    acts = ['note', 'leave', 'leave next', 'leave before', 'raise', 'attribute', 'close']
    for n, e in (((1, 2), (2, 2), (3, 2)) if q else ((1, 3), (2, 3), (3, 2), (4, 2))):
        out.append(ob('dispatch-%d-%d' % (n, e), 'c_session.c21_dispatch', n=n, events=e, many=n == 2, reach=acts))
    out.append(ob('order', 'c_session.c21_dispatch', n=3, events=1, order=(2, 0, 1), reach=acts))
    out.append(ob('members', 'c_session.c21_members', steps=4 if q else 5, reach=['told', 'closed']))
    out.append(ob('threads', 'c_session.c21_threads', reach=['end']))
    for n, k in (((1, 3), (2, 1)) if q else ((1, 5), (2, 2), (3, 1))):
        out.append(ob('listener-%d-%d' % (n, k), 'c_session.c21_listener', n=n, length=k, reach=['error', 'over', 'broken']))
    return out


plan('C21', obligations=c21,
     bounds='up to 3 (thorough 4) subscribers of every handling, one of which does nothing, leaves, makes a neighbour '
            'leave, raises or closes, over up to 2 (thorough 3) events; every order of up to 4 (thorough 5) registering, '
            'leaving, event, sending and closing steps of three subscribers; guarded operations entered up to 3 (thorough 6) '
            'times in each other; every server script of up to 2 (thorough 3) lines with any text of up to 3 (thorough 5) bytes, '
            'prompts, connection errors and ends; another thread acting wherever the lock is free',
     width=16)


# ---------------------------------------------------------------- C24
ASCII = ''.join(map(chr, range(32, 127))) + '\n\t'


INLINE = ("'''", "''", "'''''", '__', '~~', ',,', '^', '`', '{{{', '}}}', '===', '==', '=', '||', '!', '::', 'a', '<b>', '&', '"',
          '#1', '{2}', '[3]', 'm4', 'entry:5', 'query:6', 'match:7', 'http://a.b/c?d&e=1', '[http://a.b]', '[http://a.b c"d<e&]',
          '[wiki:Foo]', 'CamelWord', '[[BR]]', '[[TableOfContent]]', '[[Nope]]', '[[Nope(a=b)]]', '[[Position]]', '[[Position(a)]]',
          '[[Analysis]]', '[[Position(vzsAAFhu2xFABA:QYkqASAAIAAA)]]', '> ', ' * ', ' + ', '  ')
BLOCK = ('> ', '>> ', ' * ', '  * ', '   - ', ' ++ ', ' 1. ', '  a. ', ' iv. ', '  ', '== ', '=', '||', 'a::', '{{{', '}}}', '',
         '#!foo', '[[TableOfContent]]', "''")
WRAP = ('%s', "''%s", '== %s ==', ' * %s', '||%s||', '> %s', '  %s')


def c24(tier):
    q = tier == 'quick'
    out = []
    for n in ((1, 2) if q else (1, 2, 3)):
        out.append(ob('text-%d' % n, 'c_wiki.c24', form=(n,), alphabet=ASCII, reach=['end'], summarize=False))
    t = [(INLINE, INLINE), (INLINE, '\n', INLINE), (INLINE, 1), (1, INLINE), ('[[TableOfContent]]\n== ', INLINE, 1, '=='),
         (BLOCK, 'x\n', BLOCK, 'y\n', BLOCK[:17], 'z'), ('[http://a.b ', 2, ']'), ('http://a', 2), ('[wiki:', 2, ']'), ('[[N(', 2, ')]]'),
         ('{{{\n', 2, '\n}}}'), ('[', 2, ']'), ('!', 2), (' ', 1, ' x'), (' ', 1, 'x\n ', 1, ' y'), ('||', 1, '||', 1, '||'),
         ('= ', 2, ' ='), (2, '::')]
    if not q:
        t += [(INLINE, 1, INLINE), (INLINE, INLINE, INLINE), (BLOCK, 'x\n', BLOCK, 'y\n', BLOCK, 'z\n', BLOCK), (INLINE, 2),
              ('[http://a.b ', 3, ']'), ('{{{\n', 3, '\n}}}')]
    for n, f in enumerate(t):
        out.append(ob('form-%d' % n, 'c_wiki.c24', form=f, alphabet=ASCII, reach=['end'], summarize=False))
    return out


plan('C24', obligations=c24,
     bounds='every text of one or two (thorough three) printable characters or line ends; every pair (thorough triple) out of 44 '
            'pieces of wiki markup, on one line or two, with up to one (thorough two) free characters; every three (thorough '
            'four) lines starting with one of twenty block marks; free characters inside links, macros, tables, '
            'headings and preformatted text',
     outside='restructured text, whose HTML docutils writes; the Timestamp and Analysis macros\' contents; text '
             'longer than the listed forms',
     width=16)


# ---------------------------------------------------------------- C25
SPANS = ('SpanElement', 'BRElement', 'BoldElement', 'ItalicElement', 'UnderlineElement', 'StrikeElement', 'SubscriptElement',
         'SuperscriptElement', 'MonospaceElement', 'AnchorElement', 'ImgElement')
BLOCKS = ('H1Element', 'H2Element', 'H3Element', 'DefinitionBodyElement', 'DivElement', 'DefinitionListElement', 'TableElement',
          'BlockQuoteElement', 'CitationElement', 'ListElement', 'TableCellElement', 'TableRowElement', 'TableHeaderElement',
          'ItemizeElement', 'DefinitionHeaderElement', 'CitationContentElement')


def c25(tier):
    q = tier == 'quick'
    out = [ob('edit', 'c_wiki.c25_edit', n=3 if q else 4, ops=('enter', 'append', 'leave', 'text', 'ask', 'done'),
              reach=['enter', 'append', 'left', 'nothing to leave']),
           ob('nest', 'c_wiki.c25_edit', n=4 if q else 5, ops=('enter', 'leave', 'text'), reach=['enter', 'left']),
           ob('deep', 'c_wiki.c25_edit', n=4 if q else 5, ops=('enter',), reach=['enter']),
           ob('macro', 'c_wiki.c25_edit', n=4 if q else 5, ops=('append', 'text'), macro=1, reach=['append']),
           ob('pairs', 'c_wiki.c25_real', n=2, reach=['end']),
           ob('triples', 'c_wiki.c25_real', n=3, reach=['end'], sorts0=BLOCKS, sorts1=BLOCKS if q else SPANS + BLOCKS,
              sorts2=BLOCKS + SPANS[2:4] if q else SPANS + BLOCKS)]
    for n in ((2, 3, 4) if q else (2, 3, 4, 5)):
        out.append(ob('write-%d' % n, 'c_wiki.c25_write', n=n, reach=['end']))
    inline = tuple(t for t in INLINE if t not in ('[[TableOfContent]]', '[[Position(vzsAAFhu2xFABA:QYkqASAAIAAA)]]'))
    block = tuple(t for t in BLOCK if t not in ('[[TableOfContent]]', '#!foo'))
    out.append(ob('wiki-line', 'c_wiki.c25_wiki', form=('Q', inline, 'J', inline, 'Z'), marks='QJZ', reach=['end'], summarize=False))
    out.append(ob('wiki-lines', 'c_wiki.c25_wiki', form=(block, 'Q\n', block, 'J\n', block, 'Z'), marks='QJZ', reach=['end'],
                  summarize=False))
    return out


plan('C25', obligations=c25,
     bounds='every sequence of 3 (thorough 4) entering, appending, leaving, asking and text steps, and of 4 (thorough 5) '
            'entering, leaving and text steps, over three kinds of elements under every table of what may contain what, and of 4 (5) texts, elements and macros; '
            'every pair and (thorough: every, quick: block level) triple of the real elements; trees of up to 4 (thorough 5) '
            'nodes written; wiki lines of two of 43 and three lines of 18 pieces of markup',
     width=16)


# ---------------------------------------------------------------- C22
def c22(tier):
    q = tier == 'quick'
    out = [ob('lines', 'c_record.c22_lines', n=5 if q else 6, reach=['accepted', 'refused']),
           ob('lines-in-game', 'c_record.c22_lines', start='MEGP', n=4 if q else 5, reach=['accepted', 'refused']),
           ob('lines-two-digits', 'c_record.c22_lines', start='MGP', n=3, digits=2, reach=['accepted', 'refused']),
           ob('size', 'c_record.c22_size', start='MGPV', n=1, kinds='VERG', reach=['accepted', 'too long']),
           ob('chop', 'c_record.c22_chop', start='MEGPV', n=4 if q else 5, kinds='VERGPM', reach=['split']),
           ob('chop-start', 'c_record.c22_chop', n=4 if q else 6, reach=['split'])]
    for n, d in ((0, 2), (1, 1), (9, 2), (11, 3), (98, 3)):
        out.append(ob('number-%d' % n, 'c_record.c22_number', n=n, digits=d, reach=['accepted', 'refused']))
    return out


plan('C22', obligations=c22, alias={'snowietxt_src': '/repo/bglib/record/snowietxt.py'},
     bounds='every sequence of up to five lines from the start and four after the header of a game (thorough six and five) out '
            'of match length, game header, player header, moves, results, blank and unknown lines with any one-digit (in '
            'part two-digit) numbers; every size limit 0..300; a move of any number of up to three digits after 0..98 moves',
     outside='where lines with the result of a game may stand; splitting lines into the parts of a move',
     assumptions=['tonic.lineparser is not installed: stubs/tonic/lineparser.py states what the validator relies on '
                  '(each named part of the first alternative matching a line is handed to its handle_ method, if any); all 258 '
                  'sample records of the repository pass with it and their shuffled forms are refused.',
                  'SHA-1 digests of different texts are taken to differ.'],
     width=16)


# ---------------------------------------------------------------- C26
def c26(tier):
    k = 4 if tier == 'quick' else 6
    cells = [(w, i) for i in range(25) for w in (0, 1)]
    groups = [tuple(cells[i:i + k]) for i in range(0, len(cells), k)]
    if tier != 'quick':
        groups += [tuple((0, (i + 5 * j) % 25) for j in range(5)) for i in range(5)] + \
            [tuple((1, (i + 5 * j) % 25) for j in range(5)) for i in range(5)]
    return [ob('cells-%d' % n, 'c_image.c26_position', free=g, reach=['end']) for n, g in enumerate(groups)] + \
        [ob('state-%s' % n, 'c_image.c26_state', action=a, reach=['turn', 'offer', 'resign']) for n, a in (('you', 0), ('him', 1))]


plan('C26', obligations=c26,
     bounds='any number 0..15 of chequers on every group of four (thorough six) of the fifty locations with the others '
            'fixed; every state of turn, dice, double, resignation, cube owner and value 0..12, scores and length 0..99, '
            'Crawford flag',
     outside='boards that claim a pending double together with rolled dice or a pending resignation of nobody, which '
             'describe no situation of play',
     width=24)


# ---------------------------------------------------------------- C29
def c29(tier):
    q = tier == 'quick'
    mags = (1.0, 1.5) if q else (1.0, 0.5, 1.5, 2.25, 0.75)
    out = [ob('fit-%dx%d-%s-%d-%d' % (w, h, a, o, lo), 'c_image.c29_mag', w=w, h=h, axis=a, other=o, least=lo, most=hi,
              logic='FP', width=24, query_ms=200000, reach=['end'])
           for w, h, a, o, lo, hi in (((341, 262, 'x', 500, 1, 511), (341, 262, 'y', 400, 1, 511)) if q else
                                      [(w, h, a, o, lo, lo + 511) for w, h in ((341, 262), (1000, 800), (341, 232))
                                       for a, o in (('x', 5000), ('y', 5000), ('x', 500), ('y', 400)) for lo in (1, 512)])]
    for m in mags:
        out.append(ob('die-%s' % m, 'c_image.c29_die', mag=m, reach=['dot', 'default', 'numeric', 'image']))
        out.append(ob('cube-%s' % m, 'c_image.c29_cube', mag=m, reach=['end']))
        out.append(ob('row-%s' % m, 'c_image.c29_row', mag=m, reach=['end']))
        out.append(ob('stack-%s' % m, 'c_image.c29_chequer', mag=m, place='point', reach=['count', 'end']))
        for k in ('score', 'length', 'action', 'crawford', 'resign'):
            out.append(ob('%s-%s' % (k, m), 'c_image.c29_text', kind=k, mag=m, reach=['end']))
    return out


plan('C29', obligations=c29,
     bounds='positions 0..1000, sizes 0..200 (dice 8..200) and offsets -30..30 of any element at magnifications 1 and 1.5 '
            '(thorough also 0.5, 0.75, 2.25), every die, cube value 0..12, 0..15 chequers with maximum 0..15; scaling of a 341 by 262 '
            'board (thorough also 1000 by 800 and 341 by 232) to every size 1..511 (thorough 1..1023) in one direction, '
            'in IEEE double arithmetic',
     width=24)


# ---------------------------------------------------------------- C31
THEMES = ('deutsche', 'flower', 'kotobuki', 'matrix', 'minimal', 'nature', 'neon', 'safari')


def c31(tier):
    q = tier == 'quick'
    out = []
    for n, t in enumerate(THEMES):
        for m, (k, big) in enumerate((('home', 0), ('dice', 0), ('cube', 0), ('resign', 0), ('match', 1), ('stack', 0))):
            every = ((400, 300), (57, 1000), (341, 232), (1, 1))
            x = dict(sizes=(every[(n + m) % 4],) if q else every)
            if k == 'dice':
                x['second'] = (3,) if q else (1, 2, 3, 4, 5, 6)
            if k == 'match':
                x['top'] = (12 if q else 26) if t == 'safari' else 3
            if k == 'stack':
                x['sides'] = 1 if q else 2
                x['points'] = [0, 7, 12, 23, 24] if q else list(range(25))
            out.append(ob('%s-%s' % (k, t), 'c_image.c31_theme', theme=t, kind=k, reach=['end'], **x))
        out.append(ob('loads-' + t, 'c_image.c31_loads', theme=t, themes=THEMES, who=not q, reach=['end']))
    return out


plan('C31', obligations=c31,
     bounds='the eight shipped style sheets; pictures of 400 by 300, 57 by 1000, 341 by 232 or 1 by 1 (quick: one of them each); boards with '
            'one stack of 1..15 chequers on the ace, eight, thirteen, twenty-four point or bar (thorough: every point and bar, '
            'both sides), or 1..15 chequers off, or any roll (quick: second die 3), or any cube to 4096 and offer, or any resignation, '
            'or any score and match length of 0..3 (safari 0..12, thorough 0..26); any two sheets '
            'loaded one after the other, one extended, and both loaded again',
     width=32)


# ---------------------------------------------------------------- C32
def c32(tier):
    q = tier == 'quick'
    return [ob('text', 'c_pil.c32_text', top=11 if q else 20, reach=['fits', 'too small', 'end']),
            ob('pictures', 'c_pil.c32_pictures', n=2 if q else 3, m=3 if q else 2, reach=['end']),
            ob('fonts', 'c_pil.c32_fonts', m=6 if q else 10, reach=['end']),
            ob('shapes', 'c_pil.c32_shapes', reach=['ellipse', 'empty ellipse', 'rect', 'polygon', 'empty polygon']),
            ob('draw', 'c_pil.c32_draw', reach=['fail', 'end'])]


plan('C32', obligations=c32,
     bounds='text rectangles of 0..30 by 0..11 (thorough 20) anywhere with fonts of any measures 0..40 for every size; two '
            '(thorough three) pictures of any sizes up to 3 (2) by 3 (2) loaded one after the other from two files; three fonts of any size '
            '1..6 (10); any rectangle of every shape; boards of any score drawn twice, also after a failed drawing',
     outside='the imaging library itself (a recording stand-in takes its place)',
     width=24)


# ---------------------------------------------------------------- C33
def c33(tier):
    q = tier == 'quick'
    return [ob('cube-%d' % n, 'c_macro.c33_cube', by='macro', rows=n, reach=['end']) for n in ((1, 2) if q else (0, 1, 2, 3))] + \
        [ob('moves-%d' % n, 'c_macro.c33_moves', by='macro', rows=n, reach=['end']) for n in ((0, 1, 2) if q else (0, 1, 2, 3))] + \
           [ob('wiki-cube', 'c_macro.c33_cube', by='wiki', rows=1, reach=['end']),
            ob('wiki-moves', 'c_macro.c33_moves', by='wiki', rows=1, reach=['end']),
            ob('position', 'c_macro.c33_position', after=0, reach=['bad', 'end']),
            ob('position-after', 'c_macro.c33_position', after=1, reach=['bad', 'end']),
            ob('words', 'c_macro.c33_words', reach=['end'])]


plan('C33', obligations=c33,
     bounds='up to two (thorough three) rows of every action or of moves with any two characters at the end, every mark, four kinds of difference, figures and equities out of a list of six, any depth of one digit; position identities with one free character at the end of each part, with every combination of options; unknown names of one or three characters',
     outside="the analysis data base itself (a stand-in that remembers what it was asked); figures other than those listed (formatting of numbers is the interpreter's)",
     width=24)


# ---------------------------------------------------------------- C34
def c34(tier):
    q = tier == 'quick'
    out = [ob('print-%d' % n, 'c_print.c34_print', n=n, reach=['end']) for n in ((0, 1, 2) if q else (0, 1, 2, 3, 4))]
    out += [ob('add-%d-%d' % (n, m), 'c_print.c34_add', n=n, m=m, reach=['end', 'taken back'])
            for n, m in (((1, 1), (2, 1), (1, 2), (2, 2)) if q else ((1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (3, 2)))]
    out += [ob('factory-%d-%d' % d, 'c_print.c34_factory', dice=d, n=2 if q else 4, reach=['end']) for d in ((5, 2), (3, 3))]
    out += [ob('handed-%d-%d-%d' % (d + (n,)), 'c_print.c34_handed', dice=d, n=n, reach=['end'])
            for d, n in (((5, 2), 1), ((5, 2), 2), ((3, 3), 2), ((3, 3), 4))]
    out += [ob('dice', 'c_print.c34_dice', n=2 if q else 3, reach=['not rolled', 'refused', 'end'])]
    out += [ob('dump', 'c_print.c34_board', edit=0, reach=['end']), ob('dump-editor', 'c_print.c34_board', edit=1, reach=['end'])]
    return out


plan('C34', obligations=c34,
     bounds='moves of up to two (thorough four) parts between any two locations; up to four (five) parts added in all; moves of two (four) parts with dice 5-2 and 3-3 played by a factory on every board; two (three) dice used or returned after any roll; dumps of boards with two free points and every other field free',
     outside='moves of more parts',
     width=24)


# ---------------------------------------------------------------- C35
def c35(tier):
    q = tier == 'quick'
    return [ob('dtd', 'c_print.c35_dtd', reach=['end'])] + \
        [ob('board-' + k, 'c_print.c35_board', kind=k, reach=['styled', 'end']) for k in ('stack', 'dice', 'cube', 'score', 'offer')] + \
        [ob('words-%d' % n, 'c_print.c35_words', n=n, alphabet='a<>&"\' ;', reach=['attribute', 'sheet', 'text'])
         for n in ((1, 2) if q else (1, 2, 3, 4))]


plan('C35', obligations=c35,
     bounds='boards with 0 to 15 chequers of each side on one point, on a middle point or the bar; any dice; any cube up to the 4096; any score up to 99 in matches up to 25; every offer; with and without one style sheet and a new size; words of up to two (thorough four) characters out of a<>&"\', blank and semicolon',
     outside='characters beyond ASCII; validation by a validating parser (the DTD and the XML are read by the harness)',
     width=24)


# ---------------------------------------------------------------- asked again
# The obligations asked a second time after the harness ran once for other inputs in the same process: what the code
# kept of the first question (a result remembered by part of the input, state left behind) must not change the answer.
AGAIN = {
    'C01': ['*'],
    'C05': ['own-copies-*'],
    'C07': ['flip'],
    'C08': ['exchange'],
    'C09': ['*'],
    'C10': ['round-trip', 'distinct', 'refused', 'text-1'],
    'C12': ['*'],
    'C13': ['field-?-1', 'field-?-2', 'short-*', 'pid-*'],
    'C14': ['position'],
    'C15': ['*'],
    'C16': ['position-*', 'state-xup'],
    'C17': ['distinct-*', 'points*', 'record-3', 'gnubg-2-2', 'gnubg-3-1', 'inverse-27132'],
    'C18': ['*'],
    'C19': ['start', 'rounds-0-*', 'rounds-1-*'],
    'C20': ['one-line-login', 'one-line-motd', 'empty', 'long-login-0', 'long-motd-0'],
    'C21': ['guard-*', 'threads', 'listener-1-3', 'listener-2-1'],
    'C22': ['number-*'],
    'C23': ['back-1', 'back-2', 'plain-1', 'plain-4'],
    'C27': ['path-*'],
    'C29': ['score-*', 'length-*', 'cube-*', 'action-*', 'crawford-*', 'row-*', 'resign-*'],
    'C30': ['prize-?-?', 'prize-?-any', 'chance-*'],
    'C34': ['print-0', 'print-1', 'add-1-1', 'handed-5-2-*', 'factory-*'],
}

# what the inputs before are of another kind in, by obligation
BEFORE = {
    'C17': lambda name, p: {'p': p['p'] + 1} if name.startswith('gnubg') else {},
    'C18': lambda name, p: {'n': p['n'] + 1} if 'n' in p else {},
    'C20': lambda name, p: {'phase': dict(login='motd', motd='login')[p['phase']]} if name in ('one-line-login', 'one-line-motd') else {},
    'C30': lambda name, p: {'n': 8 - p['n']} if 'n' in p else {'rounds': p['rounds'] + 1},
}
for _p, _a in AGAIN.items():
    PLANS[_p]['again'] = _a
    PLANS[_p]['before'] = BEFORE.get(_p)
    PLANS[_p]['bounds'] += '; asked again after other inputs in the same process: ' + (
        'every obligation' if _a == ['*'] else 'obligations ' + ', '.join(_a))
