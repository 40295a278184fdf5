# C22: match records in Snowie's text form.
import sha
import snowietxt_src as snowietxt

DIGITS = '0123456789'
KINDS = 'MGPVREX'


def line(c, kind, k):
    """a line of a kind with free numbers, and its number"""
    if kind == 'E':
        return c.choice('blank%d' % k, ('\n', '  \n')), None
    d = c.chars('n%d_' % k, c.param('digits', 1), DIGITS)
    if kind == 'M':
        return ' ' + d + ' point match\n', None
    if kind == 'G':
        return ' Game ' + d + '\n', None
    if kind == 'P':
        return ' ' + c.chars('p%d_' % k, 1, 'abXY_') + ' : ' + d + '    b,1600 : 3\n', None
    if kind == 'V':
        return c.choice('play%d' % k, ('  %s) 31: 8/5 6/5             24: 24/20\n', ' %s)  Doubles => 2    Takes\n',
                                       '%s)                     61:\n')) % d, int(d)
    if kind == 'R':
        return '         Wins ' + d + ' points\n', None
    return c.choice('junk%d' % k, ('hogehoge\n', ' 5 points\n', 'Game 1\n', 'x 1) 31: 8/5\n', ' Gam 2\n'))[:], None


FIXED = {'Game 1\n': 'G'}


def step(state, kind, number):
    """the grammar: the state after a line, or None where it is refused"""
    at, count = state
    if kind == 'R':
        return state
    if kind == 'M' and at == 'start':
        return ('M', 0)
    if kind == 'G' and at in ('M', 'V', 'E'):
        return ('G', 0)
    if kind == 'P' and at == 'G':
        return ('P', 0)
    if kind == 'E' and at in ('M', 'V', 'E'):
        return ('E', 0)
    if kind == 'V' and at in ('P', 'V') and number == count + 1:
        return ('V', count + 1)
    return None


def free(c, n):
    """n lines after the given start, with the kind of each"""
    out = []
    state = ('start', 0)
    for k in range(len(c.param('start', '')) + n):
        if k < len(c.param('start', '')):
            kind = c.param('start')[k]
        else:
            kind = c.choice('kind%d' % k, c.param('kinds', KINDS))
        text, number = line(c, kind, k)
        if text == 'Game 1\n':
            kind = 'G'
        if kind == 'R':
            # where a line with the result may stand is open
            c.assume(state[0] == 'V')
        state = step(state, kind, number)
        out.append((kind, text, state))
        if state is None:
            break
    return out


def c22_lines(c):
    """line by line: accepted exactly while in order"""
    lines = free(c, c.param('n'))
    v = snowietxt.Validator()
    whole = ''
    for kind, text, state in lines:
        refused = False
        try:
            v.feed(text)
        except ValueError:
            refused = True
        c.check(refused == (state is None), 'accepted exactly when in order')
        whole = whole + text
        if refused:
            c.reach('refused')
            c.see(len(lines))
            return
    c.check(v.done().hexdigest() == sha.new(whole).hexdigest(), 'the digest covers the lines')
    c.reach('accepted')


def c22_size(c):
    """the size limit, on a record in order"""
    lines = free(c, c.param('n'))
    whole = ''
    for kind, text, state in lines:
        c.assume(state is not None)
        whole = whole + text
    size = len(whole)
    most = c.int('most', 0, 300)
    v = snowietxt.Validator(max_size=most)
    refused = False
    got = None
    try:
        got = v.validate([t for _, t, _ in lines])
    except ValueError:
        refused = True
    if refused:
        c.check(most > 0 and size >= most, 'only records beyond the limit are refused')
        c.reach('too long')
    else:
        c.check(most == 0 or size <= most, 'records beyond the limit are refused')
        c.check(got.hexdigest() == sha.new(whole).hexdigest(), 'the digest covers the lines')
        c.reach('accepted')


def c22_chop(c):
    """a record split into games"""
    lines = free(c, c.param('n'))
    whole, head, games, good = '', '', [], True
    for kind, text, state in lines:
        whole = whole + text
        good = state is not None
        if kind == 'M':
            head = text
        elif kind == 'G':
            games.append(text)
        elif kind != 'E' and games:
            games[-1] = games[-1] + text
    out, refused = [], False
    try:
        for g in snowietxt.chop(whole):
            out.append(g)
    except ValueError:
        refused = True
    c.check(refused == (not good), 'refused exactly when out of order')
    if good and games:
        c.check(len(out) == len(games), 'one part for each game')
        for i in range(len(games)):
            c.check(out[i] == head + '\n' + games[i], 'each game whole, in order and under the match length')
        c.reach('split')
        c.see(out)


def c22_number(c):
    """a move of any number after any count of moves"""
    n = c.param('n')
    v = snowietxt.Validator()
    for t in [' 5 point match\n', '\n', ' Game 1\n', ' a : 0      b : 0\n']:
        v.feed(t)
    for k in range(n):
        v.feed('%3d) 31: 8/5 6/5    42: 8/4 6/4\n' % (k + 1))
    d = c.chars('d', c.param('digits'), DIGITS)
    refused = False
    try:
        v.feed('  ' + d + ') 31: 8/5 6/5\n')
    except ValueError:
        refused = True
    c.check(refused == (int(d) != n + 1), 'numbered without gap')
    c.reach(refused and 'refused' or 'accepted')
