# C17: bear-off database indexes and records.
import lib
from bglib.encoding import bearoff
from bglib.encoding.bearoff import nori, gnubgdb


def choose(n, r):
    if r < 0 or r > n:
        return 0
    v = 1
    for i in range(r):
        v = v * (n - i) / (i + 1)
    return v


def home(c, name, total, n=6):
    t = tuple([c.int('%s%d' % (name, i), 0, total) for i in range(n)])
    s = 0
    for x in t:
        s = s + x
    c.assume(s <= total)
    return t


def positions(total, n=6):
    """how many positions with at most that many chequers on n points"""
    return choose(total + n, n)


# ---------------------------------------------------------------- bglib's own numbering
def c17_distinct(c):
    m = c.param('m')
    t = home(c, 'a', m)
    u = home(c, 'b', m)
    i = nori.oneside_upto6_t2k(t)
    j = nori.oneside_upto6_t2k(u)
    c.check(i >= 0 and i < positions(m), 'index below the number of positions')
    c.check((i == j) == (t == u), 'different positions have different indexes')
    c.see((i, j))
    c.reach('end')


def c17_inverse(c):
    lo, hi = c.param('lo'), c.param('hi')
    n = c.int('n', lo, hi)
    t = nori.oneside_upto6_k2t(n)
    c.check(len(t) == 6, 'six points')
    s = 0
    for x in t:
        c.check(x >= 0, 'counts')
        s = s + x
    c.check(s <= 15, 'at most fifteen chequers')
    ok = False
    for k in range(16):
        ok = ok or (s == k and n >= positions(k - 1) and n < positions(k))
    c.check(ok, 'ordered by the number of chequers')
    c.check(nori.oneside_upto6_t2k(t) == n, 'the index of the position')
    c.see(t)
    c.reach('end')


def c17_back(c):
    """positions near the full fifteen: the rest of the chequers on one point"""
    p = c.param('point')
    m = c.param('m')
    k = c.param('total')
    t = list(home(c, 'a', m))
    s = 0
    for x in t:
        s = s + x
    t[p] = t[p] + (k - s)
    t = tuple([c.concrete(x) for x in t])
    i = nori.oneside_upto6_t2k(t)
    c.check(i >= positions(k - 1) and i < positions(k), 'index within those of that many chequers')
    c.check(nori.oneside_upto6_k2t(i) == t, 'turns back into the position')
    c.see(i)
    c.reach('end')


# ---------------------------------------------------------------- GNU Backgammon's numbering
def c17_gnubg(c):
    p, m = c.param('p'), c.param('m')
    t = home(c, 'a', m, p)
    u = home(c, 'b', m, p)
    zero = (0,) * (25 - p)
    i = gnubgdb.oneside_index(t + zero, p, m)
    j = gnubgdb.oneside_index(u + zero, p, m)
    c.check(i >= 0 and i < positions(m, p), 'index below the number of positions')
    c.check((i == j) == (t == u), 'different positions have different indexes')
    c.see((i, j))
    c.reach('end')


def c17_param(c):
    free = c.param('free')
    a = tuple([c.int('y%d' % i, 0, 15) if i in free else 0 for i in range(25)])
    b = tuple([c.int('h%d' % i, 0, 15) if i in free else 0 for i in range(25)])
    p, m = gnubgdb.bearoff_param(a, b)
    sa = sb = 0
    top = 0
    for i in range(25):
        sa = sa + a[i]
        sb = sb + b[i]
        top = (i + 1) if (a[i] > 0 or b[i] > 0) else top
    c.check(m == max(sa, sb), 'chequers of the larger side')
    c.check(p == top, 'points up to the rearmost chequer')
    c.see((p, m))
    c.reach('end')


# ---------------------------------------------------------------- records
class File(object):
    """a file that reads as little as it likes, at least one byte"""
    def __init__(self, c, data):
        self.c, self.data, self.pos, self.n = c, data, 0, 0
        self.closed = False

    def seek(self, n, whence=0):
        if whence == 1:
            n = n + self.pos
        elif whence == 2:
            n = n + len(self.data)
        self.pos = n

    def tell(self):
        return self.pos

    def read(self, n=-1):
        left = len(self.data) - self.pos
        if left <= 0 or n == 0:
            return ''
        if n < 0 or n > left:
            n = left
        k = n
        if n > 1:
            k = self.c.choice('read%d_%d' % (self.n, n), range(n)) + 1
        self.n += 1
        r = self.data[self.pos:self.pos + k]
        self.pos += k
        return r

    def close(self):
        self.closed = True


class Reader(bearoff.DBReader):
    datalen = 4


def c17_read(c):
    size = c.param('size')
    data = c.chars('b', size)
    r = Reader()
    f = File(c, data)
    r.f = f
    f.pos = c.choice('at', (0, 3))
    i = c.choice('index', range(0, size / 4 + 2))
    try:
        s = r.rawread(i)
    except IndexError:
        c.check(i * 4 + 4 > size, 'a record that is there is read')
        c.reach('out of range')
        return
    c.check(i * 4 + 4 <= size, 'a record that is not there is refused')
    c.check(s == data[4 * i:4 * i + 4], "the record's own bytes")
    c.see(s)
    c.check(r.rawread(0) == data[:4], 'another record')
    r.close()
    c.check(f.closed, 'closed')
    c.reach('read')


def c17_count(c):
    """the counting formulas"""
    a = b = 0
    for m in range(16):
        a += bearoff.BackgammonCombination(m)
        b += bearoff.BackgammonCombination_allC(m)
    c.check(a == bearoff.WTN and b == bearoff.WTN, 'number of backgammon positions')
    n = c.choice('n', range(2, 8))
    m = c.choice('m', range(1, 16))
    c.check(bearoff.D(n, m) == bearoff.D(n, m - 1) + bearoff.D(n - 1, m), 'recurrence')
    c.check(bearoff.D(n, m) == choose(n + m - 1, m), 'combinations with repetition')
    c.reach('end')
