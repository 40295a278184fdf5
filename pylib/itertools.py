# Python 2 text, translated like the analysed code.
class chain(object):
    def __init__(self, *its):
        self._g = _chain(its)
    def __iter__(self):
        return self._g
    def next(self):
        return self._g.next()
    @staticmethod
    def from_iterable(its):
        return _chain(its)

def _chain(its):
    for it in its:
        for x in it:
            yield x

def count(n=0, step=1):
    while True:
        yield n
        n = n + step

def repeat(x, times=None):
    if times is None:
        while True:
            yield x
    for i in range(times):
        yield x

def cycle(it):
    xs = []
    for x in it:
        yield x
        xs.append(x)
    while xs:
        for x in xs:
            yield x

def islice(it, *a):
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    else:
        start, stop = a[0] or 0, a[1]
        step = a[2] if len(a) > 2 and a[2] is not None else 1
    it = iter(it)
    i = 0
    nxt = start
    while stop is None or nxt < stop:
        try:
            x = it.next()
            while i < nxt:
                x = it.next()
                i = i + 1
        except StopIteration:
            return
        i = i + 1
        yield x
        nxt = nxt + step

def imap(f, *its):
    for xs in izip(*its):
        if f is None:
            yield xs
        else:
            yield f(*xs)

def starmap(f, it):
    for xs in it:
        yield f(*xs)

def ifilter(p, it):
    for x in it:
        if (x if p is None else p(x)):
            yield x

def ifilterfalse(p, it):
    for x in it:
        if not (x if p is None else p(x)):
            yield x

def izip(*its):
    its = [iter(it) for it in its]
    while its:
        xs = []
        for it in its:
            try:
                xs.append(it.next())
            except StopIteration:
                return
        yield tuple(xs)

def izip_longest(*its, **k):
    fill = k.get('fillvalue')
    its = [iter(it) for it in its]
    live = [True] * len(its)
    while True:
        xs = []
        for i in range(len(its)):
            v = fill
            if live[i]:
                try:
                    v = its[i].next()
                except StopIteration:
                    live[i] = False
            xs.append(v)
        if not any(live):
            return
        yield tuple(xs)

def takewhile(p, it):
    for x in it:
        if not p(x):
            return
        yield x

def dropwhile(p, it):
    dropping = True
    for x in it:
        if dropping and p(x):
            continue
        dropping = False
        yield x

def groupby(it, key=None):
    groups = []
    for x in it:
        k = x if key is None else key(x)
        if groups and groups[-1][0] == k:
            groups[-1][1].append(x)
        else:
            groups.append((k, [x]))
    for k, xs in groups:
        yield k, iter(xs)

def compress(data, selectors):
    for d, s in izip(data, selectors):
        if s:
            yield d

def tee(it, n=2):
    xs = list(it)
    return tuple([iter(xs) for i in range(n)])

def product(*its, **k):
    pools = [tuple(it) for it in its] * k.get('repeat', 1)
    result = [()]
    for pool in pools:
        result = [x + (y,) for x in result for y in pool]
    for r in result:
        yield r

def _pick(n, r, reuse, ordered):
    def go(start, used):
        if len(used) == r:
            yield tuple(used)
            return
        for i in range(0 if ordered else start, n):
            if not reuse and i in used:
                continue
            for t in go(i if reuse else i + 1, used + [i]):
                yield t
    return go(0, [])

def combinations(it, r):
    pool = tuple(it)
    for t in _pick(len(pool), r, False, False):
        yield tuple([pool[i] for i in t])

def combinations_with_replacement(it, r):
    pool = tuple(it)
    for t in _pick(len(pool), r, True, False):
        yield tuple([pool[i] for i in t])

def permutations(it, r=None):
    pool = tuple(it)
    if r is None:
        r = len(pool)
    for t in _pick(len(pool), r, False, True):
        yield tuple([pool[i] for i in t])
