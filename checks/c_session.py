# C21: delivering session events and holding the session lock.
import socket
from bglib.protocol import session


class Odd(Exception):
    pass


class Lock(object):
    """counts how often it is taken and given back"""
    def __init__(self, c):
        self.c, self.depth, self.taken, self.free = c, 0, 0, None

    def acquire(self, *a):
        self.depth = self.depth + 1
        self.taken = self.taken + 1
        return True

    def release(self):
        self.c.check(self.depth > 0, 'only a taken lock is released')
        self.depth = self.depth - 1

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def notify(self, *a):
        pass

    def notifyAll(self, *a):
        pass

    def wait(self, *a):
        pass


class Body(object):
    """a guarded operation that returns or raises"""
    lock = lambda self, *a, **k: self.held

    def __init__(self, c, held, deeds):
        self.c, self.held, self.deeds, self.calls = c, held, deeds, []

    def step(self, depth, x, y=None):
        self.c.check(self.held.depth == depth, 'the lock is held while the operation runs')
        self.calls.append((depth, x, y))
        deed = self.deeds[depth - 1]
        if deed == 'again':
            return self.step(depth + 1, x, y=y)
        if deed == 'error':
            raise Odd('odd')
        if deed == 'exit':
            raise SystemExit()
        if deed == 'attribute':
            raise AttributeError('odd')
        if deed == 'nothing':
            return None
        return (x, y, depth)
    step = session.synchronized_with(lock)(step)


DEEDS = ('value', 'nothing', 'error', 'exit', 'attribute')


def c21_guard(c):
    """a guarded operation, entered again from inside, returns or raises"""
    n = c.param('deep')
    last = c.choice('deed', DEEDS)
    held = Lock(c)
    b = Body(c, held, ['again'] * (n - 1) + [last])
    x, y = c.int('x', -50, 50), c.int('y', -50, 50)
    got, raised = 'none', None
    try:
        got = b.step(1, x, y=y)
    except Odd:
        raised = 'error'
    except SystemExit:
        raised = 'exit'
    except AttributeError:
        raised = 'attribute'
    c.check(held.depth == 0, 'the lock is released')
    c.check(held.taken == n, 'taken once per entry')
    c.check(len(b.calls) == n, 'the operation ran once')
    for i in range(n):
        c.check(b.calls[i] == (i + 1, x, y), 'the arguments are passed on')
    if last in ('value', 'nothing'):
        c.check(raised is None, 'nothing is raised')
        if last == 'value':
            c.check(got == (x, y, n), 'the result is passed on')
        else:
            c.check(got is None, 'no result is passed on')
    else:
        c.check(raised == last, 'the exception is passed on')
    c.see([got, raised])
    c.reach(last)


class Sub(session.Subscriber):
    def __init__(self, n, world):
        session.Subscriber.__init__(self)
        self.n, self.world = n, world


class One(Sub):
    def FIBS_Board(self, got):
        self.world.told(self.n, 'FIBS_Board', got)


class Two(Sub):
    def CLIP_SAYS(self, got):
        self.world.told(self.n, 'CLIP_SAYS', got)


class Both(Sub):
    def FIBS_Board(self, got):
        self.world.told(self.n, 'FIBS_Board', got)

    def CLIP_SAYS(self, got):
        self.world.told(self.n, 'CLIP_SAYS', got)


class Ends(Sub):
    def FIBS_Board(self, got):
        self.world.told(self.n, 'FIBS_Board', got)

    def socket_error(self, got):
        self.world.told(self.n, 'socket_error', got)

    def EOFError(self, got):
        self.world.told(self.n, 'EOFError', got)


HANDLES = {One: ('FIBS_Board',), Two: ('CLIP_SAYS',), Both: ('FIBS_Board', 'CLIP_SAYS'),
           Ends: ('FIBS_Board', 'socket_error', 'EOFError')}


class World(object):
    """a session with subscribers and what reached them"""
    def __init__(self, c, sorts):
        self.c, self.log, self.acts, self.at = c, [], {}, 0
        self.s = session.Session()
        self.lock = self.s._lock = Lock(c)
        self.subs = []
        for i in range(len(sorts)):
            self.subs.append(sorts[i](i, self))
        self.on = []
        self.closed = False
        self.other = None

    def told(self, n, name, got):
        self.c.check(n in self.on, 'nothing reaches an unregistered subscriber')
        self.log.append((n, name, got))
        self.switch()
        act = self.acts.get(n)
        if act is not None and name in ('FIBS_Board', 'CLIP_SAYS'):
            self.act(n, act)

    def switch(self):
        """another thread may run whenever the lock is free"""
        o = self.other
        if o is not None and self.lock.depth == 0 and self.c.bool('switch%d' % self.at):
            self.other = None
            self.act(o[0], o[1])
        self.at = self.at + 1

    def act(self, n, act):
        if act == 'leave':
            self.leave(n)
        elif act == 'leave next':
            self.leave(n + 1)
        elif act == 'leave before':
            self.leave(n - 1)
        elif act == 'join':
            self.join(len(self.subs) - 1)
        elif act == 'close':
            self.close()
        elif act == 'raise':
            raise Odd('odd')
        elif act == 'attribute':
            raise AttributeError('odd')

    def join(self, *ns):
        self.s.register(*[self.subs[n] for n in ns])
        for n in ns:
            self.on.append(n)

    def leave(self, n):
        if n in self.on:
            self.s.unregister(self.subs[n])
            self.on.remove(n)

    def close(self):
        self.s.close()
        self.closed = True

    def handles(self, n, name):
        return name in HANDLES[self.subs[n].__class__]

    def expect(self, name, got):
        """what an event does, by the statement of the property"""
        out, on = [], list(self.on)
        gone = False
        for n in list(on):
            if n in on and not gone and self.handles(n, name):
                out.append((n, name, got))
                act = self.acts.get(n)
                if act in ('raise', 'attribute'):
                    gone = True
                elif act == 'leave':
                    on.remove(n)
                elif act == 'leave next' and n + 1 in on:
                    on.remove(n + 1)
                elif act == 'leave before' and n - 1 in on:
                    on.remove(n - 1)
        return out, gone

    def dispatch(self, name, got):
        raised = None
        try:
            self.s._dispatch(name, got)
        except SystemExit:
            raised = 'exit'
        except Odd:
            raised = 'raise'
        except AttributeError:
            raised = 'attribute'
        return raised


SORTS = (One, Two, Both)
ACTS = ('note', 'leave', 'leave next', 'leave before', 'raise', 'attribute', 'close')


def c21_dispatch(c):
    """events one after another reach the registered subscribers"""
    n, events = c.param('n'), c.param('events')
    w = World(c, [SORTS[c.choice('sort%d' % i, (0, 1, 2))] for i in range(n)])
    if c.param('many', False):
        w.join(*range(n))
    else:
        for i in c.param('order', range(n)):
            w.join(i)
    c.check(w.lock.depth == 0, 'the lock is free')
    actor = c.choice('actor', range(n))
    w.acts[actor] = act = c.choice('act', ACTS)
    for k in range(events):
        name = c.choice('event%d' % k, ('FIBS_Board', 'CLIP_SAYS'))
        got = c.int('got%d' % k, 0, 99)
        w.log = []
        was = w.closed
        want, stopped = w.expect(name, got)
        raised = w.dispatch(name, got)
        c.check(w.lock.depth == 0, 'the lock is released')
        if was:
            c.check(len(w.log) == 0, 'nothing after closing')
            c.check(raised == 'exit', 'the listener ends after closing')
            c.check(w.s.terminated.isSet(), 'closing is reported')
        else:
            if w.closed:
                # what a subscriber closing the session leaves undelivered is open
                c.check(w.log == want[:len(w.log)], 'in order until closing')
            else:
                c.check(w.log == want, 'each once and in order')
            c.check(raised == (stopped and act or None), 'what a handler raises is passed on')
        c.see([was, len(w.log), raised])
    c.reach(act)


def c21_members(c):
    """registering, unregistering, delivering and closing in any order"""
    n, steps = 3, c.param('steps')
    w = World(c, (Both, One, Both))
    for k in range(steps):
        op = c.choice('op%d' % k, ('join', 'leave', 'event', 'close', 'active', 'say'))
        if op == 'join':
            i = c.choice('who%d' % k, range(n))
            c.assume(i not in w.on)
            w.join(i)
        elif op == 'leave':
            i = c.choice('who%d' % k, range(n))
            if i in w.on:
                w.leave(i)
            else:
                failed = False
                try:
                    w.s.unregister(w.subs[i])
                except ValueError:
                    failed = True
                c.check(failed, 'leaving twice is an error')
        elif op == 'close':
            w.close()
        elif op == 'active':
            c.check(not w.s.is_active(), 'not open')
        elif op == 'say':
            sent = []
            w.s.write = sent.append
            text = c.chars('text%d' % k, 2)
            w.s.send_line(text)
            c.check(''.join(sent) == text + '\r\n', 'a line is sent whole and once')
        else:
            got = c.int('got%d' % k, 0, 99)
            w.log = []
            want, _ = w.expect('CLIP_SAYS', got)
            raised = w.dispatch('CLIP_SAYS', got)
            if w.closed:
                c.check(w.log == [] and raised == 'exit', 'nothing after closing')
                c.reach('closed')
            else:
                c.check(w.log == want and raised is None, 'each once and in order')
                c.reach('told')
        c.check(w.lock.depth == 0, 'the lock is released')


def c21_threads(c):
    """another thread unregisters or closes while an event is delivered"""
    w = World(c, (Both, One, Both))
    w.join(0, 1, 2)
    w.other = (c.choice('who', (0, 1, 2)), c.choice('does', ('leave', 'close')))
    raised = w.dispatch('FIBS_Board', 1)
    if w.other is not None:
        c.check(w.log == [(0, 'FIBS_Board', 1), (1, 'FIBS_Board', 1), (2, 'FIBS_Board', 1)], 'each once and in order')
        w.act(w.other[0], w.other[1])
    c.check(raised is None or w.closed, 'nothing is raised')
    c.reach('end')


class Script(object):
    """what the server sends"""
    def __init__(self, c, world, n):
        self.c, self.world, self.n, self.k, self.lines = c, world, n, 0, []

    def expect(self, wanted, timeout=None):
        c = self.c
        c.check(self.world.lock.depth == 0, 'nobody waits for the server while holding the lock')
        k = self.k
        c.check(k <= self.n, 'the listener ends')
        self.k = k + 1
        kind = 'over'
        if k < self.n:
            kind = c.choice('kind%d' % k, ('line', 'prompt', 'error', 'over', 'broken'))
        if kind == 'error':
            raise socket.error('gone')
        if kind == 'over':
            raise EOFError('over')
        if kind == 'broken':
            raise Odd('odd')
        text = c.chars('text%d' % k, self.c.param('length'))
        if kind == 'line':
            self.lines.append(text)
            return 0, None, text + '\r\n'
        self.lines.append(text + 'login: ')
        return 1, None, text + 'login: '

    def make_cookie(self, line):
        self.c.check(line == self.lines[len(self.lines) - 1], 'a line is classified without its end')
        return 'FIBS_Board'


def c21_listener(c):
    """the listener delivers every line once and ends at the end of the connection"""
    w = World(c, (Ends, Two, Both))
    w.join(0, 1, 2)
    sc = Script(c, w, c.param('n'))
    w.s.expect = sc.expect
    w.s.monster = sc
    w.s._active = True
    w.acts[0] = c.choice('act', ('note', 'raise', 'close'))
    ended = False
    try:
        w.s._listener()
    except SystemExit:
        ended = True
    c.check(ended, 'the listener ends its thread')
    c.check(w.lock.depth == 0, 'the lock is released')
    want = []
    for t in sc.lines:
        want.append((0, 'FIBS_Board', t))
        want.append((2, 'FIBS_Board', t))
    got = [x for x in w.log if x[1] == 'FIBS_Board']
    if w.acts[0] == 'note':
        c.check(got == want, 'every line once and in order')
        ends = [x for x in w.log if x[1] != 'FIBS_Board']
        last = c.param('n')
        kind = 'over'
        if sc.k <= last:
            kind = c.choice('kind%d' % (sc.k - 1), ('line', 'prompt', 'error', 'over', 'broken'))
        if kind == 'error':
            c.check([x[1] for x in ends] == ['socket_error'], 'a lost connection is told')
        elif kind == 'over':
            c.check([x[1] for x in ends] == ['EOFError'], 'the end of the connection is told')
        else:
            c.check(ends == [], 'nothing else is told')
        c.reach(kind)
    else:
        c.check(got == want[:len(got)], 'in order until the handler ends it')
        c.check(len(sc.lines) <= 1, 'the listener reads no more')
    c.see([w.acts[0], len(w.log)])
