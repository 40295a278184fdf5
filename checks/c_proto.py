# C20: classifying the lines of a FIBS server.
import re as real_re
from bglib.protocol import fibs

PHASES = {'login': fibs.LoginState, 'motd': fibs.MOTDState, 'run': fibs.RunState}
DEFAULT = {'login': 'FIBS_PreLogin', 'motd': 'FIBS_MOTD', 'run': 'FIBS_Unknown'}


def kinds(cls):
    """the message kinds of a phase with their patterns"""
    return dict([(k, list(v)) for k, v in cls.__dict__.items()
                 if k[:4] == 'CLIP' or k[:4] == 'FIBS'])


KINDS = dict([(p, kinds(PHASES[p])) for p in PHASES])


class Pattern(object):
    """a compiled pattern of which only whether it matches is known"""
    def __init__(self, engine, text):
        self.engine, self.pattern = engine, text

    def match(self, line):
        return self.engine.ask(self.pattern, line)


class Patterns(object):
    """stands in for the re module: which patterns match which line is free"""
    error = real_re.error

    def __init__(self, c, live=None):
        self.c, self.live = c, live

    def ask(self, text, line):
        if self.live is not None and text not in self.live:
            return None
        if self.c.bool('%s ~ %s' % (line, text)):
            return self
        return None

    def compile(self, p, flags=0):
        if isinstance(p, Pattern):
            return p
        return Pattern(self, p)

    def match(self, p, line, flags=0):
        if isinstance(p, Pattern):
            p = p.pattern
        return self.ask(p, line)


def forget():
    cache = getattr(fibs.State, 'regexp_cache', None)
    if cache:
        cache.clear()


def sound(c, phase, name, matches, label):
    """name is a kind one of whose patterns matches, or the default and none does"""
    known = KINDS[phase]
    hit = False
    if name in known:
        for p in known[name]:
            hit = hit or matches(p)
    if name != DEFAULT[phase]:
        c.check(name in known, label + ': a kind of this phase')
        c.check(hit, label + ': a pattern of the kind matches')
    elif not hit:
        for k in known:
            for p in known[k]:
                c.check(not matches(p), label + ': nothing else matches')
    return hit


def c20_one(c):
    """one line, any set of the patterns of the phase matching it"""
    phase = c.param('phase')
    fibs.re = eng = Patterns(c)
    forget()
    st = PHASES[phase]()
    name = st.make_cookie('line')
    hit = sound(c, phase, name, lambda p: eng.ask(p, 'line') is not None, 'one line')
    if hit:
        c.reach('named')
    else:
        c.reach('default')
    c.see(bool(hit))


def c20_empty(c):
    """an empty line is told apart while running and changes nothing"""
    fibs.re = eng = Patterns(c, KINDS['run']['FIBS_Board'])
    forget()
    m = fibs.CookieMonster()
    m.state = fibs.RunState()
    c.check(m.make_cookie('') == 'FIBS_Empty', 'an empty line')
    name = m.make_cookie('line')
    sound(c, 'run', name, lambda p: eng.ask(p, 'line') is not None, 'after an empty line')
    c.reach('end')


def c20_history(c):
    """lines one after another in one phase: the latest kind is preferred"""
    phase, names, n = c.param('phase'), c.param('kinds'), c.param('n')
    live = []
    for k in names:
        live = live + KINDS[phase][k]
    fibs.re = eng = Patterns(c, live)
    forget()
    st = PHASES[phase]()
    recent = []
    for i in range(n):
        line = 'line%d' % i
        name = st.make_cookie(line)
        sound(c, phase, name, lambda p: eng.ask(p, line) is not None, 'line %d' % i)
        want = None
        for k in recent:
            if want is None:
                for p in KINDS[phase][k]:
                    if eng.ask(p, line) is not None:
                        want = k
        if want is not None:
            c.check(name == want, 'the kind seen last is preferred')
            c.reach('preferred')
        else:
            c.check(name not in recent or name == DEFAULT[phase], 'no earlier kind matches')
        if name in KINDS[phase]:
            hit = False
            for p in KINDS[phase][name]:
                hit = hit or eng.ask(p, line) is not None
            if hit:
                recent = [name] + [k for k in recent if k != name]
    c.reach('end')


class Fixed(object):
    """stands in for the re module: lines named after a kind match its first
    pattern only, which patterns match other lines is free"""
    error = real_re.error

    def __init__(self, c, said):
        self.free = Patterns(c)
        self.said = said

    def ask(self, text, line):
        if line in self.said:
            return self if text == self.said[line] else None
        return self.free.ask(text, line)

    def compile(self, p, flags=0):
        return p if isinstance(p, Pattern) else Pattern(self, p)

    def match(self, p, line, flags=0):
        return self.ask(p.pattern if isinstance(p, Pattern) else p, line)


def c20_long(c):
    """a long history, then a line that any set of the patterns may match"""
    phase = c.param('phase')
    order = sorted(KINDS[phase])
    order = order[c.param('skip'):] + order[:c.param('skip')]
    order = order[::c.param('every')]
    order = order + order[::5]
    said = {}
    for k in order:
        said['like ' + k] = KINDS[phase][k][0]
    fibs.re = eng = Fixed(c, said)
    forget()
    st = PHASES[phase]()
    recent = []
    for k in order:
        got = st.make_cookie('like ' + k)
        c.check(said['like ' + k] in KINDS[phase].get(got, ()), 'a pattern of the kind matches')
        recent = [got] + [x for x in recent if x != got]
    name = st.make_cookie('line')
    want = None
    for k in recent:
        if want is None:
            for p in KINDS[phase][k]:
                if want is None and eng.ask(p, 'line') is not None:
                    want = k
    if want is not None:
        c.check(name == want, 'the kind seen last is preferred')
        c.reach('preferred')
    c.reach('end')


FLOW = {('login', 'CLIP_MOTD_BEGIN'): 'motd', ('motd', 'CLIP_MOTD_END'): 'run', ('run', 'FIBS_Goodbye'): 'login'}


def c20_phases(c):
    """any lines from the start: the phase moves on its markers only"""
    n = c.param('n')
    live = []
    for phase, names in c.param('kinds'):
        for k in names:
            live = live + KINDS[phase][k]
    fibs.re = eng = Patterns(c, live)
    forget()
    m = fibs.CookieMonster()
    phase = 'login'
    for i in range(n):
        line = 'line%d' % i
        name = m.make_cookie(line)
        sound(c, phase, name, lambda p: eng.ask(p, line) is not None, 'in ' + phase)
        phase = FLOW.get((phase, name), phase)
        c.reach(phase)


def c20_past(c):
    """a fresh phase classifies as one of a fresh program does"""
    phase, names = c.param('phase'), c.param('kinds')
    live = []
    for ph in PHASES:
        for k in names:
            live = live + KINDS[ph].get(k, [])
    fibs.re = Patterns(c, live)
    forget()
    a = PHASES[phase]().make_cookie('line')
    forget()
    for i, ph in enumerate(c.param('before')):
        PHASES[ph]().make_cookie('earlier%d' % i)
    b = PHASES[phase]().make_cookie('line')
    c.check(a == b, 'the past does not matter')
    c.reach('end')


def c20_text(c):
    """real patterns and real text"""
    fibs.re = real_re
    forget()
    phase = c.param('phase')
    line = c.param('before', '') + c.chars('s', c.param('n'), c.param('alphabet', None)) + c.param('after', '')
    name = PHASES[phase]().make_cookie(line)
    if len(line) == 0 and phase == 'run':
        c.check(name == 'FIBS_Empty', 'an empty line')
    else:
        sound(c, phase, name, lambda p: real_re.match(p, line) is not None, 'text')
    c.reach('end')


def marker(phase, line):
    if phase == 'login':
        return line == '3' or line == '3\n'
    if phase == 'motd':
        return line == '4' or line == '4\n'
    return line[:19] == '           Goodbye.'


NEXT = {'login': 'motd', 'motd': 'run', 'run': 'login'}
PROBE = {'login': ('3', 'CLIP_MOTD_BEGIN'), 'motd': ('4', 'CLIP_MOTD_END'), 'run': ('6', 'CLIP_WHO_END')}


def c20_marker(c):
    """real text: the phase moves on exactly the marker of the protocol"""
    fibs.re = real_re
    forget()
    m = fibs.CookieMonster()
    phase = c.param('phase')
    for ph in ('login', 'motd', 'run'):
        if ph == phase:
            break
        m.make_cookie(PROBE[ph][0])
    line = c.param('before', '') + c.chars('s', c.param('n'), c.param('alphabet', None)) + c.param('after', '')
    m.make_cookie(line)
    now = phase
    if marker(phase, line):
        now = NEXT[phase]
        c.reach('moved')
    else:
        c.reach('stayed')
    text, want = PROBE[now]
    c.check(m.make_cookie(text) == want, 'the phase is the one of the protocol')
