# C23: escaping text for HTML.
from bglib.doc import html

ENTITIES = ('&lt;', '&gt;', '&amp;')
LETTER = {'&lt;': '<', '&gt;': '>', '&amp;': '&'}


def unescape(c, t):
    """read the escaped text back; fails where it is not escaped text"""
    out = []
    i = 0
    n = len(t)
    while i < n:
        ch = t[i]
        c.check(ch != '<' and ch != '>', 'no angle brackets')
        if ch == '&':
            hit = None
            for e in ENTITIES:
                if t[i:i + len(e)] == e:
                    hit = e
            c.check(hit is not None, 'an ampersand starts an entity')
            out.append(LETTER[hit])
            i = i + len(hit)
        else:
            out.append(ch)
            i = i + 1
    return out


def c23(c):
    n = c.param('n')
    s = c.chars('s', n, c.param('alphabet', None))
    e = html.escape(s)
    c.check(html.escape(s) == e, 'same text, same escape')
    back = unescape(c, e)
    c.check(len(back) == n, 'nothing lost')
    for i in range(n):
        c.check(back[i] == s[i], 'the text is recovered')
    c.see(e)
    c.reach('end')


def c23_parts(c):
    """the escape of a text is the escapes of its two parts joined"""
    n, m = c.param('n'), c.param('m')
    s = c.chars('s', n, c.param('alphabet', None))
    a, b = s[:m], s[m:]
    c.check(html.escape(s) == html.escape(a) + html.escape(b), 'character by character')
    c.see(html.escape(s))
    c.reach('end')


def c23_plain(c):
    n = c.param('n')
    s = c.chars('s', n)
    for ch in s:
        c.assume(ch != '<')
        c.assume(ch != '>')
        c.assume(ch != '&')
    e = html.escape(s)
    c.check(e == s, 'plain text is unchanged')
    c.see(e)
    c.reach('end')
