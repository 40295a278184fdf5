# C32: the bitmap backend, with a recording stand-in for the imaging library.
import Image
import ImageDraw
import ImageFont
from bglib.image import PIL, base, css
from bglib.model import Board


def fresh(c):
    Image.files.clear()
    del Image.opened[:]
    del ImageFont.opened[:]
    sizes = {}

    def measure(name, size, text):
        key = (name, size)
        if key not in sizes:
            k = len(sizes)
            sizes[key] = (c.int('w%d' % k, 0, c.param('wide', 40)), c.int('h%d' % k, 0, c.param('wide', 40)))
        return sizes[key]
    ImageFont.measure[0] = measure
    return sizes


def drawer(size):
    d = PIL.Draw(css.Binder())
    d.create_dc(size)
    return d, d.dc[0]


def c32_text(c):
    """text stands centred, in the largest font that fits, or not at all"""
    fresh(c)
    d, img = drawer((400, 300))
    height = c.int('height', 0, c.param('top'))
    width = c.int('width', 0, 30)
    x, y = c.int('x', 0, 300), c.int('y', 0, 200)
    c.check(img.size == (400, 300), 'a picture of the size asked')
    pair = c.choice('pair', (tuple, list))
    n = height
    best = None
    got = {}
    d.draw_text(pair((x, y)), pair((width, height)), '12', 'a.ttf', 'red')
    # the fonts measured are chosen by the code: largest first
    while n >= 8 or n == height:
        w, h = ImageFont.measure[0]('a.ttf', n, '12')
        if w < width and h < height:
            best = (n, w, h)
            break
        n = n - 1
        if n < 8:
            break
    c.see([(k[0], k[1], k[2], k[3].size, k[4]) for k in img.painted])
    if best is None:
        c.check(img.painted == [], 'no text that does not fit')
        c.reach('too small')
    else:
        c.check(len(img.painted) == 1, 'painted once')
        kind, at, text, font, fill = img.painted[0]
        c.check(kind == 'text' and text == '12' and fill == 'red', 'the text asked for')
        c.check(font.name == 'a.ttf' and font.size == best[0], 'the largest font that fits')
        dx, dy = at[0] - x, at[1] - y
        sx, sy = width - best[1] - dx, height - best[2] - dy
        c.check(0 <= dx and dx <= sx and sx <= dx + 1, 'centred across')
        c.check(0 <= dy and dy <= sy and sy <= dy + 1, 'centred downwards')
        c.reach('fits')
    c.reach('end')


def c32_pictures(c):
    """each picture is the file, size and way up asked for, whatever was asked before"""
    fresh(c)
    Image.files['a.png'] = (c.choice('a', ('RGBA', 'RGB')), (10, 20))
    Image.files['b.jpg'] = ('RGB', (30, 5))
    d, img = drawer((400, 300))
    for i in range(c.param('n')):
        name = c.choice('file%d' % i, ('a.png', 'b.jpg'))
        w, h = c.int('w%d' % i, 0, c.param('m')), c.int('h%d' % i, 0, c.param('m'))
        x, y = c.int('x%d' % i, 0, 200), c.int('y%d' % i, 0, 200)
        turn = c.choice('turn%d' % i, (False, True))
        size = [w, h] if i % 2 == 0 else (w, h)
        before = len(img.painted)
        p = d.load_image(name, size, turn)
        c.check(p.mode == Image.files[name][0], 'of its kind')
        c.check(p.made[0] == ('file', name), 'from the file asked for')
        c.check(len([s for s in p.made if s == ('turned', Image.FLIP_TOP_BOTTOM)]) == (1 if turn else 0) and
                len([s for s in p.made if s[0] == 'turned']) == (1 if turn else 0), 'upside down when asked')
        c.check(p.size == (w, h), 'of the size asked for')
        d.paste_image(p, [x, y], size)
        c.check(len(img.painted) == before + 1, 'painted once')
        kind, what, box, mask = img.painted[-1]
        c.check(kind == 'picture' and what is p and box == (x, y, x + w, y + h), 'in the rectangle asked for')
        c.check((mask is p) if p.mode == 'RGBA' else (mask is None), 'transparent where it is')
    bad = None
    try:
        d.load_image('none.png', (3, 4), False)
    except IOError, e:
        bad = e
    c.check(bad is not None, 'a missing file is reported')
    c.check(len(Image.opened) <= c.param('n') + 1, 'no file read twice for one picture')
    c.see([(k[0], k[1].made, k[2]) for k in img.painted])
    c.reach('end')


def c32_fonts(c):
    fresh(c)
    d = PIL.Draw(css.Binder())
    for i in range(3):
        name = c.choice('font%d' % i, ('a.ttf', 'b.ttf'))
        size = c.int('size%d' % i, 1, c.param('m'))
        f = d.load_font(name, size)
        c.check(f.name == name and f.size == size, 'the font asked for')
        c.check(len(ImageFont.opened) <= i + 1, 'opened once')
    c.see(ImageFont.opened)
    c.reach('end')


def c32_shapes(c):
    fresh(c)
    d, img = drawer((400, 300))
    x, y, w, h = c.int('x', 0, 300), c.int('y', 0, 200), c.int('w', 0, 100), c.int('h', 0, 100)
    pair = c.choice('pair', (tuple, list))
    at, size = pair((x, y)), pair((w, h))
    what = c.choice('what', ('ellipse', 'empty ellipse', 'rect', 'polygon', 'empty polygon'))
    fill = c.choice('fill', ('red', '#102030'))
    if what == 'ellipse':
        d.draw_ellipse(at, size, fill=fill)
        want = ('ellipse', (x, y, x + w, y + h), fill)
    elif what == 'empty ellipse':
        d.draw_ellipse(at, size)
        want = ('ellipse', (x, y, x + w, y + h), None)
    elif what == 'rect':
        d.draw_rect(tuple(at), size, fill)
        want = ('rectangle', (x, y, x + w - 1, y + h - 1), fill)
    elif what == 'polygon':
        d.draw_polygon([(x, y), (x + w, y), (x, y + h)], fill=fill)
        want = ('polygon', (x, y, x + w, y, x, y + h), fill)
    else:
        d.draw_polygon([(x, y), (x + w, y), (x, y + h)])
        want = ('polygon', (x, y, x + w, y, x, y + h), None)
    c.check(img.painted == [want], 'the shape asked for, once')
    c.see(img.painted)
    c.reach(what)


SHEET = ('board {x: 0; y: 0; width: 100; height: 80; font: uri("a.ttf"); background: green}',
         'score {x: 0; y: 0; width: 40; height: 30; color: red}',
         'score[player=him] {y: 40}',
         'length {x: 50; y: 0; width: 20; height: 20; image: uri("p.png")}',
         'die {x: 60; y: 50; width: 10; height: 10; color: black; eyesize: 2}')


class Broken(Exception):
    pass


def c32_draw(c):
    """drawing hands back a new picture of the size asked, also after a failure"""
    fresh(c)
    Image.files['themes/p.png'] = ('RGBA', (20, 20))
    sheet = css.Binder()
    p = css.CSSParser()
    for i in range(len(SHEET)):
        sheet.append(p.rule('themes/x.css', i + 1, SHEET[i]))
    d = PIL.Draw(sheet)
    ImageFont.measure[0] = lambda name, size, text: (size // 2, size)
    n, m = c.int('n', 0, 25), c.int('m', 1, 25)
    b = Board(score=(n, 3), match_length=m, game_state=1, rolled=(2, 1))
    size = c.choice('size', ((200, 160), (100, 200), (30, 9)))
    if c.choice('fail', (False, True)):
        del Image.files['themes/p.png']
        failed = False
        try:
            d.draw(b, (64, 64))
        except IOError, e:
            failed = True
        c.check(failed, 'a missing picture is reported')
        Image.files['themes/p.png'] = ('RGBA', (20, 20))
        c.reach('fail')
    first = d.draw(b, size)
    again = d.draw(b, size)
    c.check(first.size == size and again.size == size, 'of the size asked')
    c.check(first is not again, 'a picture of its own each time')
    one, two = described(first), described(again)
    c.check(one == two, 'the same picture again')
    c.check(one[0][0] == 'rectangle', 'the background first')
    c.check(len([k for k in one if k[0] == 'picture']) == 1, 'the picture')
    c.check(len([k for k in one if k[0] == 'ellipse']) == 3, 'the dots of a two and an ace')
    if size == (200, 160):
        c.check([k[2] for k in one if k[0] == 'text'] == [str(n), '3'], 'the scores')
    c.see(one)
    c.reach('end')


def described(img):
    out = []
    for k in img.painted:
        if k[0] == 'text':
            out.append(k[:3] + ((k[3].name, k[3].size), k[4]))
        elif k[0] == 'picture':
            out.append((k[0], k[1].made, k[2], k[3] is k[1]))
        else:
            out.append(k)
    return out
