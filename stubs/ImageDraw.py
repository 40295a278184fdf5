# Stand-in for the imaging library (absent here): records what is drawn.
class Draw(object):
    def __init__(self, picture):
        self.picture = picture

    def text(self, at, text, fill=None, font=None):
        self.picture.painted.append(('text', tuple(at), text, font, fill))

    def textsize(self, text, font=None):
        return font.getsize(text)

    def ellipse(self, box, fill=None, outline=None):
        self.picture.painted.append(('ellipse', flat(box), fill))

    def polygon(self, points, fill=None, outline=None):
        self.picture.painted.append(('polygon', flat(points), fill))

    def rectangle(self, box, fill=None, outline=None):
        self.picture.painted.append(('rectangle', flat(box), fill))


def flat(box):
    out = []
    for v in box:
        if isinstance(v, (tuple, list)):
            out.extend(v)
        else:
            out.append(v)
    return tuple(out)
