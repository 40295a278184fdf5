# Stand-in for the imaging library (absent here): pictures record what is done to them.
FLIP_LEFT_RIGHT = 0
FLIP_TOP_BOTTOM = 1
ROTATE_90 = 2
ROTATE_180 = 3
ROTATE_270 = 4
NEAREST, BILINEAR, BICUBIC, ANTIALIAS = 0, 2, 3, 1
files = {}      # name -> (mode, size): the picture files there are
opened = []     # every file opened, in order


class Picture(object):
    def __init__(self, mode, size, made):
        self.mode = mode
        self.size = tuple(size)
        self.made = made        # how it came about: the file and what was done to it
        self.painted = []       # what was painted on it

    def transpose(self, how):
        return Picture(self.mode, self.size, self.made + (('turned', how),))

    def resize(self, size, *filter):
        assert isinstance(size, tuple)
        return Picture(self.mode, size, self.made + (('scaled', size),))

    def copy(self):
        return Picture(self.mode, self.size, self.made)

    def load(self):
        return None

    def paste(self, what, box=None, mask=None):
        self.painted.append(('picture', what, tuple(box), mask))


def new(mode, size, color=0):
    return Picture(mode, size, (('new', mode),))


def open(name, mode='r'):
    opened.append(name)
    if name not in files:
        raise IOError('no such picture: ' + name)
    kind, size = files[name]
    return Picture(kind, size, (('file', name),))
