# Random draws as inputs: stands in for the random module's functions.
import random

CURRENT = [None]


class Source(object):
    """draws for one round: a permutation and numbers in [0, 1)"""
    def __init__(self, c, name, swaps=None):
        self.c, self.name = c, name
        self.swaps = swaps
        self.draws = []
        self.order = None

    def random(self):
        v = self.c.real('%sdraw%d' % (self.name, len(self.draws)), 0, 0.999999)
        self.draws.append(v)
        return v

    def shuffle(self, xs):
        # any permutation: each place gets any of the entries left
        rest = list(xs)
        for i in range(len(xs)):
            k = 0
            if len(rest) > 1:
                k = self.c.choice('%splace%d_%d' % (self.name, i, len(rest)), range(len(rest)))
            xs[i] = rest[k]
            rest = rest[:k] + rest[k + 1:]
        self.order = list(xs)


def use(s):
    CURRENT[0] = s


def _random():
    return CURRENT[0].random()


def _shuffle(xs, r=None):
    CURRENT[0].shuffle(xs)


random.random = _random
random.shuffle = _shuffle
