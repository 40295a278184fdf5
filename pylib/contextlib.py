# Python 2 text, translated like the analysed code.
class _Manager(object):
    def __init__(self, gen):
        self.gen = gen
    def __enter__(self):
        return self.gen.next()
    def __exit__(self, t, v, tb):
        if t is None:
            try:
                self.gen.next()
            except StopIteration:
                return
            raise RuntimeError("generator didn't stop")
        if v is None:
            v = t()
        try:
            self.gen.throw(t, v)
        except StopIteration, e:
            return e is not v
        except BaseException, e:
            if e is not v:
                raise
            return False
        raise RuntimeError("generator didn't stop after throw()")

def contextmanager(f):
    def helper(*a, **k):
        return _Manager(f(*a, **k))
    return helper

class closing(object):
    def __init__(self, thing):
        self.thing = thing
    def __enter__(self):
        return self.thing
    def __exit__(self, *a):
        self.thing.close()
