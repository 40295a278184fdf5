# Stand-in for the absent library: binomial coefficients and the ranking of
# bit strings with a given number of ones (the last bit is the least
# significant), as the project's own tests describe them.


def fact(n):
    r = 1
    for i in range(2, n + 1):
        r = r * i
    return r


def C(n, r):
    if r < 0 or r > n:
        return 0
    v = 1
    for i in range(r):
        v = v * (n - i) // (i + 1)
    return v


def C_Hash(xs, r):
    """rank of the bits among those of the same length with r ones"""
    n = len(xs)
    h = 0
    k = 0
    for i in range(n - 1, -1, -1):
        if xs[i]:
            k += 1
            h += C(n - 1 - i, k)
    assert k == r
    return h


def C_RHash(x, n, r):
    """the n bits, r of them ones, whose rank is x"""
    out = []
    for i in range(n - 1, -1, -1):
        c = C(i, r)
        if r > 0 and x >= c:
            out.append(1)
            x = x - c
            r -= 1
        else:
            out.append(0)
    return out
