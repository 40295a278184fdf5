# Python 2 text, translated like the analysed code.
def heapify(h):
    h.sort()
def heappush(h, x):
    h.append(x)
    h.sort()
def heappop(h):
    return h.pop(0)
def heappushpop(h, x):
    heappush(h, x)
    return heappop(h)
def nlargest(n, it, key=None):
    return sorted(it, key=key, reverse=True)[:n]
def nsmallest(n, it, key=None):
    return sorted(it, key=key)[:n]
