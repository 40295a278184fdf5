def warn(*a, **k):
    pass
def simplefilter(*a, **k):
    pass
filterwarnings = simplefilter
