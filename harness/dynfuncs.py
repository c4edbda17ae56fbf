"""ordinary functions handed to Dynamic.from_function"""
F = D = E = None
DEFAULT = object()


def one(x):
    return F(x)


def two(x, y):
    return F(x, y)


def default(x, y="dflt", *, k=("kd",)):
    return F(x, y, k=k)


def star(*args, **kwargs):
    return F(*args, **kwargs)


def outer():
    def nested(x, y="nd"):
        return F(x, y)
    return nested


nested = outer()
NAMES = ("one", "two", "default", "star", "nested")


def get(name, g):
    globals().update(g)
    return globals()[name]
