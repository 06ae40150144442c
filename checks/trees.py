"""Naive model of ordered trees, shared by the bounded checks of C09-C11."""


def trees(n):
    """All ordered trees with n nodes, as nested lists."""
    if n == 1:
        yield []
        return
    yield from ([*f] for f in forests(n - 1))


def forests(n):
    if n == 0:
        yield []
        return
    for k in range(1, n + 1):
        for first in trees(k):
            for rest in forests(n - k):
                yield [first] + rest


def paths(shape, at=()):
    """All paths (tuples of indices) in document order."""
    yield at
    for i, s in enumerate(shape):
        yield from paths(s, at + (i,))


def random_shape(rng, n):
    """A random tree with n nodes."""
    root = []
    all_ = [root]
    for _ in range(n - 1):
        p = rng.choice(all_ if rng.random() < .6 else all_[-3:])
        k = []
        p.insert(rng.randint(0, len(p)), k)
        all_.append(k)
    return root


def get(shape, path):
    for i in path:
        shape = shape[i]
    return shape


def build(shape, make, at=()):
    """A tree of nodes; make(path, children) -> node. Also returns {path: node}."""
    m = {}
    def b(s, at):
        n = make(at, [b(k, at + (i,)) for i, k in enumerate(s)])
        m[at] = n
        return n
    return b(shape, at), m


def below(a, b):
    """True if path b is strictly below a."""
    return len(b) > len(a) and b[:len(a)] == a


def backward_key(path):
    """Sorting on this key gives backward walking order (a parent before its descendants)."""
    return tuple(-i for i in path)
