"""Bounded stand-ins: generated inputs on the plain code, with a stated bound."""

class Fail(Exception):
    """The property does not hold for this case."""


BOUNDED = {}


class Bounded:
    def __init__(self, prop, name, gen, run, enum, functions, quick, thorough, rule, seconds, case_s):
        self.__dict__.update(locals())


def bounded(prop, name, gen=None, enum=None, functions=(), quick=300, thorough=6000, rule='', seconds=40, case_s=20):
    """Decorate run(M, case): raises Fail; a true result marks the case non-trivial.

    gen(rng) makes a (JSON-able) case; enum(tier) enumerates fixed cases first.
    """
    def deco(fn):
        assert name not in BOUNDED, name
        BOUNDED[name] = Bounded(prop, name, gen, fn, enum, functions, quick, thorough, rule, seconds, case_s)
        return fn
    return deco


def check(cond, msg, *args):
    if not cond:
        raise Fail(msg % args if args else msg)
