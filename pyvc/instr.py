"""Mechanical instrumentation of the real source.

The source of every ``quickly`` module is read from /repo on every run, parsed
with :mod:`ast`, rewritten as follows and compiled; nothing is left out.

* ``while``/``for`` loops inside functions get a hook at the loop head (so that
  a loop contract can cut them) and ``for`` fetches its items through a hook;
* ``a[i]`` / ``a[i] = x`` / ``del a[i]``, ``is``, ``in``, ``lit.method()``, ``lit % x``, f-strings go
  through helper functions that do what Python does unless an operand is
  symbolic;
* attribute stores are logged (frame conditions);
* builtins that do not dispatch on their arguments (len, int, range, ...) are
  shadowed by versions that do what the builtin does unless an argument is
  symbolic.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import itertools
import sys
import os

import z3

from . import core
from .core import SNum, SBool, SegStr, Run, Dec, Unsupported, PathEnd, as_bool, to_z3, mk, is_sym
from .engine import getitem_num


# ------------------------------------------------------------- AST rewriting

class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.scope = []         # qualname parts
        self.infunc = 0
        self.n = 0
        self.nonlocals = [set()]
        self.tmp = 0

    def pv(self, attr):
        return ast.Attribute(ast.Name('__pv__', ast.Load()), attr, ast.Load())

    def call(self, attr, *args):
        return ast.Call(self.pv(attr), list(args), [])

    # -- scopes
    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.scope.append(node.name)
        old, self.infunc = self.infunc, 0
        node.body = self.body(node.body)
        self.infunc = old
        self.scope.pop()
        return node

    def visit_FunctionDef(self, node):
        nested = self.infunc > 0
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        self.scope.append(node.name)
        qual = '.'.join(self.scope)
        # names that nested functions declare nonlocal
        nl = set()
        for sub in ast.walk(node):
            if isinstance(sub, ast.Nonlocal):
                nl.update(sub.names)
        own = {n for s in node.body for n in self._own_nonlocals(s)}
        self.nonlocals.append((nl, own))
        self.infunc += 1
        node.body = self.body(node.body)
        self.infunc -= 1
        self.nonlocals.pop()
        self.scope.pop()
        if nested:
            node.decorator_list.append(self.call('fn', ast.Constant(self.modname + ':' + qual)))
        return node

    def _own_nonlocals(self, s):
        if isinstance(s, ast.Nonlocal):
            yield from s.names
        elif not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            for c in ast.iter_child_nodes(s):
                yield from self._own_nonlocals(c)

    def body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out

    def visit_Lambda(self, node):
        self.infunc += 1
        self.nonlocals.append((set(), set()))
        self.generic_visit(node)
        self.nonlocals.pop()
        self.infunc -= 1
        return node

    # -- loops
    def _assigned(self, stmts):
        names = []
        def walk(n):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if n.id not in names:
                    names.append(n.id)
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                if n.name not in names:
                    names.append(n.name)
                return
            if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                return
            for c in ast.iter_child_nodes(n):
                walk(c)
        for s in stmts:
            walk(s)
        return names

    def _loop_common(self, node, names, cond_stmt, body, orelse):
        self.n += 1
        L = '__pv_L%d' % self.n
        H = '__pv_H%d' % self.n
        site = '%s:%s' % (self.modname, '.'.join(self.scope))
        nl, own = self.nonlocals[-1]
        foreign = set()
        for entry in self.nonlocals[1:-1]:
            foreign |= entry[0]
        names = list(names)
        for x in sorted(nl - own):
            if x not in names:
                names.append(x)         # a nested function may assign it
        foreign -= set(names)
        pre = ast.Assign([ast.Name(L, ast.Store())],
                         ast.Call(self.pv('loop'), [ast.Constant(site), ast.Constant(node.lineno),
                                                    ast.Tuple([ast.Constant(x) for x in names], ast.Load()),
                                                    ast.Constant(bool(foreign))], []))
        head = [ast.Assign([ast.Name(H, ast.Store())],
                           ast.Call(ast.Attribute(ast.Name(L, ast.Load()), 'head', ast.Load()),
                                    [ast.Call(ast.Name('__pv_locals__', ast.Load()), [], [])], []))]
        # no 'locals' capture through a helper: use the real builtin
        head[0].value.args = [ast.Call(ast.Name('locals', ast.Load()), [], [])]
        if names:
            tgt = ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())
            head.append(ast.If(ast.Compare(ast.Name(H, ast.Load()), [ast.IsNot()], [ast.Constant(None)]),
                               [ast.Assign([tgt], ast.Name(H, ast.Load()))], []))
        return L, pre, head

    def visit_While(self, node):
        if not self.infunc:
            return self.generic_visit(node)
        names = self._assigned([node])
        test = self.visit(node.test)
        body = self.body(node.body)
        orelse = self.body(node.orelse)
        L, pre, head = self._loop_common(node, names, None, body, orelse)
        stop = ast.If(ast.UnaryOp(ast.Not(), test),
                      [ast.Expr(ast.Call(ast.Attribute(ast.Name(L, ast.Load()), 'stop', ast.Load()), [], [])), ast.Break()], [])
        return self._finish(L, pre, head + [stop] + body, orelse)

    def visit_For(self, node):
        if not self.infunc:
            return self.generic_visit(node)
        names = self._assigned([node])
        it = self.visit(node.iter)
        target = self.visit(node.target)
        body = self.body(node.body)
        orelse = self.body(node.orelse)
        L, pre, head = self._loop_common(node, names, None, body, orelse)
        pre.value.args.append(it)
        stop = ast.If(ast.UnaryOp(ast.Not(), ast.Call(ast.Attribute(ast.Name(L, ast.Load()), 'has', ast.Load()), [], [])),
                      [ast.Break()], [])
        fetch = ast.Assign([target], ast.Attribute(ast.Name(L, ast.Load()), 'item', ast.Load()))
        return self._finish(L, pre, head + [stop, fetch] + body, orelse)

    def _finish(self, L, pre, body, orelse):
        out = [pre, ast.While(ast.Constant(True), body, [])]
        if orelse:      # runs when the loop was not left with break
            out.append(ast.If(ast.Attribute(ast.Name(L, ast.Load()), 'done', ast.Load()), orelse, []))
        return out

    # -- expressions
    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return self.call('getitem', node.value, self._idx(node.slice))
        return node

    def _idx(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(None)
            return ast.Call(self.pv('mkslice'), [s.lower or none, s.upper or none, s.step or none], [])
        return s

    def visit_Assign(self, node):
        self.generic_visit(node)
        if not self.infunc:
            return node
        # attribute and subscript targets (possibly inside tuples): log / dispatch
        if len(node.targets) == 1:
            t = node.targets[0]
            if isinstance(t, ast.Attribute):
                return ast.Expr(self.call('setattr_', t.value, ast.Constant(self._mangle(t.attr)), node.value)) \
                    if self._order_ok(t.value) else node
            if isinstance(t, ast.Subscript):
                return ast.Expr(self.call('setitem', t.value, self._idx(t.slice), node.value)) \
                    if self._order_ok(t.value) and self._order_ok(t.slice) else node
        pre = []
        for t in node.targets:
            for s in ast.walk(t):
                if isinstance(s, ast.Attribute) and isinstance(s.ctx, ast.Store) and isinstance(s.value, ast.Name):
                    pre.append(ast.Expr(self.call('log', ast.Name(s.value.id, ast.Load()), ast.Constant(s.attr))))
        return pre + [node] if pre else node

    def _mangle(self, attr):
        if attr.startswith('__') and not attr.endswith('__'):
            for part in reversed(self.scope):
                if part[:1].isupper() or part.startswith('_') and part[1:2].isupper():
                    return '_' + part.lstrip('_') + attr
        return attr

    def _order_ok(self, e):
        return True

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if not self.infunc:
            return node
        t = node.target
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
            return [ast.Expr(self.call('log', ast.Name(t.value.id, ast.Load()), ast.Constant(t.attr))), node]
        if isinstance(t, ast.Attribute):
            self.tmp += 1
            n = '__pv_t%d' % self.tmp
            t2 = ast.Attribute(ast.Name(n, ast.Load()), t.attr, ast.Store())
            return [ast.Assign([ast.Name(n, ast.Store())], t.value),
                    ast.Expr(self.call('log', ast.Name(n, ast.Load()), ast.Constant(t.attr))),
                    ast.AugAssign(t2, node.op, node.value)]
        if isinstance(t, ast.Subscript):
            self.tmp += 1
            n, k = '__pv_t%d' % self.tmp, '__pv_k%d' % self.tmp
            op = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*'}.get(type(node.op))
            if op is None or isinstance(t.slice, ast.Slice):
                return node
            return [ast.Assign([ast.Name(n, ast.Store())], t.value),
                    ast.Assign([ast.Name(k, ast.Store())], t.slice),
                    ast.Expr(self.call('augitem', ast.Name(n, ast.Load()), ast.Name(k, ast.Load()), ast.Constant(op), node.value))]
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            return ast.Expr(self.call('delitem', t.value, self._idx(t.slice)))
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            if isinstance(op, ast.Is):
                return self.call('is_', node.left, node.comparators[0])
            if isinstance(op, ast.IsNot):
                return ast.UnaryOp(ast.Not(), self.call('is_', node.left, node.comparators[0]))
            if isinstance(op, ast.In):
                return self.call('in_', node.left, node.comparators[0])
            if isinstance(op, ast.NotIn):
                return ast.UnaryOp(ast.Not(), self.call('in_', node.left, node.comparators[0]))
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Constant) \
                and isinstance(node.func.value.value, str):
            node.func = ast.Attribute(self.call('lit', node.func.value), node.func.attr, ast.Load())
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return self.call('mod', node.left, node.right)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    return node
                parts.append(self.call('tostr', v.value))
            else:
                parts.append(v)
        return self.call('concat', *parts)

    def visit_Constant(self, node):
        return node


def _comp_visit(self, node):
    # comprehension: iterate through a hook
    self.generic_visit(node)
    for g in node.generators:
        g.iter = self.call('citer', g.iter)
    return node


for _n in ('ListComp', 'SetComp', 'DictComp', 'GeneratorExp'):
    setattr(Rewriter, 'visit_' + _n, _comp_visit)


# ------------------------------------------------------------- runtime hooks

UNBOUND = object()


class LoopRT:
    """One execution of a loop."""
    __slots__ = ('site', 'line', 'names', 'foreign', 'it', 'item', 'state', 'spec', 'variant', 'mark', 'count', 'frame', 'src', 'done', 'entry')

    def __init__(self, site, line, names, foreign, it):
        self.site, self.line, self.names, self.foreign = site, line, names, foreign
        self.state = 'start'
        self.count = 0
        self.done = False
        self.src = it
        self.it = None if it is None else citer(it)
        self.spec = None

    def head(self, loc):
        E = core.CUR
        if E is None:
            return None
        if self.state != 'cut' and getattr(self.it, 'at_run', None) is not None and self.it.at_run():
            # the iterations over one run of a symbolic string are a loop of their own
            for spec in E.loop_specs:
                if spec.stream and spec.matches(self, loc):
                    self.spec = spec
                    loc = dict(loc, __it__=self.it, __names__=self.names)
                    return spec.enter(E, self, loc)
        if self.state == 'start':
            loc = dict(loc, __it__=self.it, __names__=self.names)
            for spec in E.loop_specs:
                if not spec.stream and spec.matches(self, loc):
                    self.spec = spec
                    if self.foreign:
                        pass    # assigned by closures of an outer function: the frame check sees only heap writes
                    return spec.enter(E, self, loc)
            self.state = 'plain'
        if self.state == 'plain':
            self.count += 1
            if self.count > 3000:
                raise Unsupported("loop without contract does not end: %s" % self.site)
            return None
        loc = dict(loc, __it__=self.it, __names__=self.names)
        self.spec.again(E, self, loc)
        if self.spec.resume:
            # what follows is executed as it is; the path ends at the cut of an inner sequence
            self.state, self.spec = 'plain', None
            return None
        raise PathEnd()

    def has(self):
        if self.state == 'cut' and self.spec.stream and self.it.leave_run():
            self.state = 'plain'    # the run is finished, what follows is iterated plainly
            self.spec = None
        try:
            self.item = next(self.it)
        except StopIteration:
            self.done = True
            return False
        return True

    def stop(self):
        self.done = True


class LoopSpec:
    """A loop contract.

    where(site, loc): which loops; inv(loc) -> list of (name, condition);
    modifies(loc) -> list of (object, attribute) that the loop may write
        (attribute: a name, or a tuple of names that on_havoc makes arbitrary);
    variant(loc): an integer that decreases and stays >= 0;
    fresh: optional function (name, value) -> havoced value of a local;
    resume: do not end the path after the arbitrary iteration but go on plainly
        (for consumers of generators, which have code after their yield).
    """
    def __init__(self, name, where, inv, modifies=None, variant=None, fresh=None, on_havoc=None,
                 while_only=False, for_only=False, entry=None, stream=None, resume=False):
        self.name, self.where, self.inv = name, where, inv
        self.modifies, self.variant, self.fresh, self.on_havoc = modifies, variant, fresh, on_havoc
        self.while_only, self.for_only = while_only, for_only
        self.entry = entry
        self.stream = stream
        self.resume = resume

    def matches(self, rt, loc):
        if self.while_only and rt.it is not None or self.for_only and rt.it is None:
            return False
        return self.where(rt.site, loc)

    def enter(self, E, rt, loc):
        E.inexact = True
        E.res.exact = False
        rt.entry = self.entry(loc) if self.entry else None
        for n, c in self._inv(rt, loc):
            E.prove("%s: invariant holds at loop entry: %s" % (self.name, n), c)
        # havoc
        new = []
        for name in rt.names:
            if name in loc:
                new.append(self._fresh(E, name, loc[name]))
            else:
                new.append(UNBOUND)
        rt.frame = self.modifies(loc) if self.modifies else []
        for obj, attr in rt.frame:
            if isinstance(attr, str):
                object.__setattr__(obj, attr, self._fresh(E, attr, getattr(obj, attr)))
        if self.stream:
            loc['__it__'].havoc(E)
        loc2 = dict(loc)
        loc2.update((n, v) for n, v in zip(rt.names, new) if v is not UNBOUND)
        if self.on_havoc:
            self.on_havoc(loc2)
            new = [loc2.get(n, v) for n, v in zip(rt.names, new)]
        for n, c in self._inv(rt, loc2):
            E.assume(c)
        E.cover("%s: loop head reachable" % self.name)
        if self.variant:
            rt.variant = self.variant(loc2)
        rt.mark = len(E.writelog)
        rt.state = 'cut'
        return tuple(new)

    def _inv(self, rt, loc):
        return self.inv(loc, rt.entry) if self.entry else self.inv(loc)

    def _fresh(self, E, name, v):
        if self.fresh:
            r = self.fresh(name, v)
            if r is not NotImplemented:
                return r
        return fresh_like(E, name, v)

    def again(self, E, rt, loc):
        for n, c in self._inv(rt, loc):
            E.prove("%s: invariant preserved: %s" % (self.name, n), c)
        if self.variant:
            v = self.variant(loc)
            E.prove("%s: loop variant decreases by at least 1" % self.name, v <= rt.variant - 1)
            E.prove("%s: loop variant bounded below" % self.name, rt.variant >= 0)
        allowed = {(id(o), a) for o, attr in rt.frame for a in ([attr] if isinstance(attr, str) else attr)}
        for o, a in E.writelog[rt.mark:]:
            if (id(o), a) not in allowed and id(o) not in E.ghost.get('local_objects', ()):
                raise Unsupported("loop %s writes %s.%s outside its frame" % (rt.site, type(o).__name__, a))


def fresh_like(E, name, v):
    """An arbitrary value of the same kind."""
    if isinstance(v, (SNum,)):
        return SNum(E.fresh_int(name) if v.isint and v.t.sort().kind() == z3.Z3_INT_SORT else E.fresh_real(name), v.isint)
    if isinstance(v, (SBool, bool)):
        return SBool(z3.Bool("%s!%d" % (name, next(E.counter))))
    if isinstance(v, int):
        return SNum(E.fresh_int(name), True)
    if isinstance(v, (float, core.Fraction)):
        return SNum(E.fresh_real(name), False)
    if hasattr(v, '__pv_fresh__'):
        return v.__pv_fresh__(E, name)
    return Havoc(name, v)


class Havoc:
    """An arbitrary value about which nothing is known; any use is outside the subset."""
    def __init__(self, name, old):
        object.__setattr__(self, '_n', name)
    def __getattr__(self, a):
        raise Unsupported("use of a havoced value %s.%s" % (object.__getattribute__(self, '_n'), a))
    def _no(self, *a):
        raise Unsupported("use of a havoced value " + object.__getattribute__(self, '_n'))
    __bool__ = __iter__ = __len__ = __getitem__ = __call__ = __add__ = __eq__ = __lt__ = __gt__ = __hash__ = _no
    __setattr__ = _no


def citer(it):
    if hasattr(it, '__pv_iter__'):
        return it.__pv_iter__()
    return iter(it)


def finite(it, limit=2000):
    """Iterate as list(it) would; an abstract sequence may have no end."""
    if not hasattr(it, '__pv_iter__'):
        return iter(it)

    def items():
        for n, x in enumerate(it.__pv_iter__()):
            if n == limit:
                raise Unsupported("a list of all items of a sequence of unknown length")
            yield x
    return items()


class Lit:
    """Methods of a string literal with possibly symbolic arguments."""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __getattr__(self, name):
        f = getattr(self.s, name)
        def method(*a, **k):
            if any(isinstance(x, (SegStr, SNum, SBool)) for x in a):
                raise Unsupported("str.%s with a symbolic argument" % name)
            return f(*a, **k)
        return method

    def format(self, *args, **kw):
        if not any(isinstance(x, (SNum, SBool, SegStr)) for x in itertools.chain(args, kw.values())):
            return self.s.format(*args, **kw)
        out, n = SegStr([]), 0
        import string
        for text, field, spec, conv in string.Formatter().parse(self.s):
            if text:
                out = SegStr.make(out + text)
            if field is not None:
                if spec or conv or '.' in field or '[' in field:
                    raise Unsupported("format spec")
                if field == '':
                    v = args[n]
                    n += 1
                elif field.isdigit():
                    v = args[int(field)]
                else:
                    v = kw[field]
                out = SegStr.make(out + tostr(v))
        return out.norm()

    def join(self, it):
        parts = list(citer(it))
        for p in parts:
            if hasattr(p, '__pv_join__'):
                return p.__pv_join__(self.s, parts)
        if not any(isinstance(p, SegStr) for p in parts):
            return self.s.join(parts)
        out = SegStr([])
        for i, p in enumerate(parts):
            if i:
                out = SegStr.make(out + self.s)
            out = SegStr.make(out + p)
        return out.norm()

    def index(self, *a):
        return self.s.index(*a)


def tostr(v):
    if isinstance(v, (SNum, SBool, SegStr)):
        return core.s_str(v)
    return str(v)


class PV:
    """The ``__pv__`` object of instrumented modules."""
    UNBOUND = UNBOUND

    @staticmethod
    def loop(site, line, names, foreign, it=None):
        return LoopRT(site, line, names, foreign, it)

    @staticmethod
    def fn(qualname):
        def deco(f):
            E = core.CUR
            if E is not None and qualname in E.contracts:
                return E.contracts[qualname](f)
            return f
        return deco

    @staticmethod
    def mkslice(a, b, c):
        return slice(a, b, c)

    @staticmethod
    def getitem(o, i):
        if isinstance(i, SNum):
            if type(o) in (tuple, list) and o and all(core.is_num(x) for x in o):
                if not i.isint:
                    raise TypeError("indices must be integers")
                return getitem_num(o, i)
            if hasattr(o, '__pv_getitem__'):
                return o.__pv_getitem__(i)
            if isinstance(o, (tuple, list, str)):
                n = len(o)
                if not core.cur().fork(z3.And(i.t >= -n, i.t < n)):
                    raise IndexError("index out of range")
                return o[i.concrete()]
            if isinstance(o, dict):
                return o[i.concrete()]
        elif isinstance(i, slice) and (isinstance(i.start, SNum) or isinstance(i.stop, SNum) or isinstance(i.step, SNum)):
            if hasattr(o, '__pv_getslice__'):
                return o.__pv_getslice__(i)
            if isinstance(o, (tuple, list, str)):
                return o[slice_concrete(o, i)]
        return o[i]

    @staticmethod
    def setitem(o, i, v):
        PV.log(o, '[]')
        if isinstance(i, SNum) and isinstance(o, list) and not hasattr(o, '__pv_setitem__'):
            if not i.isint:
                raise TypeError("indices must be integers")
            i = i.concrete()
        o[i] = v

    @staticmethod
    def augitem(o, k, op, v):
        x = PV.getitem(o, k)
        if op == '+':
            x += v
        elif op == '-':
            x -= v
        else:
            x *= v
        PV.setitem(o, k, x)

    @staticmethod
    def delitem(o, i):
        PV.log(o, '[]')
        del o[i]

    @staticmethod
    def setattr_(o, name, v):
        PV.log(o, name)
        setattr(o, name, v)

    @staticmethod
    def log(o, name):
        E = core.CUR
        if E is not None:
            E.writelog.append((o, name))

    @staticmethod
    def is_(a, b):
        if a is b:
            return True
        if isinstance(a, SBool) and (b is True or b is False):
            return a if b else SBool(z3.Not(a.t))
        if isinstance(b, SBool) and (a is True or a is False):
            return b if a else SBool(z3.Not(b.t))
        if hasattr(a, '__pv_is__'):
            return a.__pv_is__(b)
        if hasattr(b, '__pv_is__'):
            return b.__pv_is__(a)
        if isinstance(a, Havoc) or isinstance(b, Havoc):
            raise Unsupported("identity of a havoced value")
        return False

    @staticmethod
    def in_(a, b):
        if isinstance(b, str) and isinstance(a, (SegStr, SNum)):
            raise Unsupported("symbolic substring test")
        if isinstance(b, (tuple, list)) and type(b) in (tuple, list) and any(is_sym(x) for x in b) | is_sym(a):
            return core.SBool(z3.simplify(z3.Or(*[as_bool(_eq(a, x)) for x in b]))) if b else False
        return a in b

    @staticmethod
    def lit(s):
        return Lit(s)

    @staticmethod
    def mod(s, args):
        seq = args if isinstance(args, tuple) else (args,)
        if any(isinstance(x, (SNum, SBool, SegStr)) for x in seq):
            out, n = SegStr([]), 0
            i = 0
            while i < len(s):
                if s[i] == '%':
                    c = s[i + 1]
                    if c == '%':
                        out = SegStr.make(out + '%')
                    elif c in 'sdi':
                        out = SegStr.make(out + tostr(seq[n]))
                        n += 1
                    else:
                        raise Unsupported("format")
                    i += 2
                else:
                    out = SegStr.make(out + s[i])
                    i += 1
            return out.norm()
        return s % args

    tostr = staticmethod(tostr)

    @staticmethod
    def concat(*parts):
        return Lit('').join(parts)

    citer = staticmethod(citer)


def _eq(a, x):
    r = (a == x)
    return r if isinstance(r, (bool, SBool)) else bool(r)


def slice_concrete(o, s):
    def c(x):
        return x.concrete() if isinstance(x, SNum) else x
    # clamp before enumerating: only positions inside the sequence matter
    n = len(o)
    def clampc(x):
        if not isinstance(x, SNum):
            return x
        t = x.t
        return mk(z3.If(t < -n, z3.IntVal(-n), z3.If(t > n, z3.IntVal(n), t))).concrete() if not z3.is_int_value(z3.simplify(t)) else x.concrete()
    return slice(clampc(s.start), clampc(s.stop), c(s.step))


# ------------------------------------------------------------- builtins

def _shadow():
    b = dict(vars(builtins))
    real = builtins

    def len_(x):
        if hasattr(x, '__pv_len__'):
            return x.__pv_len__()
        if isinstance(x, SegStr):
            return x.length()
        return real.len(x)

    class _IntMeta(type):
        def __instancecheck__(cls, x):
            return isinstance_(x, real.int)
        def __subclasscheck__(cls, c):
            return issubclass(c, real.int)

    def int_(x=0, *a):
        if isinstance(x, (SNum, SBool)):
            return core.s_int(x)
        if isinstance(x, SegStr):
            return x.to_int(*a)
        return real.int(x, *a)

    def isinstance_(x, T):
        # the shadowed type names stand for the real types
        T = _untype(T)
        if hasattr(type(x), '__pv_isinstance__'):
            return x.__pv_isinstance__(T)
        pt = getattr(type(x), 'pytype', None)
        if isinstance(x, SNum):
            pt = x.pytype
        if pt is not None and isinstance(x, (SNum, SBool, SegStr)):
            if real.isinstance(T, tuple):
                return any(_sub(pt, t) for t in T)
            return _sub(pt, T)
        return real.isinstance(x, T)

    def _sub(pt, t):
        if getattr(t, '__pv_fraction__', False):
            t = core.Fraction
        try:
            return issubclass(pt, t)
        except TypeError:
            return False

    def _untype(T):
        if real.isinstance(T, tuple):
            return tuple(_untype(t) for t in T)
        return {int_: int, str_: str, list_: list, float_: float, tuple_: tuple, bool_: bool, range_: range}.get(T, T) \
            if not real.isinstance(T, type) else T

    def str_(x='', *a):
        if isinstance(x, (SNum, SBool, SegStr)):
            return core.s_str(x)
        return real.str(x, *a)

    def range_(*a):
        if any(isinstance(x, SNum) for x in a):
            return SRange(*a)
        return real.range(*a)

    def float_(x=0):
        if isinstance(x, (SNum, SBool)):
            return SNum(core._real(to_z3(x)), False)
        return real.float(x)

    def bool_(x=False):
        return real.bool(x)     # forks when symbolic

    def list_(x=()):
        hook = core.CUR is not None and core.CUR.ghost.get('list')
        if hook and not real.isinstance(x, (real.list, real.tuple)):
            return hook(x)
        return real.list(finite(x))

    def tuple_(x=()):
        if hasattr(x, '__pv_tuple__'):
            return x.__pv_tuple__()
        return real.tuple(finite(x))

    def sum_(it, start=0):
        hook = core.CUR is not None and core.CUR.ghost.get('sum')
        if hook and not real.isinstance(it, (real.list, real.tuple)):
            return hook(it, start)
        r = start
        for x in finite(it):
            r = r + x
        return r

    def reversed_(x):
        if hasattr(x, '__pv_reversed__'):
            return x.__pv_reversed__()
        return real.reversed(x)

    def enumerate_(it, start=0):
        hook = core.CUR is not None and core.CUR.ghost.get('enumerate')
        if hook and not real.isinstance(it, (real.list, real.tuple)):
            return hook(it, start)
        if hasattr(it, '__pv_iter__'):
            def gen():
                i = start
                for x in it.__pv_iter__():
                    yield i, x
                    i += 1
            return gen()
        return real.enumerate(it, start)

    def iter_(x, *a):
        return real.iter(x, *a) if a else citer(x)

    def round_(x, *a):
        if isinstance(x, SNum):
            raise Unsupported("round")
        return real.round(x, *a)

    def type_(*a, **k):
        if len(a) == 1:
            x = a[0]
            if isinstance(x, SNum):
                return x.pytype
            if isinstance(x, SBool):
                return bool
            if isinstance(x, SegStr):
                return str
            if hasattr(real.type(x), '__pv_type__'):
                return x.__pv_type__()
        return real.type(*a, **k)

    def max_(*a, **k):
        if len(a) == 2 and not k and any(isinstance(x, SNum) for x in a):
            x, y = core._lift2(*a)
            return mk(z3.If(y > x, y, x), core._isint(a[0]) and core._isint(a[1]))
        if len(a) == 1 and hasattr(a[0], '__pv_max__'):
            return a[0].__pv_max__(**k)
        hook = core.CUR is not None and core.CUR.ghost.get('max')
        if hook and len(a) == 1 and not real.isinstance(a[0], (real.list, real.tuple)):
            return hook(a[0], **k)
        return real.max(*a, **k)

    def min_(*a, **k):
        if len(a) == 2 and not k and any(isinstance(x, SNum) for x in a):
            x, y = core._lift2(*a)
            return mk(z3.If(y < x, y, x), core._isint(a[0]) and core._isint(a[1]))
        if len(a) == 1 and hasattr(a[0], '__pv_min__'):
            return a[0].__pv_min__(**k)
        return real.min(*a, **k)

    def map_(f, *its):
        for t, g in ((real.int, int_), (real.str, str_), (real.float, float_)):
            if f is t:
                f = g
        return real.map(f, *its)

    def format_(x, spec=''):
        if isinstance(x, SNum) and spec in BASES and x.isint:
            return SegStr([core.Dec(x, BASES[spec])])
        return real.format(x, spec)
    BASES = {'b': 2, 'o': 8, 'd': 10, 'x': 16}

    # type names that are also called: functions for calls, mapped back in isinstance
    b.update(len=len_, isinstance=isinstance_, range=range_, sum=sum_, reversed=reversed_,
             enumerate=enumerate_, iter=iter_, round=round_, max=max_, min=min_, map=map_, format=format_)
    b['__shadow__'] = dict(int=int_, str=str_, float=float_, list=list_, tuple=tuple_, bool=bool_, type=type_)
    return b


class SRange:
    """range() with symbolic bounds; only for iteration by a cut loop or membership."""
    def __init__(self, a, b=None, step=1):
        self.start, self.stop = (0, a) if b is None else (a, b)
        self.step = step

    def __pv_iter__(self):
        E = core.cur()
        i = self.start
        if not isinstance(self.step, int) or self.step == 0:
            raise Unsupported("range step")
        k = 0
        while (i < self.stop) if self.step > 0 else (i > self.stop):
            yield i
            i = i + self.step
            k += 1
            if k > 300:
                raise Unsupported("range with an unbounded number of items")
    __iter__ = __pv_iter__

    def __pv_len__(self):
        raise Unsupported("len(range)")


class _TypeCall(ast.NodeTransformer):
    """int(x) -> __pv_int__(x) etc.: only direct calls; the names keep denoting the types."""
    NAMES = {'int', 'str', 'float', 'list', 'tuple', 'bool', 'type'}

    def __init__(self, names):
        self.names = names

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in self.names:
            node.func = ast.Name('__pv_%s__' % node.func.id, ast.Load())
        return node


BUILTINS = None


def make_builtins():
    global BUILTINS
    if BUILTINS is None:
        b = _shadow()
        sh = b.pop('__shadow__')
        for k, v in sh.items():
            b['__pv_%s__' % k] = v
        BUILTINS = b
    return BUILTINS


def instrument(source, filename, modname):
    tree = ast.parse(source, filename)
    # names rebound in the module are not the builtins
    bound = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    bound |= {a.arg for n in ast.walk(tree) if isinstance(n, ast.arguments)
              for a in n.args + n.kwonlyargs + n.posonlyargs}
    bound |= {n.name for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
    tree = _TypeCall(_TypeCall.NAMES - bound).visit(tree)
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return tree


class Loader(importlib.abc.Loader):
    def __init__(self, fullname, path, overrides):
        self.fullname, self.path, self.overrides = fullname, path, overrides

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            source = f.read()
        tree = instrument(source, self.path, self.fullname)
        code = compile(tree, self.path, 'exec', dont_inherit=True)
        b = make_builtins()
        ov = self.overrides.get(self.fullname)
        if ov:
            b = dict(b)
            b.update(ov)
        module.__dict__['__builtins__'] = b
        module.__dict__['__pv__'] = PV
        exec(code, module.__dict__)
        shim = MODULE_SHIMS
        for k, v in list(module.__dict__.items()):
            r = shim.get(id(v))
            if r is not None:
                module.__dict__[k] = r


MODULE_SHIMS = {}


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, repo, overrides):
        self.repo, self.overrides = repo, overrides

    def find_spec(self, fullname, path, target=None):
        if fullname != 'quickly' and not fullname.startswith('quickly.'):
            return None
        base = os.path.join(self.repo, *fullname.split('.'))
        if os.path.isdir(base):
            p = os.path.join(base, '__init__.py')
            spec = importlib.machinery.ModuleSpec(fullname, Loader(fullname, p, self.overrides), origin=p, is_package=True)
            spec.submodule_search_locations = [base]
            spec.has_location = True
            return spec
        p = base + '.py'
        if os.path.exists(p):
            spec = importlib.machinery.ModuleSpec(fullname, Loader(fullname, p, self.overrides), origin=p)
            spec.has_location = True
            return spec
        return None


class FractionShim:
    """fractions.Fraction with symbolic arguments (exact quotient)."""
    @staticmethod
    def install():
        import fractions
        import math
        import types
        fm = types.ModuleType('fractions')
        fm.__dict__.update(vars(fractions))

        class FMeta(type):
            def __instancecheck__(cls, x):
                return isinstance(x, fractions.Fraction) or isinstance(x, SNum) and not x.isint
            def __call__(cls, a=0, b=None):
                if isinstance(a, (SNum, SBool)) or isinstance(b, (SNum, SBool)):
                    ta = core._real(to_z3(a))
                    if b is None:
                        return mk(ta, False)
                    tb = core._real(to_z3(b))
                    core.cur().nonzero(tb)
                    return mk(ta / tb, False)
                if b is None:
                    if isinstance(a, SegStr):
                        n, *d = a.split('/')
                        n, d = [p.to_int() if isinstance(p, SegStr) else int(p) for p in (n, *(d or ['1']))]
                        return F(n, d)
                    return fractions.Fraction(a)
                return fractions.Fraction(a, b)

        class F(metaclass=FMeta):
            __pv_fraction__ = True
        F.__name__ = 'Fraction'
        fm.Fraction = F
        mm = types.ModuleType('math')
        mm.__dict__.update(vars(math))

        def frexp(x):
            return core.CUR.frexp(x) if core.CUR is not None else math.frexp(x)
        def floor(x):
            return core.s_divmod(x, 1)[0] if isinstance(x, SNum) else math.floor(x)
        def log2(x):
            if isinstance(x, SNum):
                raise Unsupported("math.log2")
            return math.log2(x)
        def isinf(x): return False if isinstance(x, SNum) else math.isinf(x)
        def isnan(x): return False if isinstance(x, SNum) else math.isnan(x)
        mm.frexp, mm.floor, mm.log2, mm.isinf, mm.isnan = frexp, floor, log2, isinf, isnan
        MODULE_SHIMS[id(fractions)] = fm
        MODULE_SHIMS[id(math)] = mm
        MODULE_SHIMS[id(fractions.Fraction)] = F
        return fm, mm


class Modules:
    """Access to the modules under verification."""
    def get(self, name):
        import importlib
        return importlib.import_module(name)


def load_instrumented(repo, overrides=None):
    """Import hook on: quickly.* is loaded from repo, instrumented."""
    for k in [k for k in sys.modules if k == 'quickly' or k.startswith('quickly.')]:
        del sys.modules[k]
    FractionShim.install()
    sys.meta_path.insert(0, Finder(repo, overrides or {}))
    return Modules()
