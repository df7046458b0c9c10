"""VC generation by symbolic execution of the repository's real functions (AST of the live function objects).

One `Path` executes one feasible path; branches over symbolic data consult z3 and are explored exhaustively
by deterministic replay. Calls inside the repository are replaced by the callee's contract when one is
registered and inlined otherwise; calls into user code are opaque (any value, any exception). Loops over
sequences of unknown length need a loop contract (invariant); other loops run concretely.
Whatever the executor does not model raises Unsupported: the obligation is then *undecided*, never violated.
"""
from __future__ import annotations
import os, ast, builtins, contextlib, time, dataclasses, inspect, operator, sys, types, functools
import z3
from . import src


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    """this path is finished (infeasible, or closed by a loop invariant)"""


class Violation(Exception):
    def __init__(self, name, msg):
        super().__init__(f"{name}: {msg}")
        self.name, self.msg = name, msg


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class _Return(Exception):
    def __init__(self, value):
        self.value = value


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class SV:
    """opaque value: identity is a z3 Int; nothing else is known about it"""
    __slots__ = ("z", "name", "facts", "on_call", "on_attr", "awaited", "tag")

    def __init__(self, z, name):
        self.z, self.name, self.facts = z, name, {}
        self.on_call = None
        self.on_attr = None
        self.awaited = None
        self.tag = None

    def __repr__(self):
        return f"<{self.name}>"


class SB:
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z


class SI:
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __repr__(self):
        return f"<int {self.z}>"


class Obj:
    """heap object of a known (or no) class; unknown fields come from `lazy`"""

    def __init__(self, cls=None, name="obj", fields=None, lazy=None):
        self.cls, self.name, self.fields, self.lazy = cls, name, dict(fields or {}), lazy
        self.on_set = None

    def __repr__(self):
        return f"<{self.name}>"


class OStr:
    """opaque string"""
    def __init__(self, parts=()):
        self.parts = parts

    def __repr__(self):
        return "<str>"


class Exc:
    """exception value; cls None: unknown user exception"""

    def __init__(self, cls=None, args=(), name="exc"):
        self.cls, self.args, self.name = cls, args, name
        self.known = {}
        self.fields = {}

    def __repr__(self):
        return f"<{self.name if self.cls is None else self.cls.__name__}>"


class Clo:
    """interpreted function"""

    def __init__(self, node, env, glob, defaults, kwdefaults, name, func=None):
        self.node, self.env, self.glob = node, env, glob
        self.defaults, self.kwdefaults, self.name, self.func = defaults, kwdefaults, name, func
        self.fields = {}

    def __repr__(self):
        return f"<closure {self.name}>"


class BM:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __eq__(self, o):
        return isinstance(o, BM) and o.func is self.func and o.self_ is self.self_

    def __hash__(self):
        return hash((id(self.func), id(self.self_)))

    def __repr__(self):
        return f"<method {getattr(self.func, '__name__', self.func)} of {self.self_}>"


class Coro:
    def __init__(self, run, name):
        self.run, self.name = run, name
        self.started = False

    def __repr__(self):
        return f"<coroutine {self.name}>"


class GenCM:
    """generator function called under @contextmanager"""
    def __init__(self, clo, args, kwargs):
        self.clo, self.args, self.kwargs = clo, args, kwargs


class Frame:
    __slots__ = ("vars", "parent", "glob", "nonlocals", "fname", "yield_cb", "globals_decl", "exc_stack", "localnames")

    def __init__(self, parent, glob, fname):
        self.vars, self.parent, self.glob, self.fname = {}, parent, glob, fname
        self.nonlocals, self.globals_decl = set(), set()
        self.yield_cb = None
        self.exc_stack = []
        self.localnames = set()

    def lookup(self, name):
        f = self
        while f is not None:
            if name in f.vars:
                return f.vars[name]
            f = f.parent
        return _NOPE


_NOPE = object()
MAXPATHS = 4000


class Path:
    def __init__(self, eng, prefix):
        self.eng, self.prefix = eng, prefix
        self.created = []        # objects of modelled classes, in order of creation
        self.trace = []          # (n, chosen)
        self.solver = z3.Solver()
        self.solver.set("timeout", eng.timeout_ms)
        self.events = []
        self.overlay = {}
        self.copies = {}
        self.cells = {}          # id(function) -> cells of a live closure (nonlocal writes persist on this path)
        self.keep = []
        self.ids = {}
        self.nfresh = 0
        self.notes = []
        self.choices = []
        self.depth = 0
        self.steps = 0
        self.loop_handler = None
        self.contracts = []       # list of callables (path, fn, args, kwargs) -> result or NOTIMPL
        self.opaque = {}          # id(obj) -> handler(path, args, kwargs)
        self.truth = {}
        self.cache_sub = {}
        self.on_await = None
        self.on_lock = None
        self.held = []
        self.attr_hooks = []
        self.raise_hook = None
        self.ghost = None
        self.never = {}           # objects no opaque value can be (private sentinels)

    # ------------------------------------------------------------- choices
    def choose(self, n, label=""):
        if n == 1:
            return 0
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append((n, c))
        self.choices.append(f"{label}={c}")
        return c

    def assume(self, f):
        self.solver.add(f)

    def sat(self, *fs):
        self.eng.queries += 1
        import time
        t = time.perf_counter()
        r = self.solver.check(*fs)
        self.eng.solver_s += time.perf_counter() - t
        if r == z3.unknown:
            raise Unsupported("solver returned unknown")
        return r == z3.sat

    def branch(self, f, label=""):
        if isinstance(f, bool):
            return f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        t, n = self.sat(f), self.sat(z3.Not(f))
        if not t and not n:
            raise PathEnd()
        if t and not n:
            return True
        if n and not t:
            return False
        c = self.choose(2, label)
        self.assume(f if c == 0 else z3.Not(f))
        return c == 0

    def fresh(self, name, distinct_from=()):
        self.nfresh += 1
        v = SV(z3.Int(f"{name}!{self.nfresh}"), f"{name}!{self.nfresh}")
        for d in distinct_from:
            self.assume(v.z != self.ident(d))
        self.keep.append(v)
        return v

    def fresh_int(self, name):
        self.nfresh += 1
        return SI(z3.Int(f"{name}!{self.nfresh}"))

    def exc(self, name="user_exc"):
        self.nfresh += 1
        return Exc(None, (), f"{name}!{self.nfresh}")

    def ident(self, v):
        if isinstance(v, SV):
            return v.z
        if isinstance(v, (SB, SI)):
            raise Unsupported("identity of a symbolic primitive")
        k = ("i", v) if isinstance(v, (int, str, bool, type(None))) and not isinstance(v, bool) and type(v) in (int, str) else id(v)
        if k not in self.ids:
            self.ids[k] = len(self.ids) + 1
            self.keep.append(v)
        return z3.IntVal(-self.ids[k])

    def same(self, a, b):
        """identity, as bool or z3 Bool"""
        if a is b:
            return True
        if isinstance(a, SV) or isinstance(b, SV):
            if id(b if isinstance(a, SV) else a) in self.never:
                return False
            return self.ident(a) == self.ident(b)
        if isinstance(a, BM) and isinstance(b, BM):
            return a == b
        if isinstance(a, (int, str)) and isinstance(b, (int, str)) and type(a) is type(b):
            return a == b
        return False

    def is_(self, a, b):
        r = self.same(a, b)
        return r if isinstance(r, bool) else self.branch(r, "is")

    def must(self, cond, name, msg):
        """obligation"""
        self.eng.obl(name)
        if isinstance(cond, bool):
            if not cond:
                raise Violation(name, msg)
            return
        if self.sat(z3.Not(cond)):
            raise Violation(name, f"{msg}; counterexample {self.model(z3.Not(cond))}")
        self.assume(cond)

    def must_same(self, a, b, name, msg):
        self.must(self.same(a, b), name, f"{msg}: got {a!r}, expected {b!r}")

    def model(self, *fs):
        if self.solver.check(*fs) == z3.sat:
            m = self.solver.model()
            return {str(d): str(m[d]) for d in m.decls()[:12]}
        return {}

    def emit(self, *ev):
        self.events.append(ev)

    # ------------------------------------------------------------- truth
    def truthy(self, v, label="truth"):
        if isinstance(v, SB):
            return self.branch(v.z, label)
        if isinstance(v, SI):
            return self.branch(v.z != 0, label)
        if isinstance(v, SV):
            if v.name not in self.truth:
                t = z3.Bool(f"truth_{v.name}")
                self.truth[v.name] = t
                self.assume(z3.Implies(v.z == self.ident(None), z3.Not(t)))
            return self.branch(self.truth[v.name], label)
        if isinstance(v, SymSeq):
            return self.branch(v.hi - v.lo > 0, label)
        if isinstance(v, (Obj, Clo, BM, Coro, Exc, OStr)):
            return True
        return bool(v)

    # ------------------------------------------------------------- attributes
    def getattr(self, o, name, default=_NOPE):
        for h in self.attr_hooks:
            r = h(self, o, name)
            if r is not NOTIMPL:
                return r
        if isinstance(o, Obj):
            if name in o.fields:
                return o.fields[name]
            if name == "__class__" and o.cls is not None:
                return o.cls
            if name == "__dict__":
                return o.fields
            if o.cls is not None:
                try:
                    a = inspect.getattr_static(o.cls, name)
                except AttributeError:
                    a = _NOPE
                if a is not _NOPE and not isinstance(a, (types.MemberDescriptorType, types.GetSetDescriptorType)):
                    if isinstance(a, property):
                        return self.call(a.fget, [o], {})
                    if isinstance(a, staticmethod):
                        return a.__func__
                    if isinstance(a, classmethod):
                        return BM(a.__func__, o.cls)
                    if isinstance(a, types.FunctionType) or callable(a) and hasattr(a, "__wrapped__"):
                        return BM(a, o)
                    return self.shadow(a)
            if o.lazy is not None:
                v = o.lazy(self, o, name)
                if v is not NOTIMPL:
                    o.fields[name] = v
                    return v
            if default is not _NOPE:
                return default
            raise PyRaise(Exc(AttributeError, (name,)))
        if isinstance(o, SV):
            if o.on_attr is not None:
                r = o.on_attr(self, o, name)
                if r is not NOTIMPL:
                    return r
            raise Unsupported(f"attribute {name} of opaque value {o}")
        if isinstance(o, (Clo, Exc)):
            if name in o.fields:
                return o.fields[name]
            if name in ("__name__", "__qualname__") and isinstance(o, Clo):
                return o.name
            if name == "__dict__" and isinstance(o, Clo):
                return o.fields
            if isinstance(o, Exc):
                if name == "args":
                    return tuple(o.args)
                if name == "__traceback__":
                    return SVTB
                if name == "with_traceback":
                    return lambda tb: o
            if default is not _NOPE:
                return default
            raise Unsupported(f"attribute {name} of {o}")
        if isinstance(o, (SymSeq, SymMap)):
            return o.attr(self, name)
        if isinstance(o, (SB, SI, OStr, Coro, GenCM)):
            if isinstance(o, OStr):
                return lambda *a, **k: OStr()
            raise Unsupported(f"attribute {name} of {o}")
        k = (id(o), name)
        if k in self.overlay:
            return self.overlay[k]
        if isinstance(o, (list, dict, set, tuple, str)) and name not in getattr(type(o), "_fields", ()) and hasattr(type(o), name):
            return _Builtin(o, name)
        try:
            v = getattr(o, name)
        except AttributeError:
            if default is not _NOPE:
                return default
            raise PyRaise(Exc(AttributeError, (name,)))
        return self.shadow(v)

    def shadow(self, v):
        """per-path copy of mutable containers owned by live objects"""
        if type(v) in (list, dict, set):
            k = id(v)
            if k not in self.copies:
                self.copies[k] = (v, type(v)(v))
                self.copies[id(self.copies[k][1])] = (self.copies[k][1], self.copies[k][1])
            return self.copies[k][1]
        return v

    def own(self, v):
        """a container made on this path: reads see the container itself"""
        if type(v) in (list, dict, set) and id(v) not in self.copies:
            self.copies[id(v)] = (v, v)
        return v

    def setattr(self, o, name, v):
        self.emit("set", o, name, v)
        if isinstance(o, Obj):
            if o.on_set is not None:
                o.on_set(self, o, name, v)
            o.fields[name] = v
            return
        if isinstance(o, (Clo, Exc)):
            o.fields[name] = v
            return
        if isinstance(o, (SV, SymSeq, SB, SI)):
            raise Unsupported(f"setattr on {o}")
        self.keep.append(o)
        self.overlay[(id(o), name)] = v

    # ------------------------------------------------------------- exceptions
    def exc_matches(self, e, T):
        if isinstance(T, tuple):
            return any(self.exc_matches(e, t) for t in T)
        if not isinstance(T, type):
            raise Unsupported("except with a non-class")
        if e.cls is not None:
            return issubclass(e.cls, T)
        if T in e.known:
            return e.known[T]
        if T is BaseException:
            return True
        for c, b in e.known.items():
            if b and issubclass(c, T):
                return True
            if not b and issubclass(T, c):
                return False
            if b and not issubclass(T, c) and not issubclass(c, T):
                return False       # two unrelated concrete exception classes
        r = self.choose(2, f"{e.name} is {T.__name__}") == 0
        e.known[T] = r
        return r

    # ------------------------------------------------------------- calls
    def call(self, f, args, kwargs):
        for c in self.contracts:
            r = c(self, f, args, kwargs)
            if r is not NOTIMPL:
                return r
        h = self.opaque.get(id(f))
        if h is not None:
            return h(self, args, kwargs)
        if isinstance(f, BM):
            for c in self.contracts:
                r = c(self, f.func, [f.self_, *args], kwargs)
                if r is not NOTIMPL:
                    return r
            h = self.opaque.get(id(f.func))
            if h is not None:
                return h(self, [f.self_, *args], kwargs)
            return self.call(f.func, [f.self_, *args], kwargs)
        if isinstance(f, Clo):
            return self.call_clo(f, args, kwargs)
        if isinstance(f, _Builtin):
            return f.call(self, args, kwargs)
        if isinstance(f, SV):
            if f.on_call is not None:
                return f.on_call(self, args, kwargs)
            raise Unsupported(f"call of opaque value {f}")
        if isinstance(f, Obj):
            return self.call(self.getattr(f, "__call__"), args, kwargs)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__, *args], kwargs)
        if isinstance(f, functools.partial):
            return self.call(f.func, [*f.args, *args], {**f.keywords, **kwargs})
        m = MODELS.get(_key(f))
        if m is not None:
            return m(self, args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, types.FunctionType):
            if f.__module__ and f.__module__.startswith("diwire") or id(f.__code__) in src.EMITTED or f.__code__.co_filename.startswith(self.eng.repo):
                if hasattr(f, "__wrapped__") and inspect.isgeneratorfunction(f.__wrapped__):
                    return GenCM(self.clo_of(f.__wrapped__), args, kwargs)
                return self.call_clo(self.clo_of(f), args, kwargs)
            if concrete(args) and concrete(kwargs):
                return self.real(f, args, kwargs)
            raise Unsupported(f"call of {f.__module__}.{f.__qualname__} with symbolic arguments")
        if callable(f):
            if getattr(f, "__py_model__", False) or isinstance(f, types.LambdaType):
                return f(*args, **kwargs)
            if concrete(args) and concrete(kwargs):
                return self.real(f, args, kwargs)
        raise Unsupported(f"call of {f!r}")

    def obj(self, cls, name, fields=None, lazy=None):
        return Obj(cls, name, fields, lazy)

    def intercept(self, cls, name, handler):
        """calls of a method are answered by handler(path, args, kwargs)"""
        self.opaque[id(getattr(cls, name))] = handler

    def recursive(self, cls, name, contract):
        """the first call of a method runs its body, calls from inside are answered by the contract"""
        f, top = getattr(cls, name), []

        def rec(p, fn, a, k):
            if fn is not f:
                return NOTIMPL
            if not top:
                top.append(1)
                return NOTIMPL
            return contract(p, a, k)
        self.contracts.append(rec)

    def real(self, f, args, kwargs):
        try:
            return f(*args, **kwargs)
        except Exception as e:
            x = Exc(type(e), e.args)
            x.fields["__real__"] = e
            raise PyRaise(x)

    def clo_of(self, f):
        node = src.node_for_code(f.__code__)
        env = None
        if f.__closure__:
            hit = self.cells.get(id(f))
            if hit is not None:
                env = hit[1]
            else:
                env = Frame(None, f.__globals__, "<cells>")
                for n, c in zip(f.__code__.co_freevars, f.__closure__):
                    try:
                        env.vars[n] = self.shadow(c.cell_contents)
                    except ValueError:
                        pass
                self.cells[id(f)] = (f, env)
        c = Clo(node, env, f.__globals__, list(f.__defaults__ or ()), dict(f.__kwdefaults__ or {}), f.__qualname__, f)
        self.eng.functions.add(f"{f.__module__ or 'emitted'}.{f.__qualname__}")
        return c

    def bind(self, c, args, kwargs):
        a = c.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        kwargs = dict(kwargs)
        for n in pos:
            if args:
                if n in kwargs and n not in [x.arg for x in a.posonlyargs]:
                    raise PyRaise(Exc(TypeError, (f"multiple values for {n}",)))
                out[n] = args.pop(0)
            elif n in kwargs:
                out[n] = kwargs.pop(n)
        nd = len(c.defaults)
        for i, n in enumerate(pos):
            if n not in out:
                j = i - (len(pos) - nd)
                if j < 0:
                    raise PyRaise(Exc(TypeError, (f"{c.name} missing argument {n}",)))
                out[n] = c.defaults[j]
        if a.vararg:
            out[a.vararg.arg] = tuple(args)
        elif args:
            raise PyRaise(Exc(TypeError, (f"{c.name} too many positional arguments",)))
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                out[x.arg] = kwargs.pop(x.arg)
            elif x.arg in c.kwdefaults:
                out[x.arg] = c.kwdefaults[x.arg]
            else:
                raise PyRaise(Exc(TypeError, (f"{c.name} missing keyword {x.arg}",)))
        if a.kwarg:
            out[a.kwarg.arg] = kwargs
        elif kwargs:
            raise PyRaise(Exc(TypeError, (f"{c.name} unexpected keyword {list(kwargs)}",)))
        return out

    def call_clo(self, c, args, kwargs):
        fr = Frame(c.env, c.glob, c.name)
        fr.vars.update(self.bind(c, args, kwargs))
        if isinstance(c.node, ast.Lambda):
            return self.eval(c.node.body, fr)
        if isinstance(c.node, ast.AsyncFunctionDef):
            return Coro(lambda: self.run_body(c.node, fr), c.name)
        if _has_yield(c.node):
            raise Unsupported(f"generator {c.name}")
        return self.run_body(c.node, fr)

    def run_body(self, node, fr):
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion too deep")
        try:
            self.block(node.body, fr)
            return None
        except _Return as r:
            return r.value
        finally:
            self.depth -= 1

    def await_(self, v):
        if isinstance(v, Coro):
            if v.started:
                raise PyRaise(Exc(RuntimeError, ("coroutine awaited twice",)))
            v.started = True
            return v.run()
        if isinstance(v, SV) and v.awaited is not None:
            return v.awaited(self)
        if isinstance(v, Obj) and "__await__" in v.fields:
            return v.fields["__await__"]()
        raise Unsupported(f"await of {v!r}")

    def instantiate(self, cls, args, kwargs):
        if issubclass(cls, BaseException):
            return Exc(cls, tuple(args))
        if cls.__module__ == "diwire._internal.scope" and concrete(args) and concrete(kwargs):
            return self.real(cls, args, kwargs)
        if dataclasses.is_dataclass(cls) and cls.__module__.startswith("diwire"):
            vs = [*args, *kwargs.values()]
            if cls.__dataclass_params__.frozen and vs and all(type(v) in (int, str, bool) for v in vs) and not hasattr(cls, "__post_init__"):
                return self.real(cls, args, kwargs)
            o = Obj(cls, cls.__name__)
            self.created.append(o)
            fs = [f for f in dataclasses.fields(cls) if f.init]
            args = list(args)
            kwargs = dict(kwargs)
            for f in fs:
                if args and not f.kw_only:
                    o.fields[f.name] = args.pop(0)
                elif f.name in kwargs:
                    o.fields[f.name] = kwargs.pop(f.name)
                elif f.default is not dataclasses.MISSING:
                    o.fields[f.name] = f.default
                elif f.default_factory is not dataclasses.MISSING:
                    o.fields[f.name] = self.own(f.default_factory())
                else:
                    raise PyRaise(Exc(TypeError, (f"{cls.__name__} missing {f.name}",)))
            if args or kwargs:
                raise PyRaise(Exc(TypeError, (f"{cls.__name__}: extra arguments",)))
            if hasattr(cls, "__post_init__"):
                self.call(cls.__post_init__, [o], {})
            return o
        if cls in (list, tuple, set, frozenset, dict):
            return self.own(self.container(cls, args, kwargs))
        return self.instantiate2(cls, args, kwargs)

    def container(self, cls, args, kwargs):
            if not args and not kwargs:
                return cls()
            if cls is dict:
                if isinstance(args[0] if args else None, SymMap):
                    return args[0].copy()
                if len(args) == 1 and foreign(args[0]) and not kwargs:
                    return {SPREAD: [args[0]]}
                return dict(*[dict(self.iterate(x)) if not isinstance(x, dict) else x for x in args], **kwargs)
            if isinstance(args[0], SymSeq):
                return args[0].copy(cls)
            if foreign(args[0]) and cls in (list, tuple):
                return cls((Spread(args[0]),))
            return cls(self.iterate(args[0]))

    def instantiate2(self, cls, args, kwargs):
        if cls is bool:
            return self.truthy(args[0]) if args else False
        if cls is type and len(args) == 1:
            return self.type_of(args[0])
        if cls in (int, str):
            if concrete(args):
                return cls(*args)
            if cls is str:
                if isinstance(args[0], Exc) and args[0].cls is not None and concrete(args[0].args):
                    try:
                        return str(args[0].cls(*args[0].args))
                    except Exception:
                        pass
                return OStr()
            if isinstance(args[0], SI):
                return args[0]
        if cls in (enumerate, zip, reversed, range, map, filter):
            return self.builtin_iter(cls, args, kwargs)
        mod = cls.__module__ or ""
        if mod.startswith("diwire") or id(getattr(cls.__init__, "__code__", None)) in src.EMITTED:
            o = Obj(cls, cls.__name__)
            self.created.append(o)
            if isinstance(cls.__init__, types.FunctionType):
                self.call(cls.__init__, [o, *args], kwargs)
            return o
        if concrete(args) and concrete(kwargs):
            return self.real(cls, args, kwargs)
        raise Unsupported(f"instantiate {cls}")

    def type_of(self, v):
        if isinstance(v, Obj) and v.cls is not None:
            return v.cls
        if isinstance(v, Exc):
            if v.cls is not None:
                return v.cls
            t = v.fields.get("__type__")
            if t is None:
                t = v.fields["__type__"] = self.fresh("exc_type", (None,))
            return t
        if isinstance(v, (SV, SymSeq, Obj)):
            raise Unsupported(f"type() of {v}")
        if isinstance(v, (Clo,)):
            return types.FunctionType
        return type(v)

    def builtin_iter(self, cls, args, kwargs):
        if cls is range:
            return range(*args)
        if cls is enumerate:
            return enumerate(self.iterate(args[0]), *(args[1:] or [kwargs.get("start", 0)]))
        if cls is zip:
            return zip(*[self.iterate(a) for a in args], **kwargs)
        if cls is reversed:
            if isinstance(args[0], SymSeq):
                return args[0].reversed()
            return reversed(list(self.iterate(args[0])))
        if cls is map:
            return (self.call(args[0], list(x), {}) for x in zip(*[self.iterate(a) for a in args[1:]]))
        if cls is filter:
            return (x for x in self.iterate(args[1]) if (self.truthy(x) if args[0] is None else self.truthy(self.call(args[0], [x], {}))))
        raise Unsupported(str(cls))

    def iterate(self, v):
        if isinstance(v, (list, tuple, dict, set, frozenset, range, str, types.GeneratorType, enumerate, zip, reversed)):
            return v
        if type(v).__name__ in ("dict_keys", "dict_values", "dict_items", "list_reverseiterator", "mappingproxy", "list_iterator", "tuple_iterator", "map", "odict_values"):
            return v
        if isinstance(v, Obj) and v.cls is not None and hasattr(v.cls, "__iter__"):
            raise Unsupported(f"iterate over {v}")
        if isinstance(v, (SV, Obj, SymSeq, SB, SI, Exc)):
            raise Unsupported(f"iterate over {v}")
        try:
            return iter(v)
        except TypeError as e:
            raise PyRaise(Exc(TypeError, e.args))

    # ------------------------------------------------------------- statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.steps += 1
        if self.steps > 200000:
            raise Unsupported("path too long")
        getattr(self, "s_" + type(s).__name__, self.s_unsupported)(s, fr)

    def s_unsupported(self, s, fr):
        raise Unsupported(f"statement {type(s).__name__}")

    def s_Expr(self, s, fr):
        self.eval(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Return(self, s, fr):
        raise _Return(self.eval(s.value, fr) if s.value is not None else None)

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        cur = self.eval(_load(s.target), fr)
        v = self.eval(s.value, fr)
        if isinstance(cur, list) and isinstance(s.op, ast.Add):
            cur.extend(self.iterate(v))
            r = cur
        else:
            r = self.binop(s.op, cur, v)
        self.assign(s.target, r, fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.nonlocals:
                f = fr.parent
                while f is not None:
                    if t.id in f.vars:
                        f.vars[t.id] = v
                        return
                    f = f.parent
            if t.id in fr.globals_decl:
                raise Unsupported("global assignment")
            fr.vars[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), t.slice, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.iterate(v))
            st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                i = st[0]
                k = len(t.elts) - i - 1
                for x, y in zip(t.elts[:i], vs[:i]):
                    self.assign(x, y, fr)
                self.assign(t.elts[i].value, vs[i:len(vs) - k], fr)
                for x, y in zip(t.elts[i + 1:], vs[len(vs) - k:]):
                    self.assign(x, y, fr)
                return
            if len(vs) != len(t.elts):
                raise PyRaise(Exc(ValueError, ("unpack",)))
            for x, y in zip(t.elts, vs):
                self.assign(x, y, fr)
        else:
            raise Unsupported(f"assign to {type(t).__name__}")

    def setitem(self, o, sl, v, fr):
        if isinstance(sl, ast.Slice):
            lo = self.eval(sl.lower, fr) if sl.lower else None
            hi = self.eval(sl.upper, fr) if sl.upper else None
            if isinstance(o, SymSeq):
                return o.setslice(self, lo, hi, v)
            if not isinstance(o, list):
                raise Unsupported("slice assignment")
            o[lo:hi] = list(self.iterate(v))
            return
        k = self.eval(sl, fr)
        if isinstance(o, SymMap):
            return o.set(self, k, v)
        if isinstance(o, (dict, list)):
            self.emit("setitem", o, k, v)
            if isinstance(o, dict):
                self.hashable(k)
                o[k] = v
                return
            o[k] = v
            return
        if isinstance(o, Obj) and "__setitem__" in o.fields:
            self.call(o.fields["__setitem__"], [k, v], {})
            return
        raise Unsupported(f"setitem on {o!r}")

    def hashable(self, k):
        if isinstance(k, (list, dict, set)):
            raise PyRaise(Exc(TypeError, ("unhashable",)))
        if isinstance(k, (SB, SI, OStr)):
            raise Unsupported("symbolic key in a concrete dict")
        return k

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o, k = self.eval(t.value, fr), self.eval(t.slice, fr)
                if isinstance(o, SymMap):
                    o.delete(self, k)
                    continue
                if k not in o:
                    raise PyRaise(Exc(KeyError, (k,)))
                self.emit("delitem", o, k)
                del o[k]
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                if isinstance(o, Obj) and t.attr in o.fields:
                    self.emit("del", o, t.attr)
                    del o.fields[t.attr]
                else:
                    raise Unsupported("del attribute")

    def s_If(self, s, fr):
        self.block(s.body if self.truthy(self.eval(s.test, fr), "if") else s.orelse, fr)

    def s_While(self, s, fr):
        if self.loop_handler is not None and self.loop_handler(self, s, fr):
            return
        n = 0
        while True:
            if not self.truthy(self.eval(s.test, fr), "while"):
                self.block(s.orelse, fr)
                return
            n += 1
            if n > self.eng.unroll:
                raise Unsupported(f"while loop unrolled {n} times")
            try:
                self.block(s.body, fr)
            except _Break:
                return
            except _Continue:
                pass

    def s_For(self, s, fr):
        it = self.eval(s.iter, fr)
        if self.loop_handler is not None and self.loop_handler(self, s, fr, it):
            return
        if isinstance(it, SymSeq):
            raise Unsupported("loop over a sequence of unknown length without invariant")
        for x in self.iterate(it):
            self.assign(s.target, x, fr)
            try:
                self.block(s.body, fr)
            except _Break:
                return
            except _Continue:
                pass
        self.block(s.orelse, fr)

    def s_Break(self, s, fr):
        raise _Break()

    def s_Continue(self, s, fr):
        raise _Continue()

    def s_Raise(self, s, fr):
        if s.exc is None:
            f = fr
            while f is not None:
                if f.exc_stack:
                    raise PyRaise(f.exc_stack[-1])
                f = f.parent
            raise Unsupported("bare raise")
        e = self.eval(s.exc, fr)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = Exc(e, ())
        if s.cause is not None:
            self.eval(s.cause, fr)
        if isinstance(e, SV) and e.tag == "exc":
            e = e.facts["exc"]
        if not isinstance(e, Exc):
            if e is None:
                raise PyRaise(Exc(TypeError, ("exceptions must derive from BaseException",)))
            raise Unsupported(f"raise {e!r}")
        if self.raise_hook is not None:
            self.raise_hook(e)
        raise PyRaise(e)

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyRaise as r:
                for h in s.handlers:
                    T = self.eval(h.type, fr) if h.type is not None else BaseException
                    if self.exc_matches(r.exc, T):
                        if h.name:
                            fr.vars[h.name] = r.exc
                        fr.exc_stack.append(r.exc)
                        try:
                            self.block(h.body, fr)
                        finally:
                            fr.exc_stack.pop()
                            if h.name:
                                fr.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        except (PyRaise, _Return, _Break, _Continue):
            if s.finalbody:
                self.block(s.finalbody, fr)
            raise
        else:
            if s.finalbody:
                self.block(s.finalbody, fr)

    def s_With(self, s, fr, is_async=False):
        self.with_items(s.items, s.body, fr, is_async)

    def s_AsyncWith(self, s, fr):
        self.with_items(s.items, s.body, fr, True)

    def with_items(self, items, body, fr, is_async):
        if not items:
            return self.block(body, fr)
        it = items[0]
        cm = self.eval(it.context_expr, fr)
        rest = lambda: self.with_items(items[1:], body, fr, is_async)
        if isinstance(cm, GenCM):
            return self.run_gencm(cm, it, rest, fr)
        if islock(cm) or isinstance(cm, Obj) and cm.fields.get("__lock__"):
            self.acquire(cm)
            try:
                rest()
            finally:
                if sys.exc_info()[0] not in (PathEnd, Violation, Unsupported):
                    self.release(cm)
            return
        if isinstance(cm, Coro):
            raise Unsupported("with on a coroutine")
        if isinstance(cm, contextlib.suppress) and not is_async:
            try:
                rest()
            except PyRaise as r:
                if not self.exc_matches(r.exc, tuple(cm._exceptions)):
                    raise
            return
        pre = "__a" if is_async else "__"
        aw = self.await_ if is_async else (lambda x: x)
        ex = self.getattr(cm, pre + "exit__")
        v = aw(self.call(self.getattr(cm, pre + "enter__"), [], {}))
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        try:
            rest()
        except PyRaise as r:
            t = self.type_of(r.exc)
            if self.truthy(aw(self.call(ex, [t, r.exc, SVTB], {}))):
                return
            raise
        except (_Return, _Break, _Continue):
            aw(self.call(ex, [None, None, None], {}))
            raise
        aw(self.call(ex, [None, None, None], {}))

    def run_gencm(self, cm, it, rest, fr):
        c = cm.clo
        g = Frame(c.env, c.glob, c.name)
        g.vars.update(self.bind(c, cm.args, cm.kwargs))
        pending = []
        count = [0]

        def cb(v):
            count[0] += 1
            if count[0] > 1:
                raise Unsupported("generator context manager yields twice")
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            try:
                rest()
            except (_Return, _Break, _Continue) as x:
                pending.append(x)
        g.yield_cb = cb
        self.run_body(c.node, g)
        if pending:
            raise pending[0]

    def acquire(self, lock):
        if any(l is lock for l in self.held):
            self.eng.obl("lock.no-self-deadlock")
            raise Violation("lock.no-self-deadlock", "a lock is acquired while already held by the same call")
        self.emit("acquire", lock)
        self.held.append(lock)
        if self.on_lock:
            self.on_lock(self, lock, True)

    def release(self, lock):
        self.emit("release", lock)
        self.held = [l for l in self.held if l is not lock]
        if self.on_lock:
            self.on_lock(self, lock, False)

    def s_FunctionDef(self, s, fr):
        d = [self.eval(x, fr) for x in s.args.defaults]
        kd = {a.arg: self.eval(x, fr) for a, x in zip(s.args.kwonlyargs, s.args.kw_defaults) if x is not None}
        c = Clo(s, fr, fr.glob, d, kd, s.name)
        for dec in s.decorator_list:
            if isinstance(dec, ast.Call) and isinstance(dec.func, ast.Attribute) and dec.func.attr == "wraps":
                c.fields["__wrapped__"] = self.eval(dec.args[0], fr)
            else:
                raise Unsupported("decorator of a nested function")
        self.assign(ast.Name(id=s.name, ctx=ast.Store()), c, fr)

    s_AsyncFunctionDef = s_FunctionDef

    def s_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def s_Global(self, s, fr):
        fr.globals_decl.update(s.names)

    def s_Assert(self, s, fr):
        if not self.truthy(self.eval(s.test, fr), "assert"):
            raise PyRaise(Exc(AssertionError, ()))

    def s_Import(self, s, fr):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            fr.vars[a.asname or a.name.split(".")[0]] = m if a.asname else sys.modules[a.name.split(".")[0]]

    def s_ImportFrom(self, s, fr):
        import importlib
        m = importlib.import_module(s.module)
        for a in s.names:
            fr.vars[a.asname or a.name] = getattr(m, a.name)

    # ------------------------------------------------------------- expressions
    def eval(self, e, fr):
        return getattr(self, "e_" + type(e).__name__, self.e_unsupported)(e, fr)

    def e_unsupported(self, e, fr):
        raise Unsupported(f"expression {type(e).__name__}")

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        v = fr.lookup(e.id)
        if v is not _NOPE:
            return v
        if e.id in fr.glob:
            return self.shadow(fr.glob[e.id])
        if hasattr(builtins, e.id):
            return getattr(builtins, e.id)
        raise PyRaise(Exc(NameError, (e.id,)))

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_BoolOp(self, e, fr):
        for x in e.values[:-1]:
            v = self.eval(x, fr)
            t = self.truthy(v, "and" if isinstance(e.op, ast.And) else "or")
            if isinstance(e.op, ast.And) and not t or isinstance(e.op, ast.Or) and t:
                return v
        return self.eval(e.values[-1], fr)

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return not self.truthy(v, "not")
        if isinstance(v, SI):
            return SI(-v.z)
        return {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.inv}[type(e.op)](v)

    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.truthy(self.eval(e.test, fr), "ifexp") else e.orelse, fr)

    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.eval(e.left, fr), self.eval(e.right, fr))

    def binop(self, op, a, b):
        if isinstance(op, ast.Add) and isinstance(a, SymSeq) and isinstance(b, (list, tuple)) and a.kind is type(b):
            return a.cat(self, list(b), a.kind)
        if isinstance(a, (SI, int)) and isinstance(b, (SI, int)) and (isinstance(a, SI) or isinstance(b, SI)):
            x, y = zi(a), zi(b)
            if isinstance(op, ast.Add):
                return SI(x + y)
            if isinstance(op, ast.Sub):
                return SI(x - y)
        if isinstance(a, OStr) or isinstance(b, OStr):
            return OStr()
        if isinstance(a, (SV, SymSeq, Obj)) or isinstance(b, (SV, SymSeq, Obj)):
            raise Unsupported(f"operator on {a!r}, {b!r}")
        f = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Mod: operator.mod,
             ast.BitOr: operator.or_, ast.BitAnd: operator.and_, ast.FloorDiv: operator.floordiv, ast.Div: operator.truediv,
             ast.Pow: operator.pow, ast.BitXor: operator.xor}[type(op)]
        return self.own(self.real(f, [a, b], {}))

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            res = self.compare(op, left, right)
            if len(e.ops) > 1 and not self.truthy(res, "cmp"):
                return False
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.same(a, b)
            if isinstance(op, ast.IsNot):
                r = (not r) if isinstance(r, bool) else z3.Not(r)
            return r if isinstance(r, bool) else SB(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.NotIn):
                return (not r) if isinstance(r, bool) else SB(z3.Not(r.z))
            return r
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal(a, b)
            if isinstance(op, ast.NotEq):
                return (not r) if isinstance(r, bool) else SB(z3.Not(r.z))
            return r
        f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)]
        if isinstance(a, SI) or isinstance(b, SI):
            return SB(f(zi(a), zi(b)))
        if isinstance(a, tuple) and isinstance(b, tuple) and not (concrete(a) and concrete(b)):
            return SB(lex(a, b, f is operator.gt) if f in (operator.gt, operator.ge) else lex(b, a, f is operator.lt))
        if isinstance(a, (SV, Obj)) or isinstance(b, (SV, Obj)):
            raise Unsupported("ordering of opaque values")
        return self.real(f, [a, b], {})

    def equal(self, a, b):
        if a is b:
            return True
        if isinstance(a, (SI, int)) and isinstance(b, (SI, int)) and (isinstance(a, SI) or isinstance(b, SI)):
            return SB(zi(a) == zi(b))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SV) and "eq" in x.facts:
                return x.facts["eq"](self, y)
        if isinstance(a, SV) or isinstance(b, SV):
            # user-defined equality: identity implies equality, otherwise unknown unless declared identity-like
            if getattr(a, "facts", {}).get("ident_eq") or getattr(b, "facts", {}).get("ident_eq") or a is None or b is None:
                return SB(self.ident(a) == self.ident(b))
            raise Unsupported(f"== on opaque values {a!r} {b!r}")
        if isinstance(a, (Obj, Clo, Exc, Coro)) or isinstance(b, (Obj, Clo, Exc, Coro)):
            if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls and a.cls is not None and dataclasses.is_dataclass(a.cls):
                return all(self.truthy(self.equal(a.fields.get(k), b.fields.get(k))) for k in a.fields)
            return False
        if isinstance(a, OStr) or isinstance(b, OStr):
            raise Unsupported("== on opaque strings")
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if type(a) is not type(b) or len(a) != len(b):
                return False
            for x, y in zip(a, b):
                if not self.truthy(self.equal(x, y)):
                    return False
            return True
        return bool(a == b)

    def contains(self, c, x):
        if isinstance(c, SymMap):
            return c.contains(self, x)
        if isinstance(c, Obj):
            return self.call(self.getattr(c, "__contains__"), [x], {})
        if isinstance(c, SV):
            raise Unsupported("in opaque container")
        if isinstance(x, SV):
            if isinstance(c, dict) and any(k is x for k in c):
                return True
            r = [self.equal(x, k) for k in c]
            return SB(z3.Or([z3.BoolVal(False)] + [y.z if isinstance(y, SB) else z3.BoolVal(y) for y in r]))
        if isinstance(x, OStr):
            raise Unsupported("opaque string in container")
        if isinstance(c, (list, tuple)):
            return any(self.truthy(self.equal(x, y)) for y in c)
        if isinstance(x, SI) and isinstance(c, (dict, set, frozenset)):
            return self.which(c, x) is not NOTIMPL
        if isinstance(c, (dict, set, frozenset)):
            self.hashable(x)
            try:
                return x in c
            except TypeError as e:
                raise PyRaise(Exc(TypeError, e.args))
        if isinstance(c, OStr):
            raise Unsupported("in opaque string")
        if c is None or isinstance(c, (int, float)):
            raise PyRaise(Exc(TypeError, (f"argument of type '{type(c).__name__}' is not iterable",)))
        return self.real(operator.contains, [c, x], {})

    def which(self, c, x):
        """the key of a concrete mapping or set equal to a symbolic integer on this path"""
        for k in list(c):
            if isinstance(k, (SV, SB, SI, Obj)) and not isinstance(k, SI):
                raise Unsupported("symbolic key among symbolic keys")
            if isinstance(k, (int, SI)) and self.branch(x.z == zi(k), "key"):
                return k
        return NOTIMPL

    def pin(self, x):
        """the value of a symbolic integer the path has fixed"""
        if self.solver.check() != z3.sat:
            return x
        v = self.solver.model().eval(x.z, model_completion=True).as_long()
        return x if self.sat(x.z != v) else v

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            lo = self.eval(e.slice.lower, fr) if e.slice.lower else None
            hi = self.eval(e.slice.upper, fr) if e.slice.upper else None
            st = self.eval(e.slice.step, fr) if e.slice.step else None
            if isinstance(o, SymSeq):
                return o.getslice(self, lo, hi, st)
            if isinstance(o, (SV, Obj)):
                raise Unsupported("slice of opaque value")
            return o[lo:hi:st]
        k = self.eval(e.slice, fr)
        return self.getitem(o, k)

    def getitem(self, o, k):
        if isinstance(o, (SymSeq, SymMap)):
            return o.getitem(self, k)
        if isinstance(o, Obj):
            return self.call(self.getattr(o, "__getitem__"), [k], {})
        if isinstance(o, SV):
            raise Unsupported("subscript of opaque value")
        if isinstance(o, dict):
            if isinstance(k, SV):
                for kk in o:
                    if kk is k:
                        return o[kk]
                for kk in list(o):
                    if self.truthy(self.equal(k, kk), "key"):
                        return o[kk]
                raise PyRaise(Exc(KeyError, (k,)))
            if isinstance(k, SI):
                k = self.which(o, k)
                if k is NOTIMPL:
                    raise PyRaise(Exc(KeyError, (k,)))
            if k not in o:
                if hasattr(o, "__missing__"):
                    return o[k]
                raise PyRaise(Exc(KeyError, (k,)))
            return self.shadow(o[k])
        if isinstance(k, SI):
            raise Unsupported("symbolic index")
        try:
            return self.shadow(o[k])
        except (IndexError, KeyError) as x:
            raise PyRaise(Exc(type(x), x.args))

    def e_Tuple(self, e, fr):
        if e.elts and isinstance(e.elts[0], ast.Starred):
            v = self.eval(e.elts[0].value, fr)
            if isinstance(v, SymSeq):
                return v.cat(self, self.elts(e.elts[1:], fr), tuple)
            return tuple(self.elts(e.elts, fr, v))
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        if e.elts and isinstance(e.elts[0], ast.Starred):
            v = self.eval(e.elts[0].value, fr)
            if isinstance(v, SymSeq):
                return v.cat(self, self.elts(e.elts[1:], fr), list)
            return self.own(self.elts(e.elts, fr, v))
        return self.own(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        return self.own(set(self.elts(e.elts, fr)))

    def elts(self, elts, fr, first=_NOPE):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fr) if first is _NOPE else first
                first = _NOPE
                if foreign(v):
                    out.append(Spread(v))
                    continue
                out.extend(self.iterate(v))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.eval(v, fr)
                if isinstance(x, (SV, SymMap)):
                    raise Unsupported("** of opaque mapping in a display")
                d.update(x)
            else:
                kk = self.hashable(self.eval(k, fr))
                d[kk] = self.eval(v, fr)
        return self.own(d)

    def e_Lambda(self, e, fr):
        d = [self.eval(x, fr) for x in e.args.defaults]
        kd = {a.arg: self.eval(x, fr) for a, x in zip(e.args.kwonlyargs, e.args.kw_defaults) if x is not None}
        return Clo(e, fr, fr.glob, d, kd, "<lambda>")

    def e_Await(self, e, fr):
        return self.await_(self.eval(e.value, fr))

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else None
        if fr.yield_cb is None:
            raise Unsupported("yield")
        return fr.yield_cb(v)

    def e_JoinedStr(self, e, fr):
        vals = []
        for p in e.values:
            if isinstance(p, ast.FormattedValue):
                v = self.eval(p.value, fr)
                if isinstance(v, SI):
                    v = self.pin(v)
                vals.append((v, p))
            else:
                vals.append((p.value, None))
        if all(concrete(v) for v, _ in vals):
            out = ""
            for v, p in vals:
                if p is None:
                    out += v
                    continue
                spec = self.eval(p.format_spec, fr) if p.format_spec else ""
                v = {-1: lambda x: x, 115: str, 114: repr, 97: ascii}[p.conversion](v)
                try:
                    out += format(v, spec)
                except Exception:
                    return OStr()
            return out
        return OStr(tuple(v for v, _ in vals))

    def comp(self, gens, fr, leaf):
        g = gens[0]
        it = self.eval(g.iter, fr)
        if isinstance(it, SymSeq):
            raise Unsupported("comprehension over a sequence of unknown length")
        for x in self.iterate(it):
            self.assign(g.target, x, fr)
            if all(self.truthy(self.eval(c, fr), "compif") for c in g.ifs):
                if len(gens) > 1:
                    yield from self.comp(gens[1:], fr, leaf)
                else:
                    yield leaf()

    def _cf(self, fr):
        f = Frame(fr, fr.glob, fr.fname)
        f.yield_cb = None
        return f

    def e_ListComp(self, e, fr):
        f = self._cf(fr)
        return self.own(list(self.comp(e.generators, f, lambda: self.eval(e.elt, f))))

    def e_SetComp(self, e, fr):
        f = self._cf(fr)
        return self.own(set(self.comp(e.generators, f, lambda: self.eval(e.elt, f))))

    def e_GeneratorExp(self, e, fr):
        f = self._cf(fr)
        return self.comp(e.generators, f, lambda: self.eval(e.elt, f))

    def e_DictComp(self, e, fr):
        f = self._cf(fr)
        return self.own(dict(self.comp(e.generators, f, lambda: (self.hashable(self.eval(e.key, f)), self.eval(e.value, f)))))

    def e_Starred(self, e, fr):
        raise Unsupported("starred")

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            raise Unsupported("super()")
        f = self.eval(e.func, fr)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                if isinstance(v, SymSeq) or foreign(v):
                    args.append(Spread(v))
                else:
                    args.extend(self.iterate(v))
            else:
                args.append(self.eval(a, fr))
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                if isinstance(v, SymMap) or foreign(v):
                    kwargs.setdefault(SPREAD, []).append(v)
                    continue
                for kk, vv in v.items():
                    if kk in kwargs:
                        raise PyRaise(Exc(TypeError, (f"multiple values for {kk}",)))
                    kwargs[kk] = vv
            else:
                if k.arg in kwargs:
                    raise PyRaise(Exc(TypeError, (f"multiple values for {k.arg}",)))
                kwargs[k.arg] = v
        if f is builtins.locals or f is builtins.globals or f is builtins.eval or f is builtins.exec:
            raise Unsupported(f.__name__)
        return self.call(f, args, kwargs)


SPREAD = "**spread"


def foreign(v):
    """a value of user code (opaque, or a registered instance): its iteration protocol is not interpreted"""
    return isinstance(v, SV) or type(v).__module__.startswith("vf.")and not isinstance(v, (_Model, _Builtin, Obj, SymSeq, SymMap, Exc, Clo, BM, Coro, SB, SI, OStr))


class Spread:
    """*value of an opaque iterable, in an argument list"""
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"*{self.v!r}"


class _NI:
    def __repr__(self):
        return "NOTIMPL"


NOTIMPL = _NI()
SVTB = SV(z3.Int("traceback"), "traceback")


class SymSeq:
    """sequence of unknown length: elements elem(i) for lo <= i < hi of a base sequence"""

    def __init__(self, elem, lo, hi, kind=list, name="seq", rev=False):
        self.elem, self.lo, self.hi, self.kind, self.name, self.rev = elem, lo, hi, kind, name, rev
        self.on_append = None

    def __repr__(self):
        return f"<{self.name}[{self.lo}:{self.hi}]{'r' if self.rev else ''}>"

    def reversed(self):
        return SymSeq(self.elem, self.lo, self.hi, tuple, self.name, not self.rev)

    def copy(self, kind):
        return SymSeq(self.elem, self.lo, self.hi, kind, self.name, self.rev)

    def setslice(self, p, lo, hi, v):
        raise Unsupported("slice assignment of a symbolic sequence")

    def getslice(self, p, lo, hi, st):
        if lo is None and hi is None and st == -1:
            return SymSeq(self.elem, self.lo, self.hi, self.kind, self.name, not self.rev)
        if lo is None and hi is None and st is None:
            return self.copy(self.kind)
        if st in (None, 1) and not self.rev and lo in (None, 0) and isinstance(hi, int) and hi < 0:
            h = z3.simplify(self.hi + hi)
            if not p.branch(h >= self.lo, "len"):
                h = self.lo
            return SymSeq(self.elem, self.lo, h, self.kind, self.name)
        if st in (None, 1) and not self.rev and hi is None and isinstance(lo, int) and lo >= 0:
            l = z3.simplify(self.lo + lo)
            if not p.branch(l <= self.hi, "len"):
                l = self.hi
            return SymSeq(self.elem, l, self.hi, self.kind, self.name)
        raise Unsupported("slice of a symbolic sequence")

    def cat(self, p, items, kind):
        if self.rev:
            raise Unsupported("concatenation to a reversed symbolic sequence")
        hi, elem = self.hi, self.elem

        def el(p, i):
            for k, x in enumerate(items):
                if p.branch(z3.simplify(i == hi + k), "index"):
                    return x
            return elem(p, i)
        return SymSeq(el, self.lo, z3.simplify(hi + len(items)), kind, self.name)

    def getitem(self, p, k):
        if isinstance(k, int):
            if k < 0:
                if not p.branch(self.hi - self.lo >= -k, "len"):
                    raise PyRaise(Exc(IndexError, ()))
                return self.elem(p, self.hi + k if not self.rev else self.lo - k - 1)
            if not p.branch(self.hi - self.lo > k, "len"):
                raise PyRaise(Exc(IndexError, ()))
            return self.elem(p, self.lo + k if not self.rev else self.hi - 1 - k)
        raise Unsupported("symbolic index")

    def attr(self, p, name):
        if name == "pop":
            def pop(i=-1):
                if not p.branch(self.hi - self.lo > 0, "nonempty"):
                    raise PyRaise(Exc(IndexError, ("pop from empty list",)))
                if i not in (-1, 0) or self.rev:
                    raise Unsupported("pop index")
                if i == -1:
                    self.hi = z3.simplify(self.hi - 1)
                    return self.elem(p, self.hi)
                x = self.elem(p, self.lo)
                self.lo = z3.simplify(self.lo + 1)
                return x
            return _model(pop)
        if name == "append":
            def append(v):
                if self.on_append is None:
                    raise Unsupported("append to a symbolic sequence")
                self.on_append(p, v)
            return _model(append)
        if name == "clear":
            def clear():
                p.emit("clear", self)
                self.hi = self.lo
            return _model(clear)
        if name == "copy":
            return _model(lambda: self.copy(self.kind))
        raise Unsupported(f"sequence.{name}")


class SymMap:
    """mapping with unknown content; lookup(p, key) -> (present: bool-ish z3/bool, value)"""

    def __init__(self, lookup, name="map"):
        self.lookup, self.name = lookup, name
        self.over = []     # (key, value or _DEL) newest last

    def __repr__(self):
        return f"<{self.name}>"

    def copy(self):
        m = SymMap(self.lookup, self.name + "'")
        m.over = list(self.over)
        return m

    def find(self, p, k):
        for kk, v in reversed(self.over):
            e = p.equal(k, kk)
            if p.truthy(e, "mapkey"):
                return (False, None) if v is _DEL else (True, v)
        present, v = self.lookup(p, k)
        if not isinstance(present, bool):
            present = p.branch(present, f"{self.name} has key")
        return present, v

    def contains(self, p, k):
        return self.find(p, k)[0]

    def getitem(self, p, k):
        ok, v = self.find(p, k)
        if not ok:
            raise PyRaise(Exc(KeyError, (k,)))
        return v

    def set(self, p, k, v):
        p.emit("mapset", self, k, v)
        self.over.append((k, v))

    def delete(self, p, k):
        if not self.find(p, k)[0]:
            raise PyRaise(Exc(KeyError, (k,)))
        p.emit("mapdel", self, k)
        self.over.append((k, _DEL))

    def attr(self, p, name):
        if name == "get":
            def get(k, d=None):
                ok, v = self.find(p, k)
                return v if ok else d
            return _model(get)
        if name == "pop":
            def pop(k, *d):
                ok, v = self.find(p, k)
                if ok:
                    p.emit("mapdel", self, k)
                    self.over.append((k, _DEL))
                    return v
                if d:
                    return d[0]
                raise PyRaise(Exc(KeyError, (k,)))
            return _model(pop)
        if name == "setdefault":
            def setdefault(k, d=None):
                ok, v = self.find(p, k)
                if ok:
                    return v
                self.set(p, k, d)
                return d
            return _model(setdefault)
        if name == "copy":
            return _model(self.copy)
        raise Unsupported(f"mapping.{name}")


_DEL = object()


def _model(f):
    f.__py_model__ = True
    return _Model(f)


class _Model:
    __py_model__ = True

    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **k):
        return self.f(*a, **k)


class _Builtin:
    """bound method of a concrete container"""
    PURE = {"index", "count", "startswith", "endswith", "join", "format", "isidentifier", "split", "strip", "rsplit", "lower", "upper", "replace", "partition", "rpartition", "removeprefix", "removesuffix"}

    def __init__(self, o, name):
        self.o, self.name = o, name

    def __eq__(self, x):
        return isinstance(x, _Builtin) and x.o is self.o and x.name == self.name

    def __hash__(self):
        return hash((id(self.o), self.name))

    def call(self, p, args, kwargs):
        o, n = self.o, self.name
        if isinstance(o, list):
            if n in ("append", "extend", "insert", "pop", "clear", "remove", "reverse", "sort"):
                p.emit("list." + n, o, *args)
            if n == "extend":
                a = args[0]
                if isinstance(a, tuple) and len(a) == 1 and isinstance(a[0], Spread):
                    o.append(a[0])
                    return None
                o.extend(p.iterate(a))
                return None
            if n == "pop" and not o:
                raise PyRaise(Exc(IndexError, ("pop",)))
            if n == "sort" or n == "remove" or n == "index":
                if not concrete(o):
                    raise Unsupported(f"list.{n} on symbolic items")
        if isinstance(o, dict):
            if args and isinstance(args[0], SI) and n in ("get", "pop", "setdefault"):
                k = p.which(o, args[0])
                if k is not NOTIMPL:
                    args = [k, *args[1:]]
                elif n == "get":
                    return args[1] if len(args) > 1 else None
                else:
                    raise Unsupported(f"dict.{n} with a symbolic key")
            if n in ("get", "pop", "setdefault", "__getitem__") and isinstance(args[0], SV):
                for kk in list(o):
                    if kk is args[0] or p.truthy(p.equal(args[0], kk), "key"):
                        if n == "pop":
                            p.emit("dict.pop", o, kk)
                            return o.pop(kk)
                        return o[kk]
                if n == "setdefault":
                    o[args[0]] = args[1]
                    return args[1]
                if n == "pop" and len(args) < 2:
                    raise PyRaise(Exc(KeyError, (args[0],)))
                return args[1] if len(args) > 1 else None
            if n in ("pop", "setdefault", "update", "clear", "popitem"):
                p.emit("dict." + n, o, *args)
            if n in ("get", "setdefault"):
                p.hashable(args[0])
                r = getattr(o, n)(*args, **kwargs)
                return p.shadow(r)
            if n == "values":
                return [p.shadow(x) for x in o.values()]
            if n == "items":
                return [(k, p.shadow(x)) for k, x in o.items()]
        if isinstance(o, set) and n in ("add", "discard", "remove", "update"):
            p.emit("set." + n, o, *args)
        if isinstance(o, str) and not concrete(args):
            return OStr()
        try:
            r = getattr(o, n)(*args, **kwargs)
            return p.own(r) if n == "copy" else r
        except (PathEnd, Violation, Unsupported, PyRaise, _Return):
            raise
        except Exception as e:
            raise PyRaise(Exc(type(e), e.args))


SYMBOLIC = (SV, SB, SI, Obj, OStr, Exc, Clo, BM, Coro, SymSeq, SymMap, Spread, GenCM)


def concrete(v, depth=0):
    if isinstance(v, SYMBOLIC):
        return False
    if depth > 4:
        return True
    if isinstance(v, (list, tuple, set, frozenset)):
        return all(concrete(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return all(concrete(x, depth + 1) for x in v.values()) and all(concrete(x, depth + 1) for x in v)
    return True


def zi(v):
    return v.z if isinstance(v, SI) else z3.IntVal(int(v))


def islock(o):
    import threading, asyncio
    return isinstance(o, (type(threading.Lock()), asyncio.Lock, type(threading.RLock())))


def _load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t


_YIELD = {}


def _has_yield(node):
    hit = _YIELD.get(id(node))
    if hit is None or hit[0] is not node:
        hit = _YIELD[id(node)] = (node, _has_yield_of(node))
    return hit[1]


def _has_yield_of(node):
    st = list(node.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


def _key(f):
    try:
        hash(f)
        return f
    except TypeError:
        return id(f)


# ----------------------------------------------------------------- models of builtins
def m_isinstance(p, args, kw):
    o, T = args
    if isinstance(T, tuple):
        return any(m_isinstance(p, [o, t], kw) for t in T)
    if isinstance(o, Exc):
        return p.exc_matches(o, T)
    if isinstance(o, Obj):
        if o.cls is None:
            raise Unsupported(f"isinstance of {o}")
        return issubclass(o.cls, T)
    if isinstance(o, SV):
        h = o.facts.get("isinstance")
        if h is not None:
            return h(p, T)
        raise Unsupported(f"isinstance of opaque {o} {T}")
    if isinstance(o, (OStr,)):
        return issubclass(str, T)
    if isinstance(o, SymSeq):
        return issubclass(o.kind, T)
    if isinstance(o, SymMap):
        import collections.abc
        return issubclass(dict, T)
    if isinstance(o, (Clo, BM)):
        return T in (types.FunctionType, types.MethodType) or T is object or getattr(T, "__name__", "") == "Callable"
    if isinstance(o, SB):
        return T in (bool, int, object)
    if isinstance(o, SI):
        return T in (int, object)
    return isinstance(o, T)


def m_getattr(p, args, kw):
    o, n, *d = args
    if isinstance(n, OStr):
        raise Unsupported("getattr with an opaque name")
    if not d:
        return p.getattr(o, n)
    try:
        return p.getattr(o, n, d[0])
    except PyRaise as r:
        if r.exc.cls is AttributeError:
            return d[0]
        raise


def m_hasattr(p, args, kw):
    o, n = args
    if isinstance(o, Obj) and n not in o.fields:
        if o.cls is not None and hasattr(o.cls, n):
            a = inspect.getattr_static(o.cls, n)
            if not isinstance(a, types.MemberDescriptorType):
                return True
    try:
        p.getattr(o, n)
        return True
    except PyRaise as r:
        if r.exc.cls is AttributeError:
            return False
        raise


def m_setattr(p, args, kw):
    p.setattr(*args)


def m_callable(p, args, kw):
    o = args[0]
    if isinstance(o, SV):
        return o.on_call is not None or p.truthy(SB(z3.Bool(f"callable_{o.name}")))
    if isinstance(o, (Clo, BM, _Builtin, _Model)):
        return True
    if isinstance(o, Obj):
        return o.cls is not None and callable(getattr(o.cls, "__call__", None)) and "__call__" in dir(o.cls)
    return callable(o)


def m_len(p, args, kw):
    o = args[0]
    if isinstance(o, SymSeq):
        return SI(o.hi - o.lo)
    if isinstance(o, (SV, Obj, SymMap)):
        if isinstance(o, Obj) and o.cls is not None and hasattr(o.cls, "__len__"):
            return p.call(p.getattr(o, "__len__"), [], {})
        raise Unsupported(f"len of {o}")
    return len(o)


def m_next(p, args, kw):
    it, *d = args
    it = it if hasattr(it, "__next__") else None
    if isinstance(args[0], Obj):
        return p.call(p.getattr(args[0], "__next__"), [], {})
    if isinstance(args[0], SV):
        if args[0].on_attr is not None:
            return p.call(p.getattr(args[0], "__next__"), [], {})
    if it is None:
        raise Unsupported("next()")
    try:
        return next(it)
    except StopIteration:
        if d:
            return d[0]
        raise PyRaise(Exc(StopIteration, ()))


def m_any(p, args, kw):
    return any(p.truthy(x) for x in p.iterate(args[0]))


def m_all(p, args, kw):
    return all(p.truthy(x) for x in p.iterate(args[0]))


def lex(a, b, strict):
    """a > b (or >=) on integers or tuples of them, as z3 term"""
    if not isinstance(a, tuple) and not isinstance(b, tuple):
        return zi(a) > zi(b) if strict else zi(a) >= zi(b)
    if not (isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b)):
        raise Unsupported("ordering of tuples of different shape")
    r = z3.BoolVal(not strict)
    for x, y in reversed(list(zip(a, b))):
        if not all(isinstance(v, (int, SI)) for v in (x, y)):
            raise Unsupported("ordering of opaque tuples")
        r = z3.Or(zi(x) > zi(y), z3.And(zi(x) == zi(y), r))
    return r


def m_minmax(f):
    def m(p, args, kw):
        key = kw.get("key")
        xs = list(p.iterate(args[0])) if len(args) == 1 else list(args)
        if not xs and "default" in kw:
            return kw["default"]
        ks = [p.call(key, [x], {}) if key is not None else x for x in xs]
        if any(isinstance(k, SI) or isinstance(k, tuple) and any(isinstance(y, SI) for y in k) for k in ks):
            best, bk = xs[0], ks[0]
            for x, k in zip(xs[1:], ks[1:]):
                if p.branch(lex(k, bk, strict=True) if f is max else lex(bk, k, strict=True), "max"):
                    best, bk = x, k
            return best
        if not concrete(ks):
            raise Unsupported("max of opaque values")
        if not xs:
            raise PyRaise(Exc(ValueError, ()))
        return xs[ks.index(f(ks))]
    return m


def m_sorted(p, args, kw):
    xs = list(p.iterate(args[0]))
    key = kw.get("key")
    ks = [p.call(key, [x], {}) if key is not None else x for x in xs]
    if not concrete(ks):
        raise Unsupported("sorted on symbolic keys")
    idx = sorted(range(len(xs)), key=lambda i: ks[i], reverse=kw.get("reverse", False))
    return p.own([xs[i] for i in idx])


def m_sum(p, args, kw):
    r = args[1] if len(args) > 1 else 0
    for x in p.iterate(args[0]):
        r = p.binop(ast.Add(), r, x)
    return r


def m_iter(p, args, kw):
    return iter(p.iterate(args[0]))


def m_cast(p, args, kw):
    return args[1]


def m_id(p, args, kw):
    o = args[0]
    if isinstance(o, SV):
        return ("id", o)
    if concrete(o):
        return id(o)
    return ("id", id(o))


def m_repr(p, args, kw):
    return repr(args[0]) if concrete(args[0]) else OStr()


def m_isawaitable(p, args, kw):
    o = args[0]
    if isinstance(o, Coro):
        return True
    if isinstance(o, SV):
        return o.awaited is not None if o.tag != "maybe_awaitable" else p.truthy(SB(z3.Bool(f"awaitable_{o.name}")))
    if isinstance(o, Obj):
        return "__await__" in o.fields
    return inspect.isawaitable(o)


def m_issubclass(p, args, kw):
    if concrete(args):
        return p.real(issubclass, args, {})
    raise Unsupported("issubclass of opaque value")


def m_noop(p, args, kw):
    return None


def m_anext(p, args, kw):
    return p.call(p.getattr(args[0], "__anext__"), [], {})


def m_vars(p, args, kw):
    raise Unsupported("vars")


import typing as _t
MODELS = {isinstance: m_isinstance, getattr: m_getattr, hasattr: m_hasattr, setattr: m_setattr, callable: m_callable,
          len: m_len, next: m_next, any: m_any, all: m_all, max: m_minmax(max), min: m_minmax(min), sorted: m_sorted,
          sum: m_sum, iter: m_iter, _t.cast: m_cast, id: m_id, repr: m_repr, inspect.isawaitable: m_isawaitable,
          issubclass: m_issubclass, anext: m_anext, vars: m_vars}


class Engine:
    def __init__(self, repo=os.environ.get("VF_SRC", "/repo/src"), timeout_ms=4000, unroll=40):
        self.repo, self.timeout_ms, self.unroll = repo, timeout_ms, unroll
        self.queries = 0
        self.solver_s = 0.0
        self.functions = set()
        self.obligations = {}      # name -> discharged instances
        self.paths = 0
        self._cur = None

    def obl(self, name):
        self._cur[name] = self._cur.get(name, 0) + 1

    def explore(self, setup, maxpaths=None, deadline=None):
        """setup(path) runs one path and raises Violation/Unsupported; returns Result"""
        maxpaths = maxpaths or MAXPATHS
        stack = [[]]
        n = completed = 0
        self._cur = {}
        bad, first = {}, None
        while stack:
            prefix = stack.pop()
            n += 1
            if n > maxpaths or deadline and time.time() > deadline:
                first = first or ("undecided", f"more than {maxpaths} paths" if n > maxpaths else "time limit", None)
                break
            p = Path(self, prefix)
            try:
                setup(p)
                completed += 1
            except PathEnd:
                pass
            except Violation as v:
                bad.setdefault(v.name, (v.msg, p))
            except Unsupported as u:
                first = first or ("undecided", f"unsupported: {u}", p)
            except src.NoSource as u:
                first = first or ("undecided", f"no source: {u}", p)
            except PyRaise as r:
                first = first or ("undecided", f"uncaught {r.exc!r} {getattr(r.exc, 'args', '')} in the contract driver", p)
            except Exception as u:
                first = first or ("undecided", f"{type(u).__name__}: {u}", p)
            for i in range(len(prefix), len(p.trace)):
                c = p.trace[i]
                for alt in range(c[1] + 1, c[0]):
                    stack.append([t[1] for t in p.trace[:i]] + [alt])
        self.paths += n
        if bad:
            k = next(iter(bad))
            r = Result("violated", f"{k}: {bad[k][0]}", n, self._cur, bad[k][1], k)
        elif first:
            r = Result(first[0], first[1], n, self._cur, first[2])
        elif not completed:
            r = Result("undecided", "vacuous: no path completed", n, self._cur)
        elif not self._cur:
            r = Result("undecided", "no obligation generated", n, self._cur)
        else:
            r = Result("proved", "", n, self._cur)
        r.bad = bad
        return r


class Result:
    def __init__(self, status, reason, paths, obls, path=None, failed=None):
        self.status, self.reason, self.paths, self.obls = status, reason, paths, dict(obls)
        self.path, self.failed = path, failed

    def __repr__(self):
        return f"{self.status} paths={self.paths} obligations={sum(self.obls.values())} {self.reason}"
