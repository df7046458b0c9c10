"""Replays one path of a contract against the running code: the interface of sym.Path over real calls, with the opaque callees patched in."""
from __future__ import annotations
import asyncio, inspect
from .sym import Exc, PyRaise, Violation, Coro, Obj, NOTIMPL
from diwire import exceptions as X


class Skip(Exception):
    pass


class Value:
    """an opaque value; callable when the contract says so"""

    def __init__(self, p, name):
        self.p, self.name, self.on_call = p, name, None

    def __call__(self, *a, **k):
        if self.on_call is None:
            raise TypeError("not callable")
        return self.p.enter(lambda: self.on_call(self.p, list(a), k))

    def __repr__(self):
        return f"<{self.name}>"


def _field(self, n):
    f = self.__dict__.get("fields", {})
    if n in f:
        return f[n]
    lazy = self.__dict__.get("lazy")
    p = self.__dict__.get("native")
    if lazy is not None and p is not None and not n.startswith("__"):
        v = lazy(p, self, n)
        if v is not NOTIMPL:
            f[n] = v
            return v
    raise AttributeError(n)


class NativeObj(Obj):
    __getattr__ = _field

    def __enter__(self):
        return self.fields["__enter__"]()

    def __exit__(self, *a):
        return self.fields["__exit__"](*a)


class Native:
    def __init__(self, choices):
        self.todo = []
        self.known = {}
        for c in choices:
            label, n = c.rsplit("=", 1)
            head = label.split(" is ")
            if len(head) == 2 and head[1].endswith(("Error", "Exception", "Interrupt", "Exit")):
                self.known.setdefault(head[0], []).append((head[1], n == "0"))
            else:
                self.todo.append(int(n))
        self.undo, self.nfresh, self.excs, self.keep = [], 0, {}, []
        self.opaque, self.attr_hooks, self.contracts = {}, [], []

    def choose(self, n, label=""):
        return self.todo.pop(0) if self.todo and n > 1 else 0

    def obj(self, cls, name, fields=None, lazy=None):
        o = NativeObj(cls, name, fields, lazy)
        o.native = self
        return o

    def intercept(self, cls, name, h):
        orig = inspect.getattr_static(cls, name)

        def f(*a, **k):
            return self.enter(lambda: h(self, list(a), k))
        self.undo.append((cls, name, orig))
        setattr(cls, name, staticmethod(f) if isinstance(orig, staticmethod) else f)

    def recursive(self, cls, name, contract):
        orig, top = inspect.getattr_static(cls, name), []

        def f(*a, **k):
            if not top:
                top.append(1)
                return orig(*a, **k)
            return self.enter(lambda: contract(self, list(a), k))
        self.undo.append((cls, name, orig))
        setattr(cls, name, f)

    def restore(self):
        for cls, n, o in reversed(self.undo):
            setattr(cls, n, o)

    def real(self, e):
        """the real exception behind an abstract one"""
        r = getattr(e, "real", None)
        if r is None:
            cls = e.cls
            if cls is None:
                cls = ValueError
                for n, yes in self.known.get(e.name, []):
                    t = getattr(X, n, None) or getattr(__import__("builtins"), n, None)
                    if yes and t is not None:
                        cls = X.DIWireInvalidRegistrationError if t is X.DIWireError else t
            try:
                r = cls(*e.args)
            except Exception:
                raise Skip()
            e.real = r
            self.excs[id(r)] = e
            self.keep.append((r, e))
            e.known.setdefault(X.DIWireError, isinstance(r, X.DIWireError))
        return r

    def enter(self, f):
        """contract code called from real code"""
        try:
            r = f()
        except PyRaise as x:
            raise self.real(x.exc) from None
        if isinstance(r, Coro):
            async def co():
                return self.enter(r.run)
            return co()
        return r

    def exc(self, name="user_exc"):
        self.nfresh += 1
        e = Exc(None, (), f"{name}!{self.nfresh}")
        self.real(e)
        return e

    def fresh(self, name, distinct_from=()):
        self.nfresh += 1
        v = Value(self, name)
        self.keep.append(v)
        return v

    def abstract(self, e):
        x = self.excs.get(id(e))
        if x is None:
            x = Exc(type(e), e.args)
            x.real = e
            self.excs[id(e)] = x
            self.keep.append((e, x))
        return x

    def getattr(self, o, n, *d):
        try:
            return getattr(o, n, *d)
        except AttributeError as e:
            raise PyRaise(self.abstract(e))

    def setattr(self, o, n, v):
        setattr(o, n, v)

    def shadow(self, v):
        return v

    def call(self, f, a, k):
        try:
            return f(*a, **k)
        except (Skip, Violation):
            raise
        except BaseException as e:
            raise PyRaise(self.abstract(e))

    def await_(self, v):
        try:
            return asyncio.run(_await(v))
        except (Skip, Violation):
            raise
        except BaseException as e:
            raise PyRaise(self.abstract(e))

    def must(self, c, name, msg):
        if not c:
            raise Violation(name, msg)


async def _await(v):
    return await v


def replay(go, r, log):
    """go(p) runs the contract; r is the result whose violated paths are replayed; the first that fails on the running code is returned"""
    for _, (msg, path) in getattr(r, "bad", {}).items():
        if not path:
            continue
        ch = [str(x) for x in path.choices]
        p = Native(ch)
        try:
            go(p)
        except Violation as v:
            return dict(category=v.name, message=v.msg[:600], log=[*log, *ch])
        except Exception:
            pass
        finally:
            p.restore()
    return None
