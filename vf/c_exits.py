"""Contracts of the cleanup drains: __exit__/__aexit__ of emitted resolvers (with and without cleanup) and of open-generic resolvers.

requires  _cleanup_callbacks is any sequence of (kind, callback), the implicitly opened scopes are any sequence; callbacks do anything
ensures   each-once : every callback and every implicitly opened scope is processed exactly once, last opened first, callbacks first
          args      : they receive the exception that is leaving the scope
          error     : raises iff the scope was closed without an exception and a finaliser failed; what is raised is the first error
          sync      : synchronous closing of an async resource does not run it and counts as a failed finaliser"""
from __future__ import annotations
import asyncio, itertools
import z3
from . import src
from .sym import Engine, SymSeq, SV, Obj, Exc, Coro, PyRaise, Unsupported, SVTB, SI, BM, NOTIMPL
from .ind import Ghost, houdini, POISON
from diwire import exceptions as X, Container, Scope, Lifetime, LockMode
from diwire import MissingPolicy, DependencyRegistrationPolicy

ASSUMPTIONS = ["finalisers do not register further finalisers on the scope being closed (frame of user code in the drain loops)"]
TARGETS = ["emitted-cleanup", "emitted-plain", "open-generic", "og-drain"]


def classes():
    import diwire._internal.resolvers.assembly.compiler as comp
    src.hook_compile(comp)

    class A:
        pass

    def gen():
        yield A()
    out = {}
    for name, cleanup in (("emitted-cleanup", True), ("emitted-plain", False)):
        c = Container(missing_policy=MissingPolicy.ERROR, dependency_registration_policy=DependencyRegistrationPolicy.IGNORE, use_resolver_context=False)
        if cleanup:
            c.add_generator(gen, provides=A, scope=Scope.REQUEST, lifetime=Lifetime.SCOPED)
        else:
            c.add(A, scope=Scope.REQUEST, lifetime=Lifetime.SCOPED)
        root = c.compile()
        out[name] = type(root.enter_scope(Scope.REQUEST))
    return out


class Run:
    def __init__(self, target, is_async, bounded, nfix=None):
        self.target, self.is_async, self.bounded, self.nfix = target, is_async, bounded, nfix

    def seq(self, p, name, elem, nmax):
        if self.bounded:
            n = p.choose(nmax + 1, f"{name} count")
            return [elem(p, z3.IntVal(i)) for i in range(n)], n
        n = z3.Int(f"n_{name}")
        p.assume(n >= 0)
        return SymSeq(elem, z3.IntVal(0), n, list, name), n

    def note(self, p, name, i):
        p.ghost.calls.append((name, z3.simplify(i)))

    def fails(self, p, e):
        if p.ghost.first is None:
            p.ghost.first = e
        raise PyRaise(e)

    def elem_cb(self, name):
        def elem(p, i):
            k = SI(z3.Function("kind", z3.IntSort(), z3.IntSort())(i))
            p.assume(z3.Or(k.z == 0, k.z == 1))
            kind = 0 if p.branch(k.z == 0, f"{name}[{i}] is sync") else 1
            cb = p.fresh("finaliser")

            def body(p):
                self.note(p, name, i)
                if p.choose(2, f"{name} finaliser raises") == 1:
                    self.fails(p, p.exc("finaliser"))
                return p.fresh("ret")

            def call(p, args, kw):
                p.must(len(args) == 3 and not kw and all(a is b for a, b in zip(args, self.exc3)), "args", f"a finaliser receives {args}, expected {self.exc3}")
                if kind == 1:
                    p.must(self.is_async, "sync", "an async finaliser is called while closing synchronously")
                    return Coro(lambda: body(p), "async finaliser")
                return body(p)
            cb.on_call = call
            if kind == 1 and not self.is_async:
                self.refused.append((name, z3.simplify(i)))
            self.popped.append((name, z3.simplify(i), kind))
            return (kind, cb)
        return elem

    def elem_scope(self, name):
        def elem(p, i):
            o = Obj(None, "owned scope")

            def body(p):
                self.note(p, name, i)
                # scopes of a graph without any finaliser hold no resources: their exits are this same plain exit, which never raises
                if self.target != "emitted-plain" and p.choose(2, "closing an owned scope raises") == 1:
                    self.fails(p, p.exc("owned scope"))

            def ex(p, args, kw):
                p.must(len(args) == 3 and not kw and all(a is b for a, b in zip(args, self.exc3)), "args", f"an owned scope receives {args}")
                return body(p)

            def aex(p, args, kw):
                p.must(len(args) == 3 and not kw and all(a is b for a, b in zip(args, self.exc3)), "args", f"an owned scope receives {args}")
                p.must(self.is_async, "sync", "__aexit__ of an owned scope while closing synchronously")
                return Coro(lambda: body(p), "__aexit__")
            for n, f in (("__exit__", ex), ("__aexit__", aex)):
                v = p.fresh(n)
                v.on_call = f
                o.fields[n] = v
            o.lazy = lambda p, o, n: (_ for _ in ()).throw(Unsupported(f"attribute {n} of an owned scope"))
            return o
        return elem

    def refusal(self, p, f, args, kw):
        """creation of the error for a refused async finaliser is a processing step"""
        return NOTIMPL

    def go(self, p):
        p.ghost = None
        has_exc = p.choose(2, "closed with an exception") == 1
        p.ghost = g = Ghost(not has_exc)
        g.may_fail = self.target != "emitted-plain"
        self.refused, self.popped = [], []
        tb = p.fresh("tb")
        if has_exc:
            et, ev = p.fresh("exc_type", (None,)), p.fresh("exc_value", (None,))
            self.exc3 = (et, ev, tb)
        else:
            self.exc3 = (None, None, None)
        p.raise_hook = lambda e: self.raised(p, e)
        name = f"{self.target} {'async' if self.is_async else 'sync'}"
        want = []
        if self.target == "og-drain":
            import diwire._internal.open_generics as og
            cbs, n = self.seq(p, "callbacks", self.elem_cb("callbacks"), 3)
            want = [("callbacks", n)]
            f = og._execute_async_cleanup_callbacks if self.is_async else og._execute_sync_cleanup_callbacks
            call = lambda: p.call(f, [], dict(callbacks=cbs, exc_type=self.exc3[0], exc_value=self.exc3[1], traceback=self.exc3[2]))
            o = None
        elif self.target == "open-generic":
            import diwire._internal.open_generics as og
            # the drain is inlined here on bounded sequences; its own contract covers any length
            cbs, n = self.seq(p, "callbacks", self.elem_cb("callbacks"), 2)
            owned, m = self.seq(p, "owned", self.elem_scope("owned"), 2)
            base = self.elem_scope("base")(p, z3.IntVal(0))
            shares = p.choose(2, "shares the base resolver") == 1
            o = Obj(og.OpenGenericResolver, "wrapper")
            o.fields.update(_base_resolver=base, _owned_scope_wrappers=tuple(owned), _cleanup_enabled=True)
            if shares:
                o.fields["_cleanup_callbacks"] = cbs
                want = [("base", 1), ("callbacks", n), ("owned", m)]
            else:
                # its resources sit on the base resolver's own list
                o.fields["_cleanup_callbacks"] = []
                base.fields["_cleanup_callbacks"] = []
                if n:
                    return
                want = [("base", 1), ("owned", m)]
            p.contracts.append(lambda p, f, a, k: shares if getattr(f, "__name__", "") == "_shares_base_resolver" else NOTIMPL)
            call = lambda: p.call(BM(getattr(og.OpenGenericResolver, "__aexit__" if self.is_async else "__exit__"), o), list(self.exc3), {})
        else:
            cls = self.classes[self.target]
            o = Obj(cls, "scope")
            owned, m = self.seq(p, "owned", self.elem_scope("owned"), 2 if self.target != "emitted-plain" else 3)
            o.fields["_owned_scope_resolvers"] = tuple(owned) if isinstance(owned, list) else owned
            o.fields["_active"] = True
            want = [("owned", m)]
            if self.target == "emitted-cleanup":
                cbs, n = self.seq(p, "callbacks", self.elem_cb("callbacks"), 3 if isinstance(m, int) and not m else 2)
                o.fields["_cleanup_callbacks"] = cbs
                want = [("callbacks", n), ("owned", m)]
            call = lambda: p.call(BM(cls.__dict__["__aexit__" if self.is_async else "__exit__"], o), list(self.exc3), {})
        exc = res = None
        try:
            res = call()
            if self.is_async:
                res = p.await_(res)
        except PyRaise as e:
            exc = e.exc
        if self.bounded:
            exp = [(nm, i) for nm, k in want for i in reversed(range(k))]
            got = [(nm, i.as_long()) for nm, i in g.calls]
            ref = [(nm, i.as_long()) for nm, i in self.refused]
            got2 = [x for x in exp if x in got or x in ref]
            p.must(got2 == exp and [x for x in exp if x not in ref] == got, "each-once", f"{name}: processed {got} (refused {ref}), expected {exp}")
        else:
            p.must([x[0] for x in want] == g.done or all(x in g.done for x in [w[0] for w in want] if not self.empty(p, x, want)) and
                   g.done == [w[0] for w in want if w[0] in g.done], "each-once", f"{name}: drained {g.done}, expected {[w[0] for w in want]}")
        if has_exc:
            p.must(exc is None, "error", f"{name}: raises {exc!r} although an exception is already leaving the scope")
            p.must(res is None or res is False, "error", f"{name}: the exception leaving the scope is swallowed")
        else:
            p.must(exc is g.first, "error", f"{name}: raises {exc!r}, the first finaliser error is {g.first!r}")
        if isinstance(o, Obj) and o.fields.get("_cleanup_callbacks") is not None and self.bounded and self.target != "open-generic":
            p.must(o.fields["_cleanup_callbacks"] == [], "each-once", f"{name}: callbacks stay on the list after closing")

    def empty(self, p, nm, want):
        k = dict(want)[nm]
        return not p.sat(k > 0) if not isinstance(k, int) else k == 0

    def raised(self, p, e):
        """an exception object created inside the drain: the refusal of an async finaliser"""
        if e.cls is not None and issubclass(e.cls, X.DIWireAsyncDependencyInSyncContextError) and not self.is_async:
            pend = [(n, i) for n, i, k in self.popped if k == 1 and not any(c[0] == n and z3.eq(c[1], i) for c in p.ghost.calls)]
            if pend:
                if not self.bounded:
                    p.ghost.calls.append(pend[-1])
                if p.ghost.first is None:
                    p.ghost.first = e


def units(tier, seed, opts):
    return [(t, a) for t in TARGETS for a in (False, True)]


def run(params, deadline, col):
    target, is_async = params
    eng = Engine()
    cls = classes()
    if not isinstance(cls.get(target, type), type):
        return
    label = f"{target} {'aexit' if is_async else 'exit'}"

    def make_bounded():
        def setup(p):
            r = Run(target, is_async, True)
            r.classes = cls
            r.go(p)
        return setup
    r = eng.explore(make_bounded(), deadline=deadline)
    col.result(label + " (lists of up to three finalisers)", r, lambda: replay(target, is_async))
    if r.status == "proved" and target != "open-generic":
        def make(h):
            def setup(p):
                q = Run(target, is_async, False)
                q.classes = cls
                p.loop_handler = h
                q.go(p)
            return setup
        r2 = houdini(eng, make, deadline=deadline)
        if r2.status == "violated":
            # holds on all lists up to the bound, not inductive in general: undecided, not a violation
            r2.status, r2.reason, r2.bad = "undecided", "not inductive: " + r2.reason, {}
        col.result(label + " (any number)", r2)
    col.engine(eng)


# ------------------------------------------------------------------ concrete replay on the real code
def replay(target, is_async):
    """all lists of up to three finalisers / two owned scopes with every pattern of failures"""
    import diwire._internal.open_generics as og
    cls = classes()

    class Err(Exception):
        pass
    for n, m in itertools.product(range(4), range(3)):
        for kinds in itertools.product((0, 1), repeat=n):
            for bad in itertools.product((0, 1), repeat=n + m):
                if target == "emitted-plain" and any(bad):
                    continue
                for exc in (None, Err("leaving")):
                    log, errs = [], []

                    def mk(i, kind):
                        def body(a):
                            log.append(("callbacks", i, a))
                            if bad[i]:
                                errs.append(Err(i))
                                raise errs[-1]
                        if kind:
                            async def f(*a):
                                body(a)
                        else:
                            def f(*a):
                                body(a)
                        return f

                    class Owned:
                        def __init__(self, i):
                            self.i = i

                        def __exit__(self, *a):
                            log.append(("owned", self.i, a))
                            if bad[n + self.i]:
                                errs.append(Err(self.i))
                                raise errs[-1]

                        async def __aexit__(self, *a):
                            self.__exit__(*a)
                    cbs = [(k, mk(i, k)) for i, k in enumerate(kinds)]
                    args = (type(exc), exc, None) if exc else (None, None, None)
                    if target == "og-drain":
                        if m:
                            continue
                        f = og._execute_async_cleanup_callbacks if is_async else og._execute_sync_cleanup_callbacks
                        thunk = lambda: f(callbacks=cbs, exc_type=args[0], exc_value=args[1], traceback=None)
                        order = ["callbacks"]
                    elif target == "open-generic":
                        return None
                    else:
                        c = cls[target]
                        o = object.__new__(c)
                        o._owned_scope_resolvers = tuple(Owned(i) for i in range(m))
                        o._active = True
                        if target == "emitted-cleanup":
                            o._cleanup_callbacks = cbs
                        elif n:
                            continue
                        thunk = lambda: (o.__aexit__ if is_async else o.__exit__)(*args)
                    got = None
                    try:
                        r = asyncio.run(_aw(thunk)) if is_async else thunk()
                    except BaseException as e:
                        got = e
                    exp = [("callbacks", i, args) for i in reversed(range(n)) if is_async or not kinds[i]] + [("owned", i, args) for i in reversed(range(m))]
                    msg = None
                    if log != exp:
                        msg = f"finalised {[x[:2] for x in log]}, expected {[x[:2] for x in exp]}"
                    elif exc is not None and got is not None:
                        msg = f"raises {got!r} over the exception that is leaving"
                    elif exc is None:
                        refused = [i for i in range(n) if kinds[i] and not is_async]
                        first = errs[0] if errs else None
                        if not refused and got is not first:
                            msg = f"raises {got!r}, the first finaliser error is {first!r}"
                        if refused and got is None:
                            msg = "an async finaliser was dropped silently"
                    if msg:
                        return dict(category="fin", message=f"{target}: {n} finalisers kinds {kinds}, {m} owned scopes, failing {bad}, leaving {exc!r}: {msg}", log=[str(x) for x in log])
    return None


async def _aw(t):
    return await t()
