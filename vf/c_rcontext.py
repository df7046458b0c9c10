"""Contracts of resolver_context: binding stack, precedence, injected wrappers' resolver selection.

State   : the context variable holding the bound resolver and the one holding the reset tokens, related by
  Inv(n): tokens = t_1..t_n (n arbitrary), t_i unused, t_i restores what was bound before the i-th entry
enter   : ensures Inv(n+1), bound = the entered resolver, its token restores the previous binding; a failing entry changes nothing
exit    : requires Inv(n), n >= 1; ensures Inv(n-1), bound = what t_n restores, also when closing raises; the resolver is closed once,
          with the arguments given
use     : the bound resolver if any, else the most recently configured container's, else DIWireResolverNotSetError
inject  : explicit diwire_resolver first, then the bound resolver, then the configured container (if it uses the context)"""
from __future__ import annotations
import ast, contextvars, inspect
import z3
from .sym import Engine, SymSeq, SV, Obj, Exc, Coro, PyRaise, Unsupported, BM, NOTIMPL, Clo, _model, _NOPE
from diwire import exceptions as X, Scope, DependencyRegistrationPolicy, Injected
import diwire._internal.resolver_context as rc

ASSUMPTIONS = ["contextvars.ContextVar: get/set/reset/copy semantics of CPython (a context copies bindings at task creation, a thread starts empty)"]
TARGETS = ["enter", "exit", "enter-scope", "delegate", "use", "inject", "fallback"]


def strict(name):
    def lazy(p, o, n):
        raise Unsupported(f"attribute {n} of {name}")
    return lazy


class CV(Obj):
    """contextvars.ContextVar with a ghost value"""

    def __init__(self, p, default):
        super().__init__(None, "ContextVar", lazy=strict("ContextVar"))
        self.value, self.default = default, default

        def get(*d):
            return self.value

        def set_(v):
            t = Obj(None, "Token", {"__var__": self, "__old__": self.value, "__used__": False}, strict("Token"))
            self.value = v
            return t

        def reset(t):
            if not isinstance(t, Obj) or t.fields.get("__var__") is not self or t.fields["__used__"]:
                raise PyRaise(Exc(RuntimeError, ("token",)))
            t.fields["__used__"] = True
            self.value = t.fields["__old__"]
        self.fields.update(get=_model(get), set=_model(set_), reset=_model(reset))


class State:
    """a ResolverContext in an arbitrary state satisfying Inv(n)"""

    def __init__(self, p, least=0, bound=None):
        vs = []

        def mk(p, args, kw):
            v = CV(p, kw.get("default", _NOPE))
            vs.append(v)
            return v
        p.opaque[id(contextvars.ContextVar)] = mk
        self.rc = p.call(rc.ResolverContext, [], {})
        cur = [v for v in vs if v.default is None]
        stk = [v for v in vs if v.default == ()]
        if len(cur) != 1 or len(stk) != 1:
            raise Unsupported("the binding is not represented by a current resolver and a tuple of tokens")
        self.cur, self.stk = cur[0], stk[0]
        self.n = z3.Int("n")
        p.assume(self.n >= least)
        self.toks = {}
        # what was bound below the innermost entry: None (nothing) or some resolver
        self.prev = None if p.choose(2, "something bound below") == 0 else Obj(None, "resolver bound below", lazy=strict("outer resolver"))

        def elem(p, i):
            k = str(z3.simplify(i))
            if k not in self.toks:
                old = self.prev if not p.sat(i != self.n - 1) else Obj(None, f"binding below token {k}", lazy=strict("outer resolver"))
                self.toks[k] = Obj(None, f"token {k}", {"__var__": self.cur, "__old__": old, "__used__": False}, strict("Token"))
            return self.toks[k]
        self.elem = elem
        self.stk.value = SymSeq(elem, z3.IntVal(0), self.n, tuple, "tokens")
        self.cur.value = bound

    def length(self):
        v = self.stk.value
        if isinstance(v, SymSeq):
            return v.hi - v.lo
        if isinstance(v, tuple):
            return z3.IntVal(len(v))
        raise Unsupported("token stack is not a tuple")

    def top(self, p):
        v = self.stk.value
        return v.getitem(p, -1) if isinstance(v, SymSeq) else v[-1]


class AnyResolver:
    """some object implementing the resolver protocol"""


def resolver(p, name="resolver", raises=True):
    o = Obj(AnyResolver, name, lazy=strict(name))
    o.calls = []

    def method(m, is_async=False, ret=None):
        def call(p, args, kw):
            def body():
                o.calls.append((m, tuple(args), dict(kw)))
                if raises and p.choose(2, f"{name}.{m} raises") == 1:
                    e = p.exc(m)
                    o.raised = e
                    raise PyRaise(e)
                o.result = ret() if ret else p.fresh(m)
                return o.result
            return Coro(body, m) if is_async else body()
        v = p.fresh(m)
        v.on_call = call
        return v
    o.raised, o.result = None, None
    for m, a in (("resolve", False), ("aresolve", True), ("enter_scope", False), ("__enter__", False), ("__exit__", False), ("__aenter__", True),
                 ("__aexit__", True), ("close", False), ("aclose", True)):
        o.fields[m] = method(m, a, (lambda: None) if "exit" in m or "close" in m else None)
    o.method = method
    return o


def outcome(p, f, is_async=False):
    try:
        r = f()
        if is_async:
            r = p.await_(r)
        return "ok", r
    except PyRaise as e:
        return "raise", e.exc


def go_enter(p):
    is_async = p.choose(2, "async") == 1
    s = State(p)
    was = s.cur.value = s.prev
    inner = resolver(p)
    w = p.call(BM(rc.ResolverContext._wrap_resolver, s.rc), [inner], {})
    k, r = outcome(p, lambda: p.call(p.getattr(w, "__aenter__" if is_async else "__enter__"), [], {}), is_async)
    p.must([c[0] for c in inner.calls] == ["__aenter__" if is_async else "__enter__"], "enter", f"entering calls {inner.calls} on the resolver")
    if k == "raise":
        p.must(r is inner.raised, "enter", f"entering raises {r!r}")
        p.must(s.cur.value is was, "enter", "a failed entry leaves a binding behind")
        p.must(s.length() == s.n, "enter", "a failed entry leaves a token behind")
        return
    p.must(r is w, "enter", f"entering returns {r!r}, not the bound resolver")
    p.must(s.cur.value is w, "enter", f"{s.cur.value!r} is bound after entering")
    p.must(s.length() == s.n + 1, "enter", "entering must push exactly one token")
    t = s.top(p)
    p.must(isinstance(t, Obj) and t.fields.get("__var__") is s.cur and not t.fields["__used__"] and t.fields["__old__"] is was, "enter",
           "the newest token must restore the previous binding")
    # what is below is untouched
    v = s.stk.value
    if isinstance(v, SymSeq) and p.sat(s.n > 0):
        i = z3.Int("i")
        p.assume(z3.And(i >= 0, i < s.n))
        p.must(v.elem(p, z3.simplify(v.lo + i)) is s.elem(p, i), "enter", "an older token moved")


def go_exit(p):
    is_async = p.choose(2, "async") == 1
    s = State(p, least=1)
    inner = resolver(p)
    w = p.call(BM(rc.ResolverContext._wrap_resolver, s.rc), [inner], {})
    s.cur.value = w
    top = s.elem(p, s.n - 1)
    a3 = [p.fresh("exc_type"), p.fresh("exc"), p.fresh("tb")] if p.choose(2, "with exception") else [None, None, None]
    m = "__aexit__" if is_async else "__exit__"
    k, r = outcome(p, lambda: p.call(p.getattr(w, m), list(a3), {}), is_async)
    p.must(len(inner.calls) == 1 and inner.calls[0][0] == m and len(inner.calls[0][1]) == 3 and all(x is y for x, y in zip(inner.calls[0][1], a3))
           and not inner.calls[0][2], "exit", f"leaving calls {inner.calls} on the resolver, expected {m}{tuple(a3)} once")
    if k == "raise":
        p.must(r is inner.raised, "exit", f"leaving raises {r!r}")
    else:
        p.must(inner.raised is None, "exit", "the error of a finaliser is lost")
        p.must(r is None or r is False, "exit", "leaving swallows the exception")
    p.must(s.cur.value is s.prev, "exit", f"{s.cur.value!r} is bound after leaving, {s.prev!r} was bound before")
    p.must(s.length() == s.n - 1, "exit", "leaving must drop exactly one token")
    p.must(top.fields["__used__"], "exit", "the token was not used")
    v = s.stk.value
    if isinstance(v, SymSeq) and p.sat(s.n > 1):
        i = z3.Int("i")
        p.assume(z3.And(i >= 0, i < s.n - 1))
        t = v.elem(p, z3.simplify(v.lo + i))
        p.must(t is s.elem(p, i) and not t.fields["__used__"], "exit", "an older token moved or was used")


def go_enter_scope(p):
    s = State(p)
    inner = resolver(p, raises=False)
    w = p.call(BM(rc.ResolverContext._wrap_resolver, s.rc), [inner], {})
    p.must(p.call(BM(rc.ResolverContext._wrap_resolver, s.rc), [w], {}) is w, "wrap", "wrapping a wrapper again creates a second one")
    sub = resolver(p, "scoped", raises=False)
    same = p.choose(2, "same scope") == 1
    inner.fields["enter_scope"] = inner.method("enter_scope", ret=lambda: inner if same else sub)
    args, kw = [], {}
    sc = p.fresh("scope") if p.choose(2, "scope given") else None
    ctx = p.fresh("context") if p.choose(2, "context given") else None
    if sc is not None:
        args = [sc]
    if ctx is not None:
        kw = {"context": ctx}
    r = p.call(p.getattr(w, "enter_scope"), args, kw)
    p.must(len(inner.calls) == 1, "enter-scope", "the resolver is asked once")
    _, a, k = inner.calls[0]
    a = list(a) + ([k["scope"]] if "scope" in k else [])
    p.must((a[0] if a else None) is sc and k.get("context") is ctx, "enter-scope", f"scope and context must be passed on, got {inner.calls[0]}")
    p.must(s.cur.value is None and not p.sat(s.length() != s.n), "enter-scope", "opening a scope object must not bind it")
    if same:
        p.must(r is w, "enter-scope", "the same resolver must stay the same wrapper")
        return
    p.must(isinstance(r, Obj) and r is not w, "enter-scope", "a new scope needs its own wrapper")
    e = p.call(p.getattr(r, "__enter__"), [], {})
    p.must(e is r and s.cur.value is r and [c[0] for c in sub.calls] == ["__enter__"] and len(inner.calls) == 1, "enter-scope",
           "entering the new scope must bind it in the same resolver context")
    x = p.fresh("key")
    v = p.call(p.getattr(r, "resolve"), [x], {})
    p.must(sub.calls[-1] == ("resolve", (x,), {}) and v is sub.result, "enter-scope", "the new scope's wrapper must resolve in the new scope")


def go_delegate(p):
    s = State(p)
    inner = resolver(p)
    w = p.call(BM(rc.ResolverContext._wrap_resolver, s.rc), [inner], {})
    m = ["resolve", "aresolve", "close", "aclose"][p.choose(4, "method")]
    args = [p.fresh("key")] if "resolve" in m else [p.fresh("a"), p.fresh("b"), p.fresh("c")] if p.choose(2, "args") else [None] * 3
    k, r = outcome(p, lambda: p.call(p.getattr(w, m), list(args), {}), m[0] == "a")
    p.must(len(inner.calls) == 1 and inner.calls[0][0] == m and list(inner.calls[0][1]) == args and not inner.calls[0][2], "delegate",
           f"{m}{args} must reach the resolver once, got {inner.calls}")
    if k == "ok":
        p.must(inner.raised is None and r is inner.result, "delegate", "the result must be passed through")
    else:
        p.must(r is inner.raised, "delegate", "the error must be passed through")
    p.must(s.cur.value is None and not p.sat(s.length() != s.n), "delegate", "no binding may change")


class Cont(Obj):
    def __init__(self, p, name="container", uses=True):
        super().__init__(None, name, lazy=strict(name))
        self.root = resolver(p, name + " root")
        self.compiles = 0

        def compile_():
            self.compiles += 1
            return self.root
        self.fields.update(compile=_model(compile_), _use_resolver_context=uses)


def go_use(p):
    """resolver_context.resolve/aresolve/enter_scope"""
    s = State(p)
    bound = resolver(p, "bound") if p.choose(2, "bound") else None
    s.cur.value = bound
    nf = p.choose(3, "containers configured")
    cs = [Cont(p, f"container {i}") for i in range(nf)]
    for c in cs:
        p.call(p.getattr(s.rc, "set_fallback_container"), [c], {})
    m = ["resolve", "aresolve", "enter_scope"][p.choose(3, "method")]
    args, kw = [p.fresh("key")], {}
    if m == "enter_scope":
        kw = {"context": p.fresh("context")}
    k, r = outcome(p, lambda: p.call(p.getattr(s.rc, m), list(args), dict(kw)), m == "aresolve")
    want = bound if bound is not None else cs[-1].root if cs else None
    others = [x for x in [bound] + [c.root for c in cs] if x is not None and x is not want]
    p.must(all(not x.calls for x in others), "precedence", "another resolver than the one in charge was used")
    if want is None:
        p.must(k == "raise" and r.cls is not None and issubclass(r.cls, X.DIWireResolverNotSetError), "precedence", f"with nothing available: {k} {r!r}")
        return
    p.must(len(want.calls) == 1 and want.calls[0][0] == m and want.calls[0][1][0] is args[0], "precedence", f"{m} must reach {want} once: {want.calls}")
    if kw:
        p.must(want.calls[0][2].get("context") is kw["context"], "precedence", "the context must be passed on")
    if k == "raise":
        p.must(r is want.raised, "precedence", f"raises {r!r}")
    elif m != "enter_scope" or bound is not None:
        p.must(r is want.result, "precedence", "the result must be passed through")
    else:
        # a scope opened through the configured container binds itself in this context when entered
        p.must(want.raised is None, "precedence", "an error was lost")
    p.must(s.cur.value is bound, "precedence", "a call must not change the binding")


def go_fallback_scope(p):
    s = State(p)
    c = Cont(p)
    p.call(p.getattr(s.rc, "set_fallback_container"), [c], {})
    sub = resolver(p, "scope of the container", raises=False)
    c.root.fields["enter_scope"] = c.root.method("enter_scope", ret=lambda: sub)
    k, r = outcome(p, lambda: p.call(p.getattr(s.rc, "enter_scope"), [p.fresh("scope")], {}))
    if k == "raise":
        return
    p.call(p.getattr(r, "__enter__"), [], {})
    p.must(s.cur.value is r and sub.calls == [("__enter__", (), {})], "fallback", "a scope opened through resolver_context must bind itself when entered")
    x = p.fresh("key")
    v = p.call(p.getattr(s.rc, "resolve"), [x], {})
    p.must(sub.calls[-1] == ("resolve", (x,), {}) and v is sub.result and all(q[0] == "enter_scope" for q in c.root.calls), "fallback",
           "inside the scope, resolver_context must use it")


class Dep:
    pass


def sync_fn(a, b, d: Injected[Dep] = None):
    raise AssertionError


async def async_fn(a, b, d: Injected[Dep] = None):
    raise AssertionError


def go_inject(p):
    s = State(p)
    is_async = p.choose(2, "async function") == 1
    fn = async_fn if is_async else sync_fn
    early = p.choose(2, "container configured before decoration") == 1
    uses = p.choose(2, "container uses the resolver context") == 1
    made = []

    def container(name, uses=True):
        c = Cont(p, name, uses)
        c.log = []

        def inj(**kw):
            def call(p, args, kws):
                def body():
                    c.log.append((tuple(args), dict(kws)))
                    if p.choose(2, "function raises") == 1:
                        c.raised = p.exc("function")
                        raise PyRaise(c.raised)
                    c.result = p.fresh("result")
                    return c.result
                return Coro(body, "injected") if is_async else body()
            made.append((c, kw))
            v = p.fresh("injected", (None,))
            v.on_call = call
            return v
        c.raised = c.result = None
        c.fields["_inject_callable"] = _model(inj)
        return c
    have = p.choose(2, "container available") == 1
    c1 = container("container", uses)
    if have and early:
        p.call(p.getattr(s.rc, "set_fallback_container"), [c1], {})
    p.opaque[id(rc.InjectedCallableInspector.inspect_callable)] = lambda p, a, k: p.real(rc.InjectedCallableInspector().inspect_callable, list(a[1:]), dict(k))
    deco = p.choose(3, "decorator form")
    cfg = {}
    if deco == 2:
        cfg = dict(scope=Scope.REQUEST, dependency_registration_policy=DependencyRegistrationPolicy.IGNORE, auto_open_scope=False)
    try:
        w = p.call(p.getattr(s.rc, "inject"), [fn], {}) if deco == 0 else p.call(p.call(p.getattr(s.rc, "inject"), [], dict(cfg)), [fn], {})
    except PyRaise as e:
        p.must(False, "inject-decorate", f"decorating a function raises {e.exc!r} {e.exc.args}")
    if isinstance(w, Clo):
        p.must(isinstance(w.node, ast.AsyncFunctionDef) == is_async, "inject-decorate", "the wrapper must be async iff the function is")
        sig = w.fields.get("__signature__")
        p.must(isinstance(sig, inspect.Signature) and sig == rc.InjectedCallableInspector().inspect_callable(fn).public_signature, "inject-signature",
               f"public signature {sig}")
    want = dict(callable_obj=fn, scope=cfg.get("scope"), dependency_registration_policy=cfg.get("dependency_registration_policy"),
                auto_open_scope=cfg.get("auto_open_scope", True))
    if have and early:
        p.must(len(made) == 1, "inject-decorate", "the configured container must see the callable at decoration")
    if have and not early:
        p.call(p.getattr(s.rc, "set_fallback_container"), [c1], {})
    bound = resolver(p, "bound") if p.choose(2, "bound") else None
    s.cur.value = bound
    expl = resolver(p, "explicit") if p.choose(2, "explicit resolver") else None
    args, kw = [p.fresh("a")], {"b": p.fresh("b")}
    if p.choose(2, "diwire_context given"):
        kw["diwire_context"] = p.fresh("ctx")
    given = dict(kw)
    if expl is not None:
        kw["diwire_resolver"] = expl
    k, r = outcome(p, lambda: p.call(w, list(args), dict(kw)), is_async)
    ok = have and (expl is not None or bound is not None or uses)
    p.must(len(made) == (1 if have and (ok or early) else 0) and all(m[1] == want for m in made), "inject-decorate", f"the container is asked for {made}, expected {want}")
    if not ok:
        p.must(k == "raise" and r.cls is not None and issubclass(r.cls, X.DIWireResolverNotSetError) and not c1.log, "inject-precedence",
               f"with nothing available: {k} {r!r}")
        return
    p.must(len(c1.log) == 1, "inject-precedence", f"the injected callable of the container must run once: {c1.log}")
    a, q = c1.log[0]
    p.must(list(a) == args and {x: y for x, y in q.items() if x != "diwire_resolver"} == given, "inject-precedence", f"arguments {args} {given} became {a} {q}")
    want = expl if expl is not None else bound
    got = q.get("diwire_resolver")
    if want is not None:
        p.must(got is want, "inject-precedence", f"{got!r} is used, expected {want!r}")
    else:
        p.must(got is None or isinstance(got, Obj) and any(v is c1.root for v in got.fields.values()), "inject-precedence", f"{got!r} is used instead of the container's own resolver")
    if k == "ok":
        p.must(c1.raised is None and r is c1.result, "inject-result", "the result of the function must be passed through")
    else:
        p.must(r is c1.raised, "inject-result", f"raises {r!r}")
    p.must(s.cur.value is bound, "inject-precedence", "a call must not change the binding")
    # a container configured later takes over
    if deco == 0 and p.choose(2, "another container is configured") == 1:
        c2 = container("container 2")
        p.call(p.getattr(s.rc, "set_fallback_container"), [c2], {})
        n = len(c1.log)
        outcome(p, lambda: p.call(w, list(args), {"b": kw["b"]}), is_async)
        p.must(len(c2.log) == 1 and len(c1.log) == n, "inject-precedence", "the most recently configured container must be used")


GO = {"enter": go_enter, "exit": go_exit, "enter-scope": go_enter_scope, "delegate": go_delegate, "use": go_use, "inject": go_inject, "fallback": go_fallback_scope}


def units(tier, seed, opts):
    return TARGETS


def run(target, deadline, col):
    eng = Engine()
    r = eng.explore(GO[target], deadline=deadline)
    col.result(target, r)
    col.engine(eng)
