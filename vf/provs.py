"""Reading providers (C09, C06, C13, C14): every way of writing a provider - classes with their own, inherited, generated or metaclass constructors, plain
functions, methods, callable objects, partials, wrapped functions, sync and async, generators and context managers, with and without postponed annotations -
must receive each declared dependency at the parameter that declares it, whatever else is annotated with the same name elsewhere, be recognised as
asynchronous when it is, and be registered under the declared type. Bounded stand-in (sampled from a seed); the provider's source text is generated."""
from __future__ import annotations
import asyncio, inspect, random, sys, types
from .lab import Diverge, X, Container, Component, Maybe, Provider, AsyncProvider, Injected, Lifetime, Scope, MissingPolicy, DependencyRegistrationPolicy, ResolverContext, pick

PBASE = dict(modes=[("class", 6), ("factory", 5), ("generator", 3), ("cm", 3), ("cmobj", 3), ("inject", 3), ("closed", 2), ("invalid", 2)])
N = 6
PRE = """import functools, inspect
from contextlib import contextmanager, asynccontextmanager, AbstractContextManager, AbstractAsyncContextManager
from dataclasses import dataclass, field, KW_ONLY
from collections.abc import Generator, AsyncGenerator, Awaitable, Coroutine
from typing import Annotated, Any, Generic, NamedTuple, TypeVar, Self
from diwire import Component, Maybe, Provider, AsyncProvider, Injected
TV = TypeVar("TV")
U = TypeVar("U")
got = []
def deco(f):
    @functools.wraps(f)
    def w(*a, **k): return f(*a, **k)
    return w
def adeco(f):
    @functools.wraps(f)
    async def w(*a, **k): return await f(*a, **k)
    return w
class K:
    pass
class Missing:
    pass
""" + "".join(f"class T{i}:\n    pass\n" for i in range(N))


class Par:
    def __init__(self, name, kind, form, i):
        self.name, self.kind, self.form, self.i = name, kind, form, i

    @property
    def ann(self):
        t = f"T{self.i}"
        return dict(plain=t, comp=f"Annotated[{t}, Component('c')]", noise=f"Annotated[{t}, 'noise']", maybe="Maybe[Missing]", prov=f"Provider[{t}]", maybep=f"Maybe[{t}]",
                    bare=None, typ="type[TV]", val="TV", supplied="int", inj=f"Injected[{t}]", injc=f"Annotated[Injected[{t}], Component('c')]")[self.form]

    @property
    def ann_in_other(self):
        return self.ann and self.ann.replace(f"T{self.i}", f"T{(self.i + 1) % N}")

    @property
    def default(self):
        return "'dflt'" if self.form in ("maybe", "bare") else None


def sig(ps, first=None, var=""):
    """var: undeclared *args and/or **kwargs, which receive nothing"""
    if var == "*" and any(p.kind == "KO" for p in ps):
        i = next(j for j, p in enumerate(ps) if p.kind == "KO")
        return ", ".join(x for x in (sig(ps[:i], first), "*args", ", ".join(p.name + (f": {p.ann}" if p.ann else "") + (f" = {p.default}" if p.default else "") for p in ps[i:])) if x)
    if var:
        return ", ".join(x for x in (sig(ps, first), {"*": "*args", "**": "**kwargs"}[var]) if x)
    out = [first] if first else []
    po = [p for p in ps if p.kind == "PO"]
    star = False
    for j, p in enumerate(ps):
        if p.kind == "KO" and not star:
            out.append("*")
            star = True
        out.append(p.name + (f": {p.ann}" if p.ann else "") + (f" = {p.default}" if p.default else ""))
        if p.kind == "PO" and p is po[-1]:
            out.append("/")
    if po and po[-1].kind == "PO" and "/" not in out:
        out.append("/")
    return ", ".join(out)


def rec(ps, var=""):
    return "dict(" + ", ".join([f"{p.name}={p.name}" for p in ps] + {"*": ["args=args"], "**": ["kwargs=kwargs"]}.get(var, [])) + ")"


def gen_params(rng, forms, n=None, names=None):
    n = rng.choice((1, 2, 2, 3, 4)) if n is None else n
    names = rng.sample(names or ["a", "b", "c", "value", "config", "name", "data"], n)
    kinds = sorted((rng.choice(("PO", "PK", "PK", "PK", "KO")) for _ in range(n)), key=["PO", "PK", "KO"].index)
    ps = [Par(nm, k, pick(rng, forms), rng.randrange(N)) for nm, k in zip(names, kinds)]
    # defaults last among the positional ones; nothing positional-only after an omitted one
    pos = [p for p in ps if p.kind != "KO"]
    for p in pos[:-1]:
        if p.default:
            p.form = "supplied" if any(f == "supplied" for f, _ in forms) else "plain"
    return ps


FORMS = [("plain", 8), ("comp", 2), ("noise", 1), ("maybe", 1.5), ("maybep", 1), ("prov", 1), ("bare", 1)]


def decoys(rng, ps, p=.5):
    """annotations of the same names that belong to something else"""
    return [(q.name, f"T{rng.choice([i for i in range(N) if i != q.i])}") for q in ps if rng.random() < p]


class _Other:
    """the parameter as the other module writes it"""

    def __init__(self, p):
        self.name, self.kind, self.default, self.ann = p.name, p.kind, p.default, p.ann_in_other


class _decoy:
    """the same parameter with another annotation"""

    def __init__(self, p, rng):
        self.name, self.kind, self.default = p.name, p.kind, p.default
        self.ann = p.ann and f"T{rng.choice([i for i in range(N) if i != p.i])}"


def _split(s):
    """the parameters of a signature text (brackets may hold commas)"""
    out, depth = [""], 0
    for ch in s:
        depth += ch in "[(" 
        depth -= ch in "])"
        if ch == "," and not depth:
            out.append("")
        else:
            out[-1] += ch
    return [x.strip() for x in out]


def body_lines(ls, ind=1):
    return "".join("    " * ind + l + "\n" for l in ls)


class Case:
    def __init__(self, seed, P):
        self.rng = random.Random(seed)
        self.P = P
        self.seed = seed
        self.log = []
        self.text = "from __future__ import annotations\n" if self.rng.random() < .5 else ""
        self.future = bool(self.text)
        self.modname = f"vf_provs_{seed}"
        self.other = self.rng.random() < .3          # types come from another module, which calls them by other names
        self.text_b = "from __future__ import annotations\n" + PRE
        self.text += PRE
        if self.other:
            self.text += f"from {self.modname}_b import K, Missing, got\n" + "".join(f"from {self.modname}_b import T{(i + 1) % N} as T{i}\n" for i in range(N))

    def load(self):
        for name, text in ([(self.modname + "_b", self.text_b)] if self.other else []) + [(self.modname, self.text)]:
            m = types.ModuleType(name)
            sys.modules[name] = m
            exec(compile(text, f"<{name}>", "exec", dont_inherit=True), m.__dict__)
        return m

    # ------------------------------------------------------------- classes
    def gen_class(self):
        rng = self.rng
        form = rng.choice(("init", "init", "inherit", "new", "newinit", "newbase", "meta", "dataclass", "dataclass_inherit", "namedtuple", "callclass"))
        ps = gen_params(rng, FORMS)
        t = ""
        if form in ("dataclass", "dataclass_inherit", "namedtuple"):
            for p in ps:
                p.kind = "PK"
                if p.form == "bare":
                    p.form = "plain"
            pos = ps
            for p in pos[:-1]:
                if p.default:
                    p.form = "plain"
            field = [f"{p.name}: {p.ann}" + (f" = {p.default}" if p.default else "") for p in ps]
            call = [f"def __call__(self, {', '.join(f'{n}: {x}' for n, x in decoys(rng, ps))}): pass"]
            if form == "namedtuple":
                t = "class P(NamedTuple):\n" + body_lines(field)
            elif form == "dataclass":
                t = f"@dataclass{rng.choice(('', '(frozen=True)', '(kw_only=True)', '(slots=True)'))}\nclass P:\n" + body_lines(field + call)
            else:
                k = rng.randrange(len(ps) + 1)
                if self.other and rng.random() < .7:
                    # the base class lives in a module where the same names mean other types
                    own = [f"{p.name}: {p.ann_in_other}" + (f" = {p.default}" if p.default else "") for p in ps]
                    self.text_b += "@dataclass\nclass Q:\n" + body_lines(own[:k] or ["pass"])
                    if rng.random() < .3:
                        k = len(ps) if not ps[k:] else k
                    t = "from " + self.modname + "_b import Q\n"
                else:
                    t = "@dataclass\nclass Q:\n" + body_lines(field[:k] or ["pass"])
                redo = [field[j] for j in range(k) if rng.random() < .3]         # declared again in the subclass
                t += "@dataclass\nclass P(Q):\n" + body_lines(redo + field[k:] or ["pass"])
                if rng.random() < .3:
                    t += "@dataclass\nclass P1(P):\n    pass\nP = P1\n"
            self.read = lambda o: {p.name: getattr(o, p.name) for p in ps}
        else:
            dec = decoys(rng, [p for p in ps if p.form != "bare"])       # a parameter without annotation takes the class's
            cls = [f"{n}: {x}" for n, x in dec] if rng.random() < .6 else []
            call = [f"def __call__(self, {', '.join(f'{n}: {x}' for n, x in decoys(rng, ps, .7))}): pass"] if rng.random() < .5 or form == "callclass" else []
            var = rng.choice(("", "", "", "*", "**"))
            init = [f"def __init__({sig(ps, 'self', var)}):", f"    self.got = {rec(ps, var)}"]
            if form in ("init", "callclass"):
                t = "class P:\n" + body_lines(cls + init + call)
            elif form == "inherit":
                if self.other and rng.random() < .7:
                    self.text_b += "class Q:\n" + body_lines([f"def __init__({sig([_Other(p) for p in ps], 'self', var)}):", f"    self.got = {rec(ps, var)}"])
                    t = "from " + self.modname + "_b import Q\n"
                else:
                    t = "class Q:\n" + body_lines(init)
                t += "class P(Q):\n" + body_lines(cls + call or ["pass"])
                if rng.random() < .4:
                    t += "class P0(P):\n    pass\nP = P0\n"
            elif form == "new":
                t = "class P:\n" + body_lines(cls + [f"def __new__({sig(ps, 'cls', var)}):", "    self = object.__new__(cls)", f"    self.got = {rec(ps, var)}", "    return self"] + call)
            elif form == "newinit":
                # both in one class: __new__ gives the signature
                ps2 = [_decoy(p, rng) for p in ps]
                t = "class P:\n" + body_lines(cls + [f"def __new__({sig(ps, 'cls', var)}):", "    self = object.__new__(cls)", f"    self.got = {rec(ps, var)}", "    return self",
                                                   f"def __init__({sig(ps2, 'self', var)}): pass"] + call)
            elif form == "newbase":
                # the subclass's __init__ gives the signature
                ps2 = [_decoy(p, rng) for p in ps]
                t = "class Q:\n" + body_lines([f"def __new__({sig(ps2, 'cls', var)}): return object.__new__(cls)"]) + "class P(Q):\n" + body_lines(cls + init + call)
            elif form == "meta":
                t = f"class Meta(type):\n    def __call__({sig(ps, 'cls')}):\n        self = object.__new__(cls)\n        self.got = {rec(ps)}\n        return self\n"
                other = ", ".join(f"{n}: {x} = None" for n, x in decoys(rng, [p for p in ps if p.form != "bare"]))
                t += "class P(metaclass=Meta):\n" + body_lines(cls + [f"def __init__(self, {other}): pass"])
            self.read = lambda o: o.got
        self.text += t
        self.ps, self.form, self.is_async = ps, form, False

    def gen_closed(self):
        """a concrete class registered for a closed generic key: T and type[T] parameters receive the argument"""
        rng = self.rng
        ps = gen_params(rng, FORMS + [("typ", 5), ("val", 4)])
        self.text += "class P(Generic[TV]):\n" + body_lines([f"def __init__({sig(ps, 'self')}):", f"    self.got = {rec(ps)}"])
        self.ps, self.form, self.is_async = ps, "closed", False
        self.read = lambda o: o.got

    # ------------------------------------------------------------- callables
    def gen_callable(self, mode, forms=FORMS):
        rng = self.rng
        self.is_async = a = rng.random() < .45
        form = rng.choice(("function", "method", "static", "classm", "callobj", "callobj", "partial", "wraps"))
        if form == "partial" and self.future:
            form = "callobj"          # the annotations of a partial object cannot be evaluated
        ps = gen_params(rng, forms)
        if form in ("function", "wraps", "static") and rng.random() < .12 and ps[0].kind != "KO":
            ps[0].name = rng.choice(("self", "cls"))         # no receiver: a parameter like any other
        var = rng.choice(("", "", "", "*", "**")) if mode != "inject" else ""
        self.ps, self.form, self.mode = ps, form, mode
        self.key_ann = rng.choice(("K", "K", "K", "Annotated[K, Component('k')]")) if mode != "inject" else "object"
        ret = {"factory": self.key_ann, "inject": "object", "generator": f"{'AsyncGenerator' if a else 'Generator'}[{self.key_ann}{', None' if a else ', None, None'}]"}.get(mode)
        if mode == "cm":
            ret = f"{'AsyncGenerator' if a else 'Generator'}[{self.key_ann}{', None' if a else ', None, None'}]"
        if mode == "factory" and rng.random() < .2:
            # a plain function that returns an awaitable and says so
            ret = rng.choice((f"Awaitable[{self.key_ann}]", f"Coroutine[Any, Any, {self.key_ann}]")) if not a else ret
            self.sync_awaitable = not a
            self.is_async = a = True
        else:
            self.sync_awaitable = False
        self.infer = rng.random() < .5 and mode != "inject" and not (form == "callobj" and self.future)
        if not self.infer and not self.sync_awaitable and rng.random() < .3:
            ret = None                         # nothing to read: what the function is decides
        elif ret and mode != "inject" and rng.random() < .1 and not self.infer:
            ret = f"Annotated[{ret}, 'note']"
        d = "async def" if a and not self.sync_awaitable else "def"
        made = "K()" if mode != "inject" else "got[-1]"
        inner = [f"got.append({rec(ps, var)})"]
        if mode in ("factory", "inject"):
            if self.sync_awaitable:
                inner += ["async def later():", f"    return {made}", "return later()"]
            else:
                inner += [f"return {made}"]
        else:
            inner += [f"yield {made}", "got.append('closed')"]
        pre = [f"@{'async' if a else ''}contextmanager"] if mode == "cm" else []
        wrap = "adeco" if a and mode in ("factory", "inject") and not self.sync_awaitable else "deco"
        dec = decoys(rng, ps)
        cls = [f"{n}: {x}" for n, x in dec] if rng.random() < .6 else []

        def fn(name, first=None, more=()):
            return list(more) + pre + [f"{d} {name}({sig(ps, first, var)}){' -> ' + ret if ret else ''}:"] + ["    " + l for l in inner]
        if form == "function":
            self.text += body_lines(fn("F"), 0)
        elif form == "wraps":
            more = [f"@{wrap}"] if mode in ("factory", "inject", "cm") else []
            self.text += body_lines(fn("F", None, more), 0)
        elif form == "partial":
            q = Par("zz", "PO" if ps[0].kind == "PO" else "PK", "bare", 0)
            s = sig(ps, None, var)
            head = "zz, " if s else "zz"
            self.text += body_lines(pre + [f"{d} F0({head}{s}){' -> ' + ret if ret else ''}:"] + ["    " + l for l in inner] + ["F = functools.partial(F0, 7)"], 0)
        elif form == "callobj":
            other = ", ".join(f"{n}: {x} = None" for n, x in decoys(rng, ps))
            init = [f"def __init__(self, {other}): pass"] if rng.random() < .5 else []
            self.text += "class C:\n" + body_lines(cls + init + fn("__call__", "self")) + "F = C()\n"
        elif form == "method":
            self.text += "class C:\n" + body_lines(cls + fn("m", "self")) + "F = C().m\n"
        elif form == "static":
            self.text += "class C:\n" + body_lines(cls + fn("m", None, ["@staticmethod"])) + "F = C.m\n"
        else:
            self.text += "class C:\n" + body_lines(cls + fn("m", "cls", ["@classmethod"])) + "F = C.m\n"

    def gen_cmobj(self):
        """a context manager class, or a function returning one"""
        rng = self.rng
        ps = gen_params(rng, FORMS)
        both = rng.random() < .2
        self.is_async = a = rng.random() < .5 and not both
        self.mode, self.ps = "cm", ps
        own = rng.random() < .3                        # the managed object is the manager itself
        self.key_ann = "K" if not own else "CM"
        val = "K()" if not own else "self"
        enter = rng.choice(("K", "Annotated[K, 'n']")) if not own else "Self"
        meths = []
        for x in ([False, True] if both else [a]):
            d, n = ("async def", "a") if x else ("def", "")
            # with both protocols the synchronous one is used
            e = enter if x == a else "int"
            if not both and not own and rng.random() < .2:
                e = rng.choice(("Awaitable[K]", "Coroutine[Any, Any, K]")) if x else e
            sync_aw = "[" in e and e[0] in "AC" and "Ann" not in e
            meths += [f"{d if not sync_aw else 'def'} __{n}enter__(self) -> {e}:"]
            meths += ["    got.append(self.got)", f"    return {val}"] if not sync_aw else ["    got.append(self.got)", "    async def later():", f"        return {val}", "    return later()"]
            meths += [f"{d} __{n}exit__(self, *a): got.append('closed')"]
        form = self.form = rng.choice(("cmclass", "cmclass", "cminherit", "cmfunc", "cmfunc-abstract"))
        init = [f"def __init__({sig(ps, 'self')}):", f"    self.got = {rec(ps)}"]
        if form == "cmclass":
            self.text += "class CM:\n" + body_lines(init + meths) + "F = CM\n"
        elif form == "cminherit":
            self.text += "class CM0:\n" + body_lines(meths) + "class CM(CM0):\n" + body_lines(init) + "F = CM\n"
        else:
            self.text += "class CM:\n" + body_lines(["def __init__(self, got):", "    self.got = got"] + meths)
            ret = "CM" if form == "cmfunc" else f"Abstract{'Async' if a else ''}ContextManager[{self.key_ann}]"
            self.text += body_lines([f"def F({sig(ps)}) -> {ret}:", f"    return CM({rec(ps)})"], 0)
        self.infer = rng.random() < .6

    def gen_invalid(self):
        """registrations that must be refused"""
        rng = self.rng
        ps = self.ps = gen_params(rng, FORMS, n=rng.choice((1, 2, 3)))
        self.is_async, self.form, self.key_ann = False, rng.choice(("function", "init")), "K"
        self.why = rng.choice(("unannotated", "unknown", "kind", "twice", "missing", "unresolved", "return"))
        if self.why == "return":
            self.form = "function"
        # every parameter required
        for p in ps:
            if p.default:
                p.form = "plain"
        s = sig(ps)
        bad = rng.choice(ps)
        if self.why in ("unannotated", "unresolved"):
            s = ", ".join(x if x.split(":")[0] != bad.name else bad.name + (": 'Nowhere'" if self.why == "unresolved" else "") for x in _split(s))
        self.bad = bad
        self.ret = rng.choice(("", " -> 'Nowhere'")) if self.why == "return" else " -> K"
        self.text += f"def F({s}){self.ret}:\n    return K()\n" if self.form == "function" else f"class P:\n    def __init__({'self, ' + s if s else 'self'}): pass\nF = P\n"

    def drive_invalid(self, m):
        rng = self.rng
        c = self.container(m)
        F = m.F
        kw = {}
        sg = inspect.signature(F).parameters
        T = [getattr(m, f"T{i}") for i in range(N)]
        full = {T[i]: sg[p.name] for i, p in enumerate(self.ps)}
        if self.why == "unknown":
            kw["dependencies"] = {**full, T[5]: inspect.Parameter("nobody", inspect.Parameter.KEYWORD_ONLY)}
        elif self.why == "kind":
            k = next(t for t, p in full.items() if p.name == self.bad.name)
            full[k] = inspect.Parameter(self.bad.name, rng.choice([x for x in (inspect.Parameter.POSITIONAL_ONLY, inspect.Parameter.POSITIONAL_OR_KEYWORD, inspect.Parameter.KEYWORD_ONLY) if x is not sg[self.bad.name].kind]))
            kw["dependencies"] = full
        elif self.why == "twice":
            kw["dependencies"] = {**full, T[5]: sg[self.bad.name]}
        elif self.why == "missing":
            kw["dependencies"] = {k: v for k, v in full.items() if v.name != self.bad.name}
        if self.why != "return":
            kw["provides"] = m.K
        self.log.append(f"refused because: {self.why}; {'add_factory' if self.form == 'function' else 'add'}(F, {', '.join(f'{k}={v!r}' for k, v in kw.items())})")
        add = c.add_factory if self.form == "function" else c.add
        if self.why == "return":
            add = rng.choice((c.add_factory, c.add_generator, c.add_context_manager))
            self.log.append(add.__name__)
        if self.form != "function":
            kw["provides"] = m.P
        try:
            add(F, **kw)
        except X.DIWireError as e:
            pass
        except Exception as e:
            raise Diverge("infer", f"registration raised {type(e).__name__}: {e}")
        else:
            raise Diverge("infer", f"the registration was accepted ({self.why})")
        try:
            v = c.resolve(kw.get("provides", m.K))
        except X.DIWireDependencyNotRegisteredError:
            return
        raise Diverge("infer", f"the refused registration resolves to {v!r}")

    # ------------------------------------------------------------- driving
    def run(self):
        rng = self.rng
        mode = pick(rng, self.P["modes"])
        if mode == "class":
            self.gen_class()
        elif mode == "closed":
            self.gen_closed()
        elif mode == "cmobj":
            self.gen_cmobj()
            mode = "cm"
        elif mode == "invalid":
            self.gen_invalid()
        elif mode == "inject":
            self.gen_callable("inject", [("inj", 6), ("injc", 2), ("supplied", 3), ("bare", 1)])
        else:
            self.gen_callable(mode)
        src = self.text[self.text.index("class Missing"):].split("\n", 2 + 2 * N + (1 + N) * self.other)[-1]
        if self.other and "_b import Q" in src:
            src = "# in the module of the types\n" + self.text_b[self.text_b.index("class Missing"):].split("\n", 2 + 2 * N)[-1] + "# here T0 is that module's T1, and so on\n" + src
        self.log += [f"mode {mode} form {self.form}{' postponed annotations' if self.future else ''}{' async' if self.is_async else ''}"] + src.splitlines()
        m = self.load()
        try:
            self.drive(m, mode)
        finally:
            sys.modules.pop(self.modname, None)
            sys.modules.pop(self.modname + "_b", None)

    def container(self, m, **kw):
        c = Container(missing_policy=MissingPolicy.ERROR, dependency_registration_policy=DependencyRegistrationPolicy.IGNORE, use_resolver_context="resolver_context" in kw, **kw)
        self.inst = {}
        for i in range(N):
            t = getattr(m, f"T{i}")
            self.inst[i] = t()
            self.inst[i, "c"] = t()
            c.add_instance(self.inst[i], provides=t)
            c.add_instance(self.inst[i, "c"], provides=t, component="c")
        return c

    def check(self, got, explicit=None, supplied=None, arg=None):
        if got.get("args") or got.get("kwargs"):
            raise Diverge("arg", f"undeclared parameters receive {got.get('args')!r} {got.get('kwargs')!r}")
        for p in self.ps:
            v = got.get(p.name, "<nothing>")
            if explicit is not None:
                if p.name in explicit:
                    w = self.inst[explicit[p.name]]
                else:
                    w = "dflt"
            elif p.form in ("maybe", "bare"):
                w = "dflt"
            elif p.form in ("typ", "val"):
                w = arg
            elif p.form == "supplied":
                w = supplied[p.name]
            elif p.form == "prov":
                if not callable(v):
                    raise Diverge("arg", f"parameter {p.name}: {p.ann} received {v!r}")
                v, w = v(), self.inst[p.i]
            else:
                w = self.inst[p.i, "c"] if p.form in ("comp", "injc") else self.inst[p.i]
            if v is not w and not (p.form in ("supplied", "maybe", "bare") and v == w):
                raise Diverge("inject" if supplied is not None else "arg", f"parameter {p.name}: {p.ann} received {v!r} instead of {w!r}")

    def drive(self, m, mode):
        rng = self.rng
        if mode == "inject":
            return self.drive_inject(m)
        if mode == "invalid":
            return self.drive_invalid(m)
        c = self.container(m)
        life = rng.choice((Lifetime.TRANSIENT, Lifetime.SCOPED))
        kw = dict(lifetime=life)
        explicit = None
        if mode in ("class", "closed"):
            F = m.P
            arg = None
            key = m.P
            if mode == "closed":
                arg = getattr(m, f"T{rng.randrange(N)}") if rng.random() < .7 else rng.choice((int, list[int]))
                key = m.P[arg]
                kw["provides"] = key
            elif rng.random() < .5:
                key = m.K
                kw["provides"] = key
            elif rng.random() < .15 and self.form != "namedtuple":
                c = self.container(m)
                key = m.P
            add = c.add if rng.random() < .8 or mode == "closed" else c.add_factory
            if add == c.add_factory:
                kw.setdefault("provides", key)
        else:
            F, arg = m.F, None
            add = dict(factory=c.add_factory, generator=c.add_generator, cm=c.add_context_manager)[mode]
            key = getattr(m, self.key_ann) if "Annotated" not in self.key_ann else eval(self.key_ann, m.__dict__)
            if not self.infer:
                kw["provides"] = key
        if rng.random() < .3 and mode != "closed":
            # explicit dependencies: any key for any declared parameter, in any order
            need = [p for p in self.ps if not p.default or rng.random() < .5]
            if len(need) <= N:
                sg = inspect.signature(F).parameters
                if all(p.name in sg for p in need) and all(sg[p.name].kind is not inspect.Parameter.VAR_KEYWORD for p in need):
                    ids = rng.sample(range(N), len(need))
                    explicit = {p.name: i for p, i in zip(need, ids)}
                    ds = [(getattr(m, f"T{i}"), sg[p.name] if rng.random() < .5 else inspect.Parameter(p.name, sg[p.name].kind)) for p, i in zip(need, ids)]
                    rng.shuffle(ds)
                    kw["dependencies"] = dict(ds)
        self.log.append(f"{getattr(add, '__name__', add)}(..., {', '.join(f'{k}={v!r}' for k, v in kw.items())}); resolve {key!r}")
        try:
            add(F, **kw)
        except Exception as e:
            raise Diverge("infer", f"registration raised {type(e).__name__}: {e}")
        for how in ("resolve", "aresolve") if not self.is_async else ("resolve", "aresolve", "aresolve"):
            m.got.clear()
            self.log.append(how)
            try:
                v = c.resolve(key) if how == "resolve" else asyncio.run(_aw(c, key))
            except X.DIWireAsyncDependencyInSyncContextError as e:
                if how == "resolve" and self.is_async:
                    continue
                raise Diverge("async", f"{how} of a key whose provider is {'async' if self.is_async else 'sync'}: {e}")
            except Exception as e:
                raise Diverge("infer" if isinstance(e, X.DIWireDependencyNotRegisteredError) and "required by" not in str(e) else "arg", f"{how} raised {type(e).__name__}: {e}")
            if how == "resolve" and self.is_async:
                if inspect.iscoroutine(v):
                    v.close()
                raise Diverge("async", f"resolve of an asynchronous provider returned {v!r}")
            if mode in ("class", "closed"):
                if not isinstance(v, m.P):
                    raise Diverge("async" if inspect.isawaitable(v) else "arg", f"{how} gives {v!r}")
                self.check(self.read(v), explicit, arg=arg)
            else:
                if not isinstance(v, getattr(m, self.key_ann, m.K)):
                    raise Diverge("async" if inspect.isawaitable(v) or hasattr(v, "__aiter__") else "arg", f"{how} gives {v!r}")
                if m.got:
                    self.check(m.got[0], explicit)
                elif life is Lifetime.TRANSIENT:
                    raise Diverge("arg", "the provider was not called")
            if self.is_async and life is Lifetime.SCOPED:
                break

    def drive_inject(self, m):
        rng = self.rng
        rc = ResolverContext()
        c = self.container(m, resolver_context=rc)
        sup = {p.name: object() for p in self.ps if p.form == "supplied"}
        pub = [p for p in self.ps if p.form in ("supplied", "bare")]
        try:
            f = rc.inject(m.F)
            names = list(inspect.signature(f).parameters)
        except Exception as e:
            raise Diverge("inject", f"inject raised {type(e).__name__}: {e}")
        if names != [p.name for p in pub]:
            raise Diverge("inject", f"public signature {names}, expected {[p.name for p in pub]}")
        for r in range(2):
            args, kwargs, pos = [], {}, True
            for p in self.ps:
                if p.form not in ("supplied",):
                    pos = pos and p.kind == "PO" and False
                    continue
                if p.kind == "PO" or p.kind == "PK" and pos and rng.random() < .6:
                    if not pos:
                        return          # cannot be supplied without the injected parameter before it
                    args.append(sup[p.name])
                else:
                    kwargs[p.name] = sup[p.name]
                    pos = False
            self.log.append(f"call with {len(args)} positional, {sorted(kwargs)} by keyword")
            m.got.clear()
            try:
                v = f(*args, **kwargs)
                if self.is_async:
                    if not inspect.isawaitable(v):
                        raise Diverge("inject", f"an async callable gives {v!r}")
                    if m.got:
                        raise Diverge("inject", "an async callable ran before it was awaited")
                    v = asyncio.run(_wait(v))
            except Diverge:
                raise
            except Exception as e:
                raise Diverge("inject", f"the call raised {type(e).__name__}: {e}")
            if not m.got or v is not m.got[-1]:
                raise Diverge("inject", f"the result is {v!r}")
            self.check(m.got[-1], supplied=sup)


async def _aw(c, key):
    return await c.aresolve(key)


async def _wait(v):
    return await v


def run_case(seed, P=PBASE, stats=None):
    k = Case(seed, P)
    try:
        k.run()
    except Diverge as d:
        return (d.cat, d.msg, k.log)
    finally:
        if stats is not None:
            stats["_log"] = k.log
            stats["steps"] = stats.get("steps", 0) + len(k.log)
    return None
