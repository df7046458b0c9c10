"""Contracts of the functions that read a provider or an injected callable (providers.py: ProviderDependenciesExtractor, ProviderReturnTypeExtractor;
injection.py: InjectedCallableInspector; type_checks.py).

requires  any function, bound method, callable object or class whose parameters have any kinds, defaults and annotations (absent, a type, Annotated, a string,
          an unresolvable string); any explicit dependency list; any return annotation out of the documented ones
ensures   deps     : one dependency per parameter with a readable annotation, in signature order, carrying that annotation and that very parameter; parameters
                     that need no value and have no readable annotation are left out
          infer    : DIWireProviderDependencyInferenceError iff a required parameter has no readable annotation
          explicit : explicit dependencies are refused iff one names an unknown parameter, one parameter twice, another kind, or a required parameter is missing;
                     otherwise they come back in signature order with the signature's own parameters
          ctor     : for a class, the annotation read is the one of the constructor that gives the signature
          async    : is_factory_async / is_generator_async / is_context_manager_async tell whether the value has to be awaited
          returns  : extract_from_* give the declared type, DIWireInvalidRegistrationError iff there is none
          inject   : injected parameters are exactly those marked Injected[...], with their key (all other metadata kept); context parameters those marked
                     FromContext[...]; the public signature is the signature without them
Everything is enumerated with at most three parameters (bounded); typing.get_type_hints and inspect.signature are the real ones."""
from __future__ import annotations
import functools, inspect, types
from inspect import Parameter, Signature
from collections.abc import AsyncGenerator, Awaitable, Coroutine, Generator
import dataclasses, sys
from contextlib import AbstractAsyncContextManager, AbstractContextManager, asynccontextmanager, contextmanager
from typing import Annotated, Any, Self
from . import native
from .sym import Engine
from .c_rcontext import outcome
from diwire import Component, Injected, FromContext, Maybe, Provider
from diwire import exceptions as X
import diwire._internal.providers as pv
import diwire._internal.injection as ij
import diwire._internal.markers as mk

ASSUMPTIONS = ["typing.get_type_hints and inspect.signature are executed, not specified; signatures have at most three parameters in the extraction contracts (bounded)"]


class T0:
    pass


class T1:
    pass


class T2:
    pass


T = (T0, T1, T2)
PO, PK, VP, KO, VK = Parameter.POSITIONAL_ONLY, Parameter.POSITIONAL_OR_KEYWORD, Parameter.VAR_POSITIONAL, Parameter.KEYWORD_ONLY, Parameter.VAR_KEYWORD
KINDS = (PO, PK, VP, KO, VK)
EMPTY = Parameter.empty
DEF = (object(), None, 0)


def template(*a, **k):
    return None


def make_fn(params, hints, ret=EMPTY, first=None):
    f = types.FunctionType(template.__code__, globals(), "provider")
    f.__module__ = __name__
    f.__qualname__ = "provider"
    f.__annotations__ = {k: v for k, v in hints.items() if v is not EMPTY}
    if ret is not EMPTY:
        f.__annotations__["return"] = ret
    f.__signature__ = Signature(([Parameter(first, PK if not params or params[0].kind is not PO else PO)] if first else []) + list(params), return_annotation=ret)
    return f


def shape(form, params, hints, ret=EMPTY):
    """the provider as the user would hand it over"""
    if form == "function":
        return make_fn(params, hints, ret)
    f = make_fn(params, hints, ret, "self")
    if form == "method":
        return type("C", (), {"m": f, "__module__": __name__})().m
    if form == "object":
        return type("C", (), {"__call__": f, "__module__": __name__})()
    if form == "class":
        return type("C", (), {"__init__": f, "__module__": __name__})
    if form == "new":
        return type("C", (), {"__new__": f, "__module__": __name__})
    if form == "inherited":
        return type("D", (type("C", (), {"__init__": f, "__module__": __name__}),), {"__module__": __name__})
    raise AssertionError(form)


NAMES = ("p0", "self", "cls")             # no receiver: a parameter like any other


def naming(form, n):
    return NAMES if form == "function" and n < 3 else ("p0", "cls") if form == "class" and n < 3 else ("p0",)


STATES = ("type", "none", "string", "bad", "annotated")


def signature(p, n, states, kinds=KINDS, names=("p0",)):
    """[(Parameter, state, what the annotation means)]; names: what the first parameter may be called"""
    out, last, dflt = [], 0, False
    first = names[p.choose(len(names), f"name of the first parameter: {', '.join(names)}")] if n else None
    for i in range(n):
        ks = [k for k in kinds if k >= last]
        if not ks:
            break
        k = ks[p.choose(len(ks), f"kind of parameter {i}")]
        last = k if k in (PO, PK, KO) else k + 1
        d = False
        if k in (PO, PK):
            d = dflt or p.choose(2, f"parameter {i} has a default") == 1
            dflt = d
        elif k is KO:
            d = p.choose(2, f"parameter {i} has a default") == 1
        s = states[p.choose(len(states), f"annotation {i}: {', '.join(states)}")]
        ann = {"none": EMPTY, "type": T[i], "string": f"T{i}", "bad": "Nowhere", "annotated": Annotated[T[i], Component("c"), "note"]}[s]
        out.append((Parameter(f"p{i}" if i else first, k, default=DEF[i] if d else EMPTY, annotation=ann), s, {"string": T[i]}.get(s, ann)))
    return out


def needs(q):
    return q.default is EMPTY and q.kind not in (VP, VK)


def same_param(a, b):
    return a.name == b.name and a.kind is b.kind and a.default is b.default


METH = dict(factory="extract_from_factory", generator="extract_from_generator", cm="extract_from_context_manager", concrete="extract_from_concrete_type")
VAL = dict(factory="validate_explicit_for_factory", generator="validate_explicit_for_generator", cm="validate_explicit_for_context_manager", concrete="validate_explicit_for_concrete_type")


def ask(p, obj, name, args, kw=None):
    return outcome(p, lambda: p.call(p.getattr(obj, name), args, kw or {}))


def cls_of(e):
    return e.cls or type(getattr(e, "real", None))


def shown(ps):
    return "(" + ", ".join(str(q) for q, *_ in ps) + ")"


def go_deps(form, how, n, states):
    def setup(p):
        ps = signature(p, n, states, names=naming(form, n))
        prov = shape(form, [q for q, *_ in ps], {q.name: q.annotation for q, *_ in ps})
        k, r = ask(p, pv.ProviderDependenciesExtractor(), METH[how], [prov])
        broken = any(s == "bad" for _, s, _ in ps)
        # a string beside an unresolvable one may be read or not
        must_fail = any(needs(q) and s in ("none", "bad") for q, s, _ in ps)
        may_fail = must_fail or broken and any(needs(q) and s == "string" for q, s, _ in ps)
        if k != "ok":
            p.must(may_fail, "infer", f"{form} {shown(ps)}: {r!r}")
            p.must(issubclass(cls_of(r), X.DIWireProviderDependencyInferenceError), "infer", f"{form} {shown(ps)}: {r!r}")
            return
        p.must(not must_fail, "infer", f"{form} {shown(ps)}: a required parameter without readable annotation is accepted")
        p.must(isinstance(r, (list, tuple)), "deps", f"{r!r}")
        r = list(r)
        want = [(q, a) for q, s, a in ps if s in ("type", "annotated", "string")]
        opt = {q.name for q, s, _ in ps if s == "string" and broken}
        got = [(p.getattr(d, "parameter"), p.getattr(d, "provides")) for d in r]
        names = [q.name for q, _ in got]
        p.must([x for x in names if x not in opt] == [q.name for q, _ in want if q.name not in opt] and names == [q.name for q, _ in want if q.name in names], "deps",
               f"{form} {shown(ps)}: dependencies for {names}")
        for q, a in got:
            wq, wa = next((x, y) for x, y in want if x.name == q.name)
            p.must(a == wa, "deps", f"{form} {shown(ps)}: {q.name} depends on {a!r}")
            p.must(same_param(q, wq), "deps", f"{form} {shown(ps)}: parameter {q!r} of {wq!r}")
    return setup


def go_explicit(form, how, n, m):
    def setup(p):
        ps = [q for q, *_ in signature(p, n, ("none",), names=naming(form, n))]
        prov = shape(form, ps, {})
        deps, bad = [], False
        seen = set()
        for j in range(m):
            i = p.choose(len(ps) + 1, f"dependency {j} is for parameter")
            if i == len(ps):
                q, unknown = Parameter("other", PK), True
            else:
                q, unknown = ps[i], False
            kind = q.kind
            other = not unknown and p.choose(2, f"dependency {j} has another kind") == 1
            if other:
                kind = PK if q.kind is not PK else KO
            bad = bad or unknown or other or q.name in seen
            seen.add(q.name)
            deps.append(pv.ProviderDependency(provides=T[j], parameter=Parameter(q.name, kind)))
        before = list(deps)
        k, r = ask(p, pv.ProviderDependenciesExtractor(), VAL[how], [prov], dict(dependencies=deps))
        what = f"{form}({', '.join(map(str, ps))}) with {[(str(d.parameter), d.parameter.kind.name) for d in before]}"
        p.must(deps == before, "explicit", f"{what}: the given list is changed")
        missing = [q.name for q in ps if needs(q) and q.name not in seen]
        if bad or missing:
            p.must(k == "raise" and issubclass(cls_of(r), X.DIWireError), "explicit", f"{what}: accepted")
            if not missing:
                p.must(issubclass(cls_of(r), X.DIWireInvalidProviderSpecError), "explicit", f"{what}: {r!r}")
            if not bad:
                p.must(issubclass(cls_of(r), X.DIWireProviderDependencyInferenceError), "explicit", f"{what}: {r!r}")
            return
        p.must(k == "ok", "explicit", f"{what}: {r!r}")
        r = list(r)
        got = [(p.getattr(d, "parameter"), p.getattr(d, "provides")) for d in r]
        want = [(q, next(d.provides for d in before if d.parameter.name == q.name)) for q in ps if q.name in seen]
        p.must(len(got) == len(want) and all(same_param(a, b) and x is y for (a, x), (b, y) in zip(got, want)), "explicit", f"{what}: {got!r}")
    return setup


# ------------------------------------------------------------------ constructors
class Meta(type):
    def __call__(cls, x: T2 = DEF[2]):
        return None


def ctor_fn(i, first):
    return make_fn([Parameter("x", PK, default=DEF[i], annotation=T[i])], {"x": T[i]}, EMPTY, first)


def go_ctor():
    def setup(p):
        """__init__ and __new__ own, inherited or absent, a metaclass with __call__, the class's own __call__ and annotations of the same name"""
        meta = p.choose(2, "metaclass with __call__")
        init, new = p.choose(4, "__init__: absent, own, base, both"), p.choose(4, "__new__: absent, own, base, both")
        callm, body = p.choose(2, "__call__ with the same parameter name"), p.choose(2, "class annotation of another name")
        if not (meta or init or new):
            return
        mk_ = lambda which, own: {**({"__init__": ctor_fn(0 if own else 1, "self")} if which[0] else {}), **({"__new__": ctor_fn(2 if own else 1, "cls")} if which[1] else {})}
        ns = lambda d: {**d, "__module__": __name__}
        Base = type("Base", (), ns(mk_((init in (2, 3), new in (2, 3)), False)))
        d = mk_((init in (1, 3), new in (1, 3)), True)
        if callm:
            d["__call__"] = make_fn([Parameter("x", PK, default=None, annotation=Base)], {"x": Base}, EMPTY, "self")
        if body:
            d["__annotations__"] = {"y": T0}
        C = (Meta if meta else type)("C", (Base,), ns(d))
        eff = inspect.signature(C).parameters["x"]
        if any(eff.default is x for x in DEF):
            want = T[next(i for i, x in enumerate(DEF) if eff.default is x)]
        else:
            return
        k, r = ask(p, pv.ProviderDependenciesExtractor(), METH["concrete"], [C])
        what = f"metaclass {meta}, __init__ {init}, __new__ {new}, __call__ {callm}, annotations {body}"
        p.must(k == "ok", "ctor", f"{what}: {r!r}")
        got = [(p.getattr(d, "parameter").name, p.getattr(d, "provides")) for d in r]
        p.must(got == [("x", want)], "ctor", f"{what}: dependencies {got}, the signature is {inspect.signature(C)}")
    return setup


# a module where the names T0, T1, T2 mean other types
OTHER = types.ModuleType("vf_extract_other")
OTHER.__dict__.update(T0=T1, T1=T2, T2=T0, dataclass=dataclasses.dataclass, Annotated=Annotated, Component=Component)
sys.modules[OTHER.__name__] = OTHER
SRC = {
    "dataclass": "@dataclass\nclass B:\n    x: T0\n    y: T1 = None\n",
    "frozen": "@dataclass(frozen=True, slots=True)\nclass B:\n    x: T0\n    y: T1 = None\n",
    "kwonly": "@dataclass(kw_only=True)\nclass B:\n    y: T1 = None\n    x: T0\n",
    "annotated": "@dataclass\nclass B:\n    x: Annotated[T0, Component('c')]\n    y: T1 = None\n",
    "init": "class B:\n    def __init__(self, x: T0, y: T1 = None): pass\n",
    "init-decoy": "class B:\n    x: T2\n    y: T2\n    def __init__(self, x: T0, y: T1 = None): pass\n",
    "new": "class B:\n    def __new__(cls, x: T0, y: T1 = None): return object.__new__(cls)\n",
    "init-same": "class B:\n    x: T0\n    y: T1\n    def __init__(self, x: T0, y: T1 = None): pass\n",
}
SRC["broken-body"] = "class B:\n    z: 'Nowhere'\n    def __init__(self, x: T0, y: T1 = None): pass\n"
SUB = {
    "same-text": "class C(B):\n    x: T0\n    y: T1\n",
    "broken": "class C(B):\n    z: 'Nowhere'\n",
    "none": "",
    "plain": "class C(B):\n    pass\n",
    "decoy": "class C(B):\n    x: T2\n    y: T2\n",
    "call": "class C(B):\n    def __call__(self, x: T2, y: T2): pass\n",
    "extended": "@dataclass\nclass C(B):\n    z: T2 = None\n",
    "redeclared": "@dataclass\nclass C(B):\n    x: T2\n",
    "twice": "class D(B):\n    pass\nclass C(D):\n    x: T2\n",
    "wrapped": "@dataclass\nclass D(B):\n    z: T2 = None\nclass C(D):\n    pass\n",
}


def go_module():
    """the constructor comes from another class, perhaps from another module: its annotations are read where they are written"""
    def setup(p):
        base = list(SRC)[p.choose(len(SRC), f"base class: {', '.join(SRC)}")]
        sub = list(SUB)[p.choose(len(SUB), f"subclass: {', '.join(SUB)}")]
        other = p.choose(2, "the base class lives in another module") == 1
        late, late2 = p.choose(2, "postponed annotations in the base") == 1, p.choose(2, "postponed annotations in the subclass") == 1
        data = base in ("dataclass", "frozen", "kwonly", "annotated")
        if sub in ("extended", "redeclared", "wrapped") and (not data or base == "frozen"):
            return
        fut = "from __future__ import annotations\n"
        bns = dict(OTHER.__dict__) if other else dict(T0=T0, T1=T1, T2=T2, dataclass=dataclasses.dataclass, Annotated=Annotated, Component=Component)
        name = OTHER.__name__ if other else "vf_extract_here"
        bns["__name__"] = name
        m1 = types.ModuleType(name)
        m1.__dict__.update(bns)
        sys.modules[name] = m1
        exec(compile((fut if late else "") + SRC[base], name, "exec", dont_inherit=True), m1.__dict__)
        C = m1.B
        m2 = types.ModuleType("vf_extract_sub")
        m2.__dict__.update(T0=T0, T1=T1, T2=T2, dataclass=dataclasses.dataclass, B=m1.B)
        sys.modules["vf_extract_sub"] = m2
        if sub != "none":
            exec(compile((fut if late2 else "") + SUB[sub], "vf_extract_sub", "exec", dont_inherit=True), m2.__dict__)
            C = m2.C
        o = {T0: T1, T1: T2, T2: T0} if other else {T0: T0, T1: T1, T2: T2}
        want = dict(x=Annotated[o[T0], Component("c")] if base == "annotated" else o[T0], y=o[T1])
        if sub == "redeclared":
            want["x"] = T2
        if sub in ("extended", "wrapped"):
            want["z"] = T2
        k, r = ask(p, pv.ProviderDependenciesExtractor(), METH["concrete"], [C])
        what = f"{base}{' in another module' if other else ''}{' postponed' if late else ''}, subclass {sub}{' postponed' if late2 else ''}"
        p.must(k == "ok", "ctor", f"{what}: {r!r}")
        got = {p.getattr(d, "parameter").name: p.getattr(d, "provides") for d in r}
        p.must(got == want and len(list(r)) == len(want), "ctor", f"{what}: {got}, expected {want}")
    return setup


# ------------------------------------------------------------------ return types
class CMs:
    def __enter__(self) -> T1:
        return T1()

    def __exit__(self, *a):
        return None


class CMa:
    async def __aenter__(self) -> T1:
        return T1()

    async def __aexit__(self, *a):
        return None


class CMboth:
    def __enter__(self) -> T1:
        return T1()

    def __exit__(self, *a):
        return None

    async def __aenter__(self) -> T2:
        return T2()

    async def __aexit__(self, *a):
        return None


class CMself:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


class CMaw:
    def __aenter__(self) -> Awaitable[T1]:
        raise NotImplementedError

    async def __aexit__(self, *a):
        return None


class CMhalf:
    def __enter__(self) -> T1:
        return T1()


class CMtyped:
    def __enter__(self) -> Self:
        return self

    def __exit__(self, *a):
        return None


class CMatyped:
    async def __aenter__(self) -> Annotated[Self, "n"]:
        return self

    async def __aexit__(self, *a):
        return None


class CMacoro:
    def __aenter__(self) -> Coroutine[Any, Any, Annotated[T1, Component("c")]]:
        raise NotImplementedError

    async def __aexit__(self, *a):
        return None


class CMah(CMa):
    """half of the synchronous protocol beside the whole asynchronous one"""

    def __enter__(self) -> T2:
        return T2()


class CMhx(CMa):
    def __exit__(self, *a):
        return None


class CMsh(CMs):
    async def __aenter__(self) -> T2:
        return T2()


class CMsx(CMs):
    async def __aexit__(self, *a):
        return None


class CMahalf:
    async def __aenter__(self) -> T1:
        return T1()


class CMnone:
    pass


class CMlater:
    def __enter__(self) -> Awaitable[T1]:
        raise NotImplementedError

    def __exit__(self, *a):
        return None


class CMother:
    def __exit__(self, *a):
        return None


_Named = type("Self", (), {"__module__": __name__})
CMother.__enter__ = kind_self = lambda self: None
kind_self.__annotations__ = {"return": _Named}


NO = object()
# annotation, awaited when a plain factory returns it, type a factory provides, (async, type) for generators, (async, type) for context managers (NO: refused)
RET = {
    "none": (EMPTY, False, NO, (None, NO), (None, NO)),
    "type": (T1, False, T1, (None, NO), (False, NO)),
    "str": ("T1", False, T1, (None, NO), (False, NO)),
    "bad": ("Nowhere", False, NO, (None, NO), (None, NO)),
    "component": (Annotated[T1, Component("c")], False, Annotated[T1, Component("c")], (None, NO), (False, NO)),
    "awaitable": (Awaitable[T1], True, T1, (None, NO), None),
    "coroutine": (Coroutine[Any, Any, T1], True, T1, (None, NO), None),
    "str-awaitable": ("Awaitable[T1]", True, T1, (None, NO), None),
    "awaitable-component": (Awaitable[Annotated[T1, Component("c")]], True, Annotated[T1, Component("c")], (None, NO), None),
    "generator": (Generator[T1, None, None], False, Generator[T1, None, None], (False, T1), (False, T1)),
    "str-generator": ("Generator[T1, None, None]", False, Generator[T1, None, None], (False, T1), (False, T1)),
    "generator-component": (Generator[Annotated[T1, Component("c")], None, None], False, None, (False, Annotated[T1, Component("c")]), (False, Annotated[T1, Component("c")])),
    "agenerator": (AsyncGenerator[T1, None], False, AsyncGenerator[T1, None], (True, T1), (True, T1)),
    "acm": (AbstractAsyncContextManager[T1], False, None, (None, NO), (True, T1)),
    "scm": (AbstractContextManager[T1], False, None, (None, NO), (False, T1)),
    "cm-class": (CMs, False, CMs, (None, NO), (False, T1)),
    "acm-class": (CMa, False, CMa, (None, NO), (True, T1)),
    "cm-both": (CMboth, False, CMboth, (None, NO), (False, T1)),
    "acm-awaitable": (CMaw, False, CMaw, (None, NO), (True, T1)),
    "noted-acm": (Annotated[AbstractAsyncContextManager[T1], "n"], False, None, (None, NO), (True, None)),
    "noted-awaitable": (Annotated[Awaitable[T1], "n"], True, None, (None, NO), None),
    "half": (CMhalf, False, CMhalf, (None, NO), (False, NO)),
}


def plain():
    return None


async def coro():
    return None


def gen():
    yield None


async def agen():
    yield None


CODE = dict(plain=plain, coro=coro, gen=gen, agen=agen)


def kind_fn(code, ret, first):
    src = CODE[code]
    f = types.FunctionType(src.__code__, globals(), "provider")
    if first:
        async def _a(self):
            return None

        def _p(self):
            return None

        def _g(self):
            yield None

        async def _ag(self):
            yield None
        f = types.FunctionType(dict(plain=_p, coro=_a, gen=_g, agen=_ag)[code].__code__, globals(), "provider")
    f.__module__ = __name__
    f.__qualname__ = "provider"
    f.__annotations__ = {} if ret is EMPTY else {"return": ret}
    return f


def built(form, code, ret, deco):
    f = kind_fn(code, ret, form in ("method", "object"))
    if deco:
        f = {"gen": contextmanager, "agen": asynccontextmanager}[code](f)
    if form == "function":
        return f
    if form == "method":
        return type("C", (), {"m": f, "__module__": __name__})().m
    if form == "object":
        return type("C", (), {"__call__": f, "__module__": __name__})()
    if form == "partial":
        return functools.partial(f)
    raise AssertionError(form)


def go_return(form, rname):
    def setup(p):
        ret, aw, ftype, g, c = RET[rname]
        code = ("plain", "coro", "gen", "agen")[p.choose(4, "plain, coroutine, generator, async generator function")]
        deco = code in ("gen", "agen") and p.choose(2, "decorated as context manager") == 1
        prov = built(form, code, ret, deco)
        rt = pv.ProviderReturnTypeExtractor()
        what = f"{form}, {code}{' decorated' if deco else ''} -> {rname}"

        def val(name, obl, ok):
            k, r = ask(p, rt, name, [prov])
            ok(k, r)

        def flag(name, want):
            k, r = ask(p, rt, name, [prov])
            p.must(k == "ok" and (r is True or r is False), "async", f"{name}({what}): {k} {r!r}")
            if want is not None:
                p.must(r is want, "async", f"{name}({what}) is {r}")

        def typ(name, want):
            k, r = ask(p, rt, name, [prov])
            if want is NO:
                p.must(k == "raise" and issubclass(cls_of(r), X.DIWireInvalidRegistrationError), "returns", f"{name}({what}): {k} {r!r}")
            elif want is not None:
                p.must(k == "ok" and r == want, "returns", f"{name}({what}): {k} {r!r}, declared {want!r}")
        # what a coroutine or generator function says about itself decides before its annotation does
        if code in ("plain", "coro"):
            flag("is_factory_async", code == "coro" or aw)
            typ("extract_from_factory", ftype if code == "plain" or not aw else None)
        if g is not None and not deco:
            flag("is_generator_async", True if code == "agen" else g[0] if g[0] is not None else False if code == "gen" and not aw else None)
            if code in ("gen", "agen"):
                typ("extract_from_generator", g[1])
        if c is not None and code != "coro":
            told = code == "agen"
            flag("is_context_manager_async", True if told else c[0] if c[0] is not None else False if code == "gen" else None)
            typ("extract_from_context_manager", c[1])
    return setup


CMC = ((CMs, False, T1), (CMa, True, T1), (CMboth, False, T1), (CMself, False, None), (CMaw, True, T1), (CMtyped, False, Self), (CMatyped, True, Self), (CMah, True, T1), (CMhx, True, T1),
       (CMsh, False, T1), (CMsx, False, T1), (CMacoro, True, Annotated[T1, Component("c")]), (CMhalf, False, None), (CMahalf, False, None), (CMnone, False, None),
       (CMlater, False, Awaitable[T1]), (CMother, False, _Named))


def go_cmclass():
    def setup(p):
        cls, a, t = CMC[p.choose(len(CMC), "context manager class")]
        if p.choose(2, "inherited") == 1:
            cls = type("Sub", (cls,), {"__module__": __name__})
        if t is Self:
            t = cls
        rt = pv.ProviderReturnTypeExtractor()
        k, r = ask(p, rt, "is_context_manager_async", [cls])
        p.must(k == "ok" and r is a, "async", f"is_context_manager_async({cls.__name__}): {k} {r!r}")
        k, r = ask(p, rt, "extract_from_context_manager", [cls])
        if t is None:
            p.must(k == "raise", "returns", f"extract_from_context_manager({cls.__name__}): {r!r}")
        else:
            p.must(k == "ok" and r == t, "returns", f"extract_from_context_manager({cls.__name__}): {k} {r!r}")
    return setup


# ------------------------------------------------------------------ injected callables
INJ = ("none", "type", "inj", "inj-comp", "comp-inj", "ctx", "inj-maybe", "inj-provider", "str-inj", "str-ctx", "noted", "maybe-ctx", "inj-ctx")


def inj_ann(s, t, i):
    """annotation, what it means, injected key or None, context key or None"""
    c = Component("c")
    a = {"none": EMPTY, "type": t, "inj": Injected[t], "inj-comp": Annotated[Injected[t], c], "comp-inj": Injected[Annotated[t, c]], "ctx": FromContext[t], "inj-maybe": Injected[Maybe[t]],
         "inj-provider": Injected[Provider[t]], "str-inj": f"Injected[T{i}]", "str-ctx": f"FromContext[T{i}]", "noted": Annotated[t, "note"], "maybe-ctx": Maybe[FromContext[t]], "inj-ctx": Injected[FromContext[t]]}[s]
    key = {"inj": t, "str-inj": t, "inj-comp": Annotated[t, c], "comp-inj": Annotated[t, c]}.get(s)
    if s.startswith("inj-") and key is None:
        key = "marked"                    # Maybe, Provider, FromContext: the form under Injected
    return a, key, s in ("ctx", "str-ctx", "maybe-ctx", "inj-ctx")


def parts(k):
    return (k.__origin__, [m for m in k.__metadata__]) if hasattr(k, "__metadata__") else (k, [])


def go_inject(form, n, states):
    def setup(p):
        ps, want, ctxs = [], [], []
        last, dflt = 0, False
        for i in range(n):
            ks = [k for k in (PO, PK, KO) if k >= last]
            k = last = ks[p.choose(len(ks), f"kind of parameter {i}")]
            d = dflt and k is not KO or p.choose(2, f"parameter {i} has a default") == 1
            dflt = dflt or d and k is not KO
            s = states[p.choose(len(states), f"annotation {i}: {', '.join(states)}")]
            a, key, ctx = inj_ann(s, T[i], i)
            ps.append((Parameter(f"p{i}", k, default=DEF[i] if d else EMPTY, annotation=a), s))
            if key is not None:
                want.append((f"p{i}", key, a))
            if ctx:
                ctxs.append(f"p{i}")
        f = shape(form, [q for q, _ in ps], {q.name: q.annotation for q, _ in ps}, ret=T0)
        k, r = ask(p, ij.InjectedCallableInspector(), "inspect_callable", [f])
        what = f"{form} {shown(ps)}"
        p.must(k == "ok", "inject", f"{what}: {r!r}")
        inj = [(p.getattr(x, "name"), p.getattr(x, "dependency")) for x in p.getattr(r, "injected_parameters")]
        p.must([x for x, _ in inj] == [x for x, *_ in want], "inject", f"{what}: injected {inj}")
        for (nm, dep), (_, key, ann) in zip(inj, want):
            b, m = parts(dep)
            if key == "marked":
                wb, wm = parts(ann)
                wm = [x for x in wm if not isinstance(x, mk.InjectedMarker)]
                p.must(b is wb and len(m) == len(wm) and all(x is y or x == y for x, y in zip(m, wm)), "inject", f"{what}: {nm} is injected with {dep!r}")
            else:
                p.must(dep == key, "inject", f"{what}: {nm} is injected with {dep!r}")
        got = [(p.getattr(x, "name"), p.getattr(x, "dependency")) for x in p.getattr(r, "context_parameters")]
        p.must([x for x, _ in got] == ctxs, "inject", f"{what}: from the context {got}")
        for nm, dep in got:
            b, m = parts(dep)
            p.must(b is T[int(nm[1])] and any(isinstance(x, mk.FromContextMarker) for x in m), "inject", f"{what}: {nm} is read from the context as {dep!r}")
        full = p.getattr(r, "signature")
        p.must([q.name for q in full.parameters.values()] == [q.name for q, _ in ps], "inject", f"{what}: signature {full}")
        hidden = {x for x, *_ in want} | set(ctxs)
        pub = p.getattr(r, "public_signature")
        w = [q for q, _ in ps if q.name not in hidden]
        g = list(pub.parameters.values())
        p.must(len(g) == len(w) and all(same_param(x, y) for x, y in zip(g, w)), "inject", f"{what}: public signature {pub}")
        p.must(pub.return_annotation is T0, "inject", f"{what}: public signature {pub}")
    return setup


FORMS = ("function", "method", "object", "class", "new", "inherited")


def units(tier, seed, opts):
    what = opts.get("what", ("deps", "explicit", "ctor", "return", "inject"))
    deep = tier != "quick"
    out = []
    if "deps" in what:
        for f in FORMS:
            for n in (0, 1, 2, 3) if deep else (0, 1, 2):
                out.append(("deps", f, "concrete" if f in ("class", "new", "inherited") else ("factory", "generator", "cm")[n % 3], n, STATES if n < 3 else ("type", "none", "bad")))
        out += [("deps", "function", h, 2, ("type", "none", "string")) for h in ("factory", "generator", "cm")] + [("deps", "class", h, 1, STATES) for h in ("factory", "cm")]
        if not deep:
            out += [("deps", f, h, 3, ("type", "none", "bad")) for f, h in (("function", "factory"), ("class", "concrete"))]
        else:
            out += [("deps", f, h, 3, STATES) for f, h in (("function", "factory"), ("class", "concrete"), ("object", "generator"))]
    if "explicit" in what:
        for h in METH:
            for n in (0, 1, 2, 3) if deep else (0, 1, 2):
                for m in range(n + 2 if deep else min(n + 2, 3)):
                    if n * m <= (9 if deep and h == "factory" else 6):
                        out.append(("explicit", "class" if h == "concrete" else "function", h, n, min(m, 3)))
    if "ctor" in what:
        out += [("ctor",), ("module",)]
    if "return" in what:
        # the annotations of a partial object cannot be evaluated
        out += [("return", f, r) for f in ("function", "method", "object", "partial") for r in RET if not (f == "partial" and isinstance(RET[r][0], str))]
        out.append(("cmclass",))
    if "inject" in what:
        out += [("inject", f, n, INJ if n < 2 or deep else ("none", "type", "inj", "ctx", "str-inj")) for f in ("function", "method", "object") for n in (0, 1, 2)]
        if deep:
            out.append(("inject", "function", 3, ("type", "inj", "ctx", "str-inj", "inj-comp")))
    return out


GO = dict(module=go_module, deps=go_deps, explicit=go_explicit, ctor=go_ctor, cmclass=go_cmclass, inject=go_inject)
GO["return"] = go_return


def run(u, deadline, col):
    go = GO[u[0]](*u[1:])
    eng = Engine()
    r = eng.explore(go, maxpaths=60000, deadline=deadline)
    label = " ".join(str(x) for x in u)
    col.result(label, r, lambda: native.replay(go, r, [label]))
    col.engine(eng)
