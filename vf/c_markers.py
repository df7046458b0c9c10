"""Contracts of the key-form functions (markers.py): is_/strip_ of Maybe, FromContext, Provider, AsyncProvider and All keys, component_base_key,
strip_non_component_annotation, and the Maybe[...]/Provider[...]/... subscriptions.

requires  any key: a type, or Annotated[type, metadata...] whose metadata are components, markers and foreign values in any order
ensures   key   : strip_non_component_annotation keeps the type and exactly the Component metadata in order, and is idempotent; a key without foreign
                  metadata is returned unchanged; component_base_key is the type iff there is Component metadata
          maybe, context, provider, all : the marker is recognised wherever it stands, stripping removes exactly it (the first provider/all marker gives the
                  key it was made for); other keys are returned unchanged
          form  : Form[K] carries K's type and metadata and its own marker; All[K] only the type
Metadata lists are enumerated up to four items (bounded)."""
from __future__ import annotations
from typing import Annotated, Generic, TypeVar
from . import native
from .sym import Engine, BM
from .c_rcontext import outcome
from diwire import Component, Provider, AsyncProvider, Maybe, All, FromContext, Injected
import diwire._internal.markers as mk


class A:
    pass


class B:
    pass


class G(Generic[TypeVar("T")]):
    pass


def ask(p, name, fn, args):
    """the value of a total function"""
    k, r = outcome(p, lambda: p.call(fn, args, {}))
    p.must(k == "ok", name, f"{getattr(fn, '__name__', fn)}({args}) raises {r!r}")
    return r


def make(p, n):
    """(key, metadata)"""
    md = []
    for i in range(n):
        c = p.choose(8, f"metadata {i}: component, other component, maybe, context, provider, async provider, all, foreign")
        md.append([lambda: Component("a"), lambda: Component(2), mk.MaybeMarker, mk.FromContextMarker, lambda: mk.ProviderMarker(dependency_key=B, is_async=False),
                   lambda: mk.ProviderMarker(dependency_key=B, is_async=True), lambda: mk.AllMarker(dependency_key=B), lambda: ["foreign"]][c]())
    base = (A, list[A], dict[str, A], A | None, G[A], tuple[A, ...])[p.choose(6, "the type")] if n < 3 else A
    return (Annotated[(base, *md)] if md else base), md, base


def parts(key):
    return (key.__origin__, list(key.__metadata__)) if hasattr(key, "__metadata__") else (key, [])


def same(key, base, md):
    b, m = parts(key)
    return b == base and len(m) == len(md) and all(x is y or x == y for x, y in zip(m, md))


def first(md, T):
    return next((m for m in md if isinstance(m, T)), None)


def go_key(n):
    def setup(p):
        key, md, A = make(p, n)
        comps = [m for m in md if isinstance(m, Component)]
        f = lambda name, x=key: ask(p, "key", getattr(mk, name), [x])
        r = f("strip_non_component_annotation")
        p.must(same(r, A, comps), "key", f"{key} is normalised to {r}")
        if len(comps) == len(md):
            p.must(r == key, "key", f"{key}, which has nothing to strip, is rebuilt")
        p.must(f("strip_non_component_annotation", r) == r, "key", f"normalising {key} twice gives another key")
        b = f("component_base_key")
        p.must((b == A if comps else b is None), "key", f"component_base_key({key}) is {b}")
    return setup


def go_marker(n):
    def setup(p):
        key, md, A = make(p, n)
        f = lambda name: ask(p, "key", getattr(mk, name), [key])
        for T, name in ((mk.MaybeMarker, "maybe"), (mk.FromContextMarker, "from_context")):
            has = first(md, T) is not None
            p.must(f(f"is_{name}_annotation") is has, "maybe" if name == "maybe" else "context", f"is_{name}_annotation({key})")
            r = f(f"strip_{name}_annotation")
            p.must(same(r, A, [m for m in md if not isinstance(m, T)]) if has else r == key, "maybe" if name == "maybe" else "context", f"strip_{name}_annotation({key}) is {r}")
        pm, am = first(md, mk.ProviderMarker), first(md, mk.AllMarker)
        p.must(f("is_provider_annotation") is (pm is not None), "provider", f"is_provider_annotation({key})")
        p.must(f("is_async_provider_annotation") is (pm is not None and pm.is_async), "provider", f"is_async_provider_annotation({key})")
        p.must(f("strip_provider_annotation") == (B if pm is not None else key), "provider", f"strip_provider_annotation({key})")
        p.must(f("is_all_annotation") is (am is not None), "all", f"is_all_annotation({key})")
        p.must(f("strip_all_annotation") == (B if am is not None else key), "all", f"strip_all_annotation({key})")
    return setup


def go_form(n):
    def setup(p):
        key, md, A = make(p, n)
        if hasattr(p, "never"):
            for M in (mk.MaybeMarker, mk.FromContextMarker, mk.InjectedMarker, mk.ProviderMarker, mk.AllMarker):
                p.opaque[id(M)] = (lambda M: lambda p, a, k: M(*a, **k))(M)
        sub = lambda F: ask(p, "form", BM(F.__class_getitem__.__func__, F) if not isinstance(p, native.Native) else F.__class_getitem__, [key])
        for F, T in ((Maybe, mk.MaybeMarker), (FromContext, mk.FromContextMarker), (Injected, mk.InjectedMarker)):
            r = sub(F)
            b, m = parts(r)
            p.must(b == A and m[:-1] == md and all(x is y or x == y for x, y in zip(m, md)) and isinstance(m[-1], T), "form", f"{F.__name__}[{key}] is {r}")
        for F, a in ((Provider, False), (AsyncProvider, True)):
            r = sub(F)
            b, m = parts(r)
            p.must(b == A and len(m) == len(md) + 1 and all(x is y or x == y for x, y in zip(m, md)) and isinstance(m[-1], mk.ProviderMarker) and m[-1].dependency_key == key and m[-1].is_async is a,
                   "form", f"{F.__name__}[{key}] is {r}")
        r = sub(All)
        b, m = parts(r)
        p.must(b == A and len(m) == 1 and isinstance(m[0], mk.AllMarker) and m[0].dependency_key == A, "form", f"All[{key}] is {r}")
    return setup


GO = {"key": go_key, "marker": go_marker, "form": go_form}


def units(tier, seed, opts):
    return [(g, n) for g in GO for n in range(4 if tier == "quick" and g != "key" else 5)]


def run(u, deadline, col):
    go = GO[u[0]](u[1])
    eng = Engine()
    r = eng.explore(go, maxpaths=20000, deadline=deadline)
    label = f"{u[0]} contracts of keys with {u[1]} metadata"
    col.result(label, r, lambda: native.replay(go, r, [label]))
    col.engine(eng)
