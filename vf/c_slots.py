"""Contracts of the emitted slot methods resolve_<k>/aresolve_<k> (and of every compiler.py function they call).

requires  the receiver is an open scope of class level L whose scope references hold the chain invariant established by the emitted
          __init__ (contract group c_scopes); every owner cache cell is MISSING or holds the value of its slot.
ensures   value     : result is the value of node k for this receiver (cell of the owner, or the value of the one provider call)
          once      : on a miss the provider is called exactly once, on a hit never, and nothing else is evaluated
          args      : every parameter is bound to the value of its declared dependency evaluated in the execution scope (or left out)
          cell      : on success of a SCOPED slot the owner's cell holds the result, otherwise no cell of k changes
          error     : a failing dependency/provider/enter propagates unchanged; errors raised here are the structural ones of k
          cleanup   : exactly one exit callback of the opened resource is pushed on the scope of k's level, after it was opened
          async     : nothing un-awaited is passed or returned; sync resolution of an async-requiring slot fails before the provider
          lock      : when the lock mode demands it the provider runs under the slot's lock, after re-checking the cell
          rank      : calls to other slot methods go to dependencies, to the owner's method of the same slot, or from async to sync
Callee slot methods and context lookup are used by contract, user providers are unconstrained (any value, any exception).
The proof of one method is for all heap states and all provider behaviour; the graph shapes are enumerated (bounded)."""
from __future__ import annotations
import asyncio, contextlib, functools, inspect, itertools, random, re
import z3
from . import src, lab, refmodel as R
from .sym import (Engine, Path, SV, SB, Obj, Exc, BM, Clo, Coro, Spread, SPREAD, Unsupported, Violation, PathEnd, PyRaise, NOTIMPL, MODELS,
                  islock, _Model, _model)
from diwire import exceptions as X

STRUCT = {R.E_SCOPE: X.DIWireScopeMismatchError, R.E_ASYNC: X.DIWireAsyncDependencyInSyncContextError, R.E_MISSING: X.DIWireDependencyNotRegisteredError}


def hook():
    import diwire._internal.resolvers.assembly.compiler as comp
    src.hook_compile(comp)
    return comp


def sentinels(*mods):
    """private marker objects of the modules: plain object() instances user code cannot hold"""
    return [v for m in mods for k, v in vars(m).items() if k.startswith("_") and type(v) is object]


class VWorld(lab.World):
    def make(self, i):
        p = super().make(i)
        self.__dict__.setdefault("provs", {})[i] = p
        return p


class Setup:
    """a compiled graph and the maps between slots and nodes"""

    def __init__(self, g, root_level, cleanup):
        hook()
        self.g, self.root_level = g, root_level
        w = self.w = VWorld(g, root_level=root_level, cleanup=cleanup)
        w.provs = getattr(w, "provs", {})
        self.root = w.container.compile()
        cls = type(self.root)
        self.rt = cls._runtime
        self.node_of, self.slot_of = {}, {}
        ids = {id(w.provs[i]): i for i in w.provs}
        ids.update({id(o): i for i, o in w.instances.items()})
        for slot, p in self.rt.provider_by_slot.items():
            i = ids.get(id(p))
            if i is not None:
                self.node_of[slot] = i
                self.slot_of[i] = slot
        self.meth = {}
        for level, c in self.rt.class_by_level.items():
            for slot in self.node_of:
                for a in (False, True):
                    f = c.__dict__.get(("aresolve_" if a else "resolve_") + str(slot))
                    if f is None:
                        raise Unsupported("slot method not found")
                    self.meth[id(f)] = (slot, a, level)
        self.ctx_fns = {id(c.__dict__["_resolve_from_context"]) for c in self.rt.class_by_level.values() if "_resolve_from_context" in c.__dict__}
        self.levels = [l for l, _ in g.levels]
        self.has_async = any(g.nodes[i].is_async for i in self.slot_of)
        self.locks = {}

    def chains(self, level):
        """open chains ending at `level`: skippable levels may be absent, unless last"""
        mids = [l for l in self.levels if self.root_level < l < level]
        out = [[]]
        for l in mids:
            out = [c + [l] for c in out] + ([list(c) for c in out] if self.g.skippable[l] else [])
        return [[self.root_level] + c + ([level] if level != self.root_level else []) for c in out]


def lock_needed(S, node, i):
    """'thread', 'async' or None: what C15 demands for this node"""
    n = S.g.nodes[i]
    if n.life != "S" or n.kind == "instance":
        return None
    a = S.g.requires_async(i)
    mode = n.lock if n.lock != "auto" else ("async" if S.has_async else "thread")
    if mode == "thread" and not a:
        return "thread"
    if mode == "async" and a:
        return "async"
    return None


class Run:
    """one symbolic run of resolve_<slot>/aresolve_<slot> on a receiver at the end of `chain`"""

    def __init__(self, S, p, slot, is_async, chain, cleanup_on=True):
        self.S, self.p, self.slot, self.is_async, self.chain = S, p, slot, is_async, chain
        self.i = S.node_of[slot]
        self.n = S.g.nodes[self.i]
        self.cleanup_on = cleanup_on
        self.log = []            # dependency evaluations: (node, exec level, value)
        self.trans = {}          # id(value) -> (node, exec level) of transient values
        self.calls = []          # provider calls
        self.opened = []
        self.raised = None       # exception produced outside (callee contract, provider, context)
        self.ctx = {}
        self.phase = "body"
        self.interfered = False
        self.build()

    # --- heap
    def build(self):
        S, p = self.S, self.p
        self.obj, self.ms = {}, {}
        prev = None
        mprev = None
        for l in self.chain:
            o = Obj(S.rt.class_by_level[l], f"scope{l}")
            o.lazy = self.lazy
            self.obj[l] = o
            mprev = self.ms[l] = R.MScope(l, mprev, None)
            o.level = l
            f = o.fields
            f["_root_resolver"] = self.obj[S.root_level]
            for ll, sp in S.rt.scopes_by_level.items():
                if ll == S.root_level or ll > l and l != S.root_level:
                    continue
                f[sp.resolver_attr_name] = self.obj[ll] if ll in self.obj else S.MISSING
            f["_context"] = p.fresh("context")
            f["_parent_context_resolver"] = prev
            f["_active"] = True
            f["_cleanup_enabled"] = self.cleanup_on
            f["_cleanup_callbacks"] = []
            prev = o
        self.recv = self.obj[self.chain[-1]]
        self.model = R.Model(S.g, S.root_level)
        self.mrecv = self.ms[self.chain[-1]]

    def lazy(self, p, o, name):
        m = re.fullmatch(r"_cache_(\d+)", name)
        if m and int(m.group(1)) in self.S.node_of:
            k = int(m.group(1))
            if k not in self.S.rt.cache_slots_by_owner_level.get(o.level, ()):
                raise PyRaise(Exc(AttributeError, (name,)))
            if p.choose(2, f"{name}@{o.name} filled") == 1:
                j = self.S.node_of[k]
                v = self.S.w.instances[j] if self.S.g.nodes[j].kind == "instance" else self.value(f"cached{k}")
                o.fields["__filled_" + name] = True
                return v
            return self.S.CACHE_MISSING
        raise Unsupported(f"unknown attribute {name} of {o}")

    def value(self, name):
        v = self.p.fresh(name)
        return v

    # --- contracts used at call sites
    def contract(self, p, f, args, kwargs):
        k = self.S.meth.get(id(f))
        if k is None:
            if id(f) in self.S.ctx_fns:
                return self.context(p, args[0], args[1])
            return NOTIMPL
        slot, a, level = k
        r = args[0]
        if not isinstance(r, Obj) or r.cls is not self.S.rt.class_by_level[level]:
            raise Unsupported("slot method called on a foreign receiver")
        self.rank(p, slot, a, r)
        if a:
            return Coro(lambda: self.outcome(p, slot, True, r), f"aresolve_{slot}")
        return self.outcome(p, slot, False, r)

    def rank(self, p, slot, a, r):
        if slot == self.slot and self.phase == "body":
            ok = r.level < self.recv.level or r is self.recv and self.is_async and not a
            p.must(ok, "rank", f"slot {slot}: calls its own method on the same or a deeper scope (no progress)")
        elif self.phase == "body":
            p.must(self.S.node_of[slot] in self.S.g.reach(self.i), "rank", f"slot {self.slot} evaluates slot {slot}, which is not among its dependencies")

    def outcome(self, p, slot, a, r):
        """contract of (a)resolve_<slot> on scope r"""
        S = self.S
        j = S.node_of[slot]
        n = S.g.nodes[j]
        if n.kind == "instance":
            self.log.append((j, None, S.w.instances[j]))
            return S.w.instances[j]
        try:
            E = self.model.exec_scope(self.ms[r.level], j)
        except R.MErr:
            self.throw(Exc(STRUCT[R.E_SCOPE], ()))
        o = self.obj[E.level]
        need = S.g.requires_async(j) and not a
        if n.life == "S":
            cell = p.getattr(o, f"_cache_{slot}")
            if cell is not S.CACHE_MISSING:
                if need and p.choose(2, "cached async refused") == 1:
                    self.throw(Exc(STRUCT[R.E_ASYNC], ()))
                self.log.append((j, E.level, cell))
                return cell
        if need:
            self.throw(Exc(STRUCT[R.E_ASYNC], ()))
        if p.choose(2, f"slot {slot} fails") == 1:
            self.throw(p.exc(f"failure of slot {slot}"))
        v = self.value(f"val{slot}")
        if n.life == "S":
            o.fields[f"_cache_{slot}"] = v
        else:
            self.trans[id(v)] = (j, E.level)
        self.log.append((j, E.level, v))
        return v

    def throw(self, e):
        self.raised = e
        raise PyRaise(e)

    def context(self, p, r, key):
        k = (id(r), key)
        if k not in self.ctx:
            self.ctx[k] = None if p.choose(2, "context missing") == 1 else (self.value("ctx"),)
        if self.ctx[k] is None:
            self.throw(Exc(STRUCT[R.E_MISSING], ()))
        return self.ctx[k][0]

    # --- user code
    def provider(self, j):
        def call(p, args, kwargs):
            self.check_call(p, j, args, kwargs)
            self.calls.append((j, args, kwargs))
            n = self.S.g.nodes[j]
            if n.kind in ("concrete", "factory"):
                if n.is_async:
                    aw = self.value(f"awaitable{j}")
                    aw.awaited = lambda p: self.made(p, j)
                    return aw
                return self.made(p, j)
            if n.kind == "cm":
                if p.choose(2, "provider raises") == 1:
                    self.throw(p.exc("provider"))
                return self.cm(p, j)
            # a generator used without the context-manager wrapper
            g = self.value(f"gen{j}")
            g.tag = "gen"
            it = Obj(None, f"gen{j}")
            it.fields["__anext__" if n.is_async else "__next__"] = _model(
                (lambda: Coro(lambda: self.made(p, j), "anext")) if n.is_async else (lambda: self.made(p, j)))
            return it
        return call

    def made(self, p, j):
        if p.choose(2, "provider raises") == 1:
            self.throw(p.exc("provider"))
        v = self.value(f"new{j}")
        self.opened.append((j, v, None))
        if self.S.g.nodes[j].life == "T":
            self.trans[id(v)] = (j, None)
        return v

    def cm(self, p, j):
        n = self.S.g.nodes[j]
        o = Obj(None, f"cm{j}")
        ex = self.value(f"exit{j}")

        def enter():
            if p.choose(2, "enter raises") == 1:
                self.throw(p.exc("enter"))
            v = self.value(f"new{j}")
            self.opened.append((j, v, ex))
            if n.life == "T":
                self.trans[id(v)] = (j, None)
            return v
        pre = "__a" if n.is_async else "__"
        o.fields[pre + "enter__"] = _model((lambda: Coro(enter, "aenter")) if n.is_async else enter)
        o.fields[pre + "exit__"] = ex
        o.lazy = lambda p, o, name: (_ for _ in ()).throw(Unsupported(f"attribute {name} of a context manager"))
        return o

    def wrap_cm(self, is_async):
        def wrap(p, args, kwargs):
            prov = args[0]
            j = next((j for j, q in self.S.w.provs.items() if q is prov), None)
            if j is None:
                raise Unsupported("contextmanager of something else")
            p.must(self.S.g.nodes[j].is_async == is_async, "async", f"node {j}: wrong kind of context manager wrapper")

            def make(p, args, kwargs):
                self.check_call(p, j, args, kwargs)
                self.calls.append((j, args, kwargs))
                return self.cm(p, j)
            f = self.value(f"cmfactory{j}")
            f.on_call = make
            return f
        return wrap

    # --- checks at the provider call
    def owner_cell(self):
        if self.n.life != "S" or self.n.kind == "instance":
            return None
        o = self.obj.get(self.n.level)
        return o

    def check_call(self, p, j, args, kwargs):
        if j != self.i:
            # a dependency built in place: only dependency-free transients of this very level may be
            n = self.S.g.nodes[j]
            raise_ = n.life == "T" and all(d.wrap == "none" for d in n.deps) and n.level <= self.recv.level
            p.must(raise_ and j in self.S.g.reach(self.i), "once", f"slot {self.slot}: provider of node {j} called directly")
            p.must(not args and not kwargs, "args", f"node {j} called with arguments")
            p.must(not n.inject, "args", f"node {j}: an injected callable is called without its resolver")
            return
        p.must(self.phase == "body", "once", "provider called by a deferred handle")
        p.must(not any(c[0] == j for c in self.calls), "once", f"slot {self.slot}: provider called twice")
        o = self.owner_cell()
        if o is not None and (o.fields.get("__filled__cache_%d" % self.slot) or self.interfered):
            p.must(False, "once", f"slot {self.slot}: provider called although the cell is filled")
        E = self.exec_level(p)
        p.must(E is not None, "scope", f"slot {self.slot}: provider called although its scope is not open")
        if not self.is_async:
            p.must(not self.S.g.requires_async(j), "async", f"slot {self.slot} requires async but its provider is called in sync mode")
        self.check_args(p, E, args, kwargs)
        need = lock_needed(self.S, self.n, j)
        if need:
            held = [l for l in p.held if islock(l) and (isinstance(l, asyncio.Lock) == (need == "async"))]
            p.must(bool(held), "lock", f"slot {self.slot}: provider runs without its {need} lock")
            same = self.S.locks.setdefault((self.slot, E if False else 0), held[0])
            p.must(any(l is same for l in held), "lock", f"slot {self.slot}: different locks guard the same slot")

    def exec_level(self, p):
        try:
            return self.model.exec_scope(self.mrecv, self.i).level
        except R.MErr:
            return None

    # --- arguments
    def check_args(self, p, E, args, kwargs):
        deps = self.n.deps
        got = {}
        pos = list(args)
        kw = dict(kwargs)
        spread_kw = kw.pop(SPREAD, None)
        name = f"slot {self.slot}"
        if self.n.inject:
            p.must("diwire_resolver" in kw, "args", f"{name}: an injected callable is called without its resolver")
            r = kw.pop("diwire_resolver")
            p.must(r is self.obj.get(E), "args", f"{name}: the injected callable resolves in {r!r} instead of the scope of its dependencies, level {E}")
        for d in deps:
            if d.pkind in ("PO", "PK"):
                if pos and not isinstance(pos[0], Spread):
                    p.must(d.name not in kw or d.pkind == "PO", "args", f"{name}: parameter {d.name} receives two values")
                    got[d.name] = pos.pop(0)
                elif d.name in kw and d.pkind == "PK":
                    got[d.name] = kw.pop(d.name)
                elif pos:
                    p.must(False, "args", f"{name}: parameter {d.name} is filled from a spread value")
            elif d.pkind == "VP":
                if pos:
                    got[d.name] = pos
                    pos = []
            elif d.pkind == "KO":
                if d.name in kw:
                    got[d.name] = kw.pop(d.name)
            else:
                if spread_kw:
                    got[d.name] = spread_kw
                    spread_kw = None
        p.must(not pos and not kw and not spread_kw, "args", f"{name}: unexpected arguments {pos} {kw}")
        dropped_po = False
        used = set()
        for d in deps:
            w = self.expect(p, d, E)
            if d.pkind == "PO" and dropped_po:
                w = ("omit",)
            if w[0] == "omit" and d.pkind == "PO":
                dropped_po = True
            if w[0] == "omit":
                p.must(d.name not in got, "args", f"{name}: parameter {d.name} must be left to its default, got {got.get(d.name)!r}")
                continue
            if d.pkind in ("VP", "VK") and w[0] == "lit":
                v = got.get(d.name)
                p.must(v in (None, [], {}, [{}]), "args", f"{name}: *{d.name} must be empty")
                continue
            if d.pkind == "VP" and w == ("all", []) and d.name not in got:
                continue
            p.must(d.name in got, "args", f"{name}: parameter {d.name} receives nothing")
            v = got[d.name]
            if d.pkind == "VP":
                if w[0] == "all":
                    self.same(p, w, tuple(v), d, E, used)
                    continue
                p.must(len(v) == 1 and isinstance(v[0], Spread), "args", f"{name}: *{d.name} must receive the items of its dependency")
                v = v[0].v
            elif d.pkind == "VK":
                p.must(len(v) == 1, "args", f"{name}: **{d.name}")
                v = v[0]
            self.same(p, w, v, d, E, used)
        # no transient dependency may have been built and not been used (or used twice)
        built = [v for (j, l, v) in self.log if id(v) in self.trans] + [v for (j, v, _) in self.opened if j != self.i]
        p.must(len(built) == len(used), "once", f"{name}: {len(built)} transient dependencies were built, {len(used)} are needed")

    def expect(self, p, d, E):
        g = self.S.g
        if d.wrap == "none":
            return ("omit",)
        if d.wrap == "ctx":
            return ("ctx", d.key)
        if d.wrap in ("prov", "aprov"):
            return ("handle", g.by_key[d.key], d.wrap == "aprov")
        if d.wrap == "all":
            return ("all", g.all_of(d.key))
        j = g.by_key.get(d.key)
        if j is None:
            return ("omit",) if d.default else ("lit", None)
        return ("node", j)

    def same(self, p, w, v, d, E, used):
        name = f"slot {self.slot}: parameter {d.name}"
        if w[0] == "lit":
            p.must(v is None, "args", f"{name} must be None, got {v!r}")
        elif w[0] == "ctx":
            c = self.ctx.get((id(self.obj[E]), self.S.w.base(w[1])))
            p.must(c is not None and c[0] is v, "args", f"{name} must be the context value of the execution scope, got {v!r}")
        elif w[0] == "all":
            p.must(isinstance(v, tuple) and len(v) == len(w[1]), "args", f"{name} must be a tuple of {len(w[1])} values, got {v!r}")
            for j, x in zip(w[1], v):
                self.node_value(p, j, x, E, name, used)
        elif w[0] == "node":
            self.node_value(p, w[1], v, E, name, used)
        else:
            self.handle(p, w[1], w[2], v, E, name)

    def node_value(self, p, j, v, E, name, used):
        n = self.S.g.nodes[j]
        if n.kind == "instance":
            p.must(v is self.S.w.instances[j], "args", f"{name} must be the registered instance")
            return
        try:
            X_ = self.model.exec_scope(self.ms[E], j)
        except R.MErr:
            p.must(False, "scope", f"{name}: a value was passed although the dependency's scope is not open")
        if n.life == "S":
            p.must(v is self.obj[X_.level].fields.get(f"_cache_{self.S.slot_of[j]}"), "args",
                   f"{name} must be the value of node {j} of scope level {X_.level}, got {v!r}")
            return
        t = self.trans.get(id(v))
        p.must(t is not None and t[0] == j, "args", f"{name} must be a new value of node {j}, got {v!r}")
        if t[1] is not None:
            p.must(t[1] == X_.level, "scope", f"{name} was built in scope level {t[1]}, expected {X_.level}")
        p.must(id(v) not in used, "once", f"{name}: transient value used twice")
        used.add(id(v))

    def handle(self, p, j, is_async, v, E, name):
        """calling the handle resolves node j in the execution scope"""
        save, self.phase, rs = self.log, "handle", self.raised
        self.log = []
        try:
            r = p.call(v, [], {})
            if is_async:
                r = p.await_(r)
            p.must(not isinstance(r, Coro), "async", f"{name}: the handle returns a coroutine")
            used = set()
            self.node_value(p, j, r, E, name + " (called)", used)
        except PyRaise as e:
            p.must(e.exc is self.raised, "args", f"{name}: calling the handle raises {e.exc!r}")
        finally:
            self.log, self.phase, self.raised = save, "body", rs
            for k in list(self.trans):
                pass
        # forget what the handle built
        self.log = save

    # --- the whole run
    def go(self):
        S, p = self.S, self.p
        p.contracts = [self.contract]
        p.never = {id(x): x for x in S.sentinels}
        for j, q in S.w.provs.items():
            p.opaque[id(q)] = self.provider(j)
        p.opaque[id(contextlib.contextmanager)] = self.wrap_cm(False)
        p.opaque[id(contextlib.asynccontextmanager)] = self.wrap_cm(True)
        need = lock_needed(S, self.n, self.i)

        def on_lock(p, lock, acq):
            o = self.owner_cell()
            if acq and need and o is not None and o.fields.get(f"_cache_{self.slot}", S.CACHE_MISSING) is S.CACHE_MISSING:
                if p.choose(2, "another worker built it meanwhile") == 1:
                    o.fields[f"_cache_{self.slot}"] = self.value("other")
                    self.interfered = True
        p.on_lock = on_lock
        f = self.recv.cls.__dict__[("aresolve_" if self.is_async else "resolve_") + str(self.slot)]
        c = p.clo_of(f)
        name = f"{'a' if self.is_async else ''}resolve_{self.slot} at level {self.chain[-1]} (open {self.chain})"
        exc = None
        try:
            r = p.call_clo(c, [self.recv], {})
            if self.is_async:
                r = p.await_(r)
        except PyRaise as e:
            exc = e.exc
        p.must(not p.held, "lock", f"{name}: a lock stays held")
        kinds = self.kinds()
        own = self.exec_level(p)
        # frame / cells
        o = self.owner_cell()
        cachename = f"_cache_{self.slot}"
        for ev in p.events:
            if ev[0] == "set" and isinstance(ev[1], Obj) and ev[1] in self.obj.values():
                if ev[2] == cachename and ev[1] is o:
                    continue
                if re.fullmatch(r"a?resolve_\d+", ev[2]):
                    self.override(p, ev[1], ev[2], ev[3], name, exc)
                    continue
                if ev[2] == cachename and self.n.kind == "instance" and ev[1].level == S.root_level:
                    p.must(ev[3] is S.w.instances[self.i], "cell", f"{name}: writes {ev[3]!r} into the cell of an instance")
                    continue
                if ev[2].startswith("_cache_"):
                    p.must(False, "frame", f"{name}: writes {ev[2]} of {ev[1]}")
                raise Unsupported(f"write to {ev[2]}")
        sets = [ev for ev in p.events if ev[0] == "set" and ev[1] is o and ev[2] == cachename]
        pushed = [(l, it) for l, ob in self.obj.items() for it in ob.fields["_cleanup_callbacks"]]
        if exc is not None:
            if exc is not self.raised:
                ok = exc.cls is not None and any(issubclass(exc.cls, STRUCT[k]) for k in kinds)
                p.must(ok, "error", f"{name}: raises {exc!r} {exc.args}, allowed structural errors {sorted(kinds)}")
                p.must(not self.calls, "error", f"{name}: raises {exc!r} after the provider was called")
            p.must(not sets, "cell", f"{name}: failed but wrote its cell")
            p.must(not pushed or self.opened and len(pushed) == len([x for x in self.opened if x[2] is not None]), "cleanup", f"{name}: failed but pushed a cleanup callback")
            return
        p.must(self.raised is None, "error", f"{name}: swallowed {self.raised!r}")
        p.must(not isinstance(r, Coro), "async", f"{name}: returns a coroutine")
        if self.n.kind == "instance":
            p.must(r is S.w.instances[self.i], "value", f"{name}: must return the registered instance")
            p.must(not self.calls and not pushed, "once", f"{name}: evaluated something for an instance")
            return
        p.must(own is not None, "scope", f"{name}: returns a value although its scope is not open")
        mine = [c for c in self.calls if c[0] == self.i]
        deleg = [(l, v) for (j, l, v) in self.log if j == self.i]
        if not self.is_async and S.g.requires_async(self.i):
            hit = o is not None and r is o.fields.get(cachename)
            p.must(hit and not mine, "async", f"{name}: an async-requiring slot was resolved in sync mode")
        if deleg:
            p.must(len(deleg) == 1 and not mine and len(self.log) == 1, "once", f"{name}: delegates and evaluates more")
            p.must(r is deleg[0][1], "value", f"{name}: returns {r!r} instead of the delegate's value")
            p.must(deleg[0][0] == own, "scope", f"{name}: delegated to scope level {deleg[0][0]}, its scope is {own}")
            p.must(not sets and not pushed, "frame", f"{name}: delegates but changes state")
            return
        if self.n.life == "S":
            p.must(r is o.fields.get(cachename), "value" if not mine else "cell", f"{name}: the result {r!r} is not the value of the cell {o.fields.get(cachename)!r}")
            if o.fields.get("__filled_" + cachename) or self.interfered:
                p.must(not mine and (not self.log or self.interfered) and not sets, "once", f"{name}: the cell is filled but something was evaluated or written")
                return
        p.must(len(mine) == 1, "once", f"{name}: the provider was called {len(mine)} times")
        ops = [x for x in self.opened if x[0] == self.i]
        p.must(len(ops) == 1 and ops[0][1] is r, "value", f"{name}: returns {r!r}, not the provider's value")
        if self.n.kind in ("generator", "cm") and self.cleanup_on:
            p.must(len(pushed) == 1, "cleanup", f"{name}: {len(pushed)} cleanup callbacks pushed for one resource")
            l, it = pushed[0]
            p.must(l == self.n.level, "cleanup", f"{name}: cleanup pushed on scope level {l}, the resource belongs to level {self.n.level}")
            p.must(isinstance(it, tuple) and len(it) == 2 and it[1] is ops[0][2] and bool(it[0]) == self.n.is_async, "cleanup",
                   f"{name}: the pushed entry {it!r} does not close this resource")
        else:
            p.must(not pushed, "cleanup", f"{name}: a cleanup callback was pushed without a resource")

    def override(self, p, o, attr, v, name, exc):
        """an instance-level replacement of a slot method must return the cell's value"""
        p.must(exc is None, "cell", f"{name}: replaces {attr} although it failed")
        k = int(attr.rsplit("_", 1)[1])
        own = k == self.slot and o.level == self.S.root_level and (o is self.owner_cell() or self.n.kind == "instance")
        p.must(own, "frame", f"{name}: replaces {attr} of {o}")
        r = p.call(v, [], {})
        if attr.startswith("a"):
            r = p.await_(r)
        p.must(r is o.fields.get(f"_cache_{k}"), "cell", f"{name}: the replacement of {attr} returns {r!r}")

    def kinds(self):
        m = R.Model(self.S.g, self.S.root_level)
        ks = set()
        try:
            m.context = lambda s, k: None
            m.resolve_node(self.mrecv, self.i, R.ASYNC if self.is_async else R.SYNC)
            ks = set(m.may)
        except R.MErr as e:
            ks = e.kinds
        ks.discard(R.E_FAULT)
        return ks


# ------------------------------------------------------------------ enumeration of shapes
def prove_graph(eng, S, only=None):
    """yields (obligation group, Result, what) for every slot method of the compiled graph"""
    from diwire._internal.resolvers.assembly import compiler as comp
    S.MISSING, S.CACHE_MISSING = comp._MISSING_RESOLVER, comp._MISSING_CACHE
    S.sentinels = sentinels(comp)
    for slot, i in S.node_of.items():
        if only is not None and not only(S.g.nodes[i]):
            continue
        for level in S.levels:
            for chain in S.chains(level):
                for a in (False, True):
                    def setup(p, slot=slot, a=a, chain=chain):
                        Run(S, p, slot, a, chain).go()
                    yield (slot, a, chain), eng.explore(setup)


# ------------------------------------------------------------------ units
KINDS = ("PO", "PK", "VP", "KO", "VK")
FORMS = ("plainT", "plainS", "inst", "omit", "lit", "maybe", "none", "ctx", "all", "all0", "prov", "aprov", "async")
PER = 6


@functools.lru_cache(None)
def shapes(n):
    """every signature of n declared parameters: kinds in the order Python demands, every form of dependency on each"""
    out = []
    for ks in itertools.combinations_with_replacement(KINDS, n):
        if ks.count("VP") > 1 or ks.count("VK") > 1:
            continue
        for fs in itertools.product(FORMS, repeat=n):
            if any(k in ("VP", "VK") and f in ("prov", "aprov", "none") or k == "VK" and f in ("all", "all0") for k, f in zip(ks, fs)):
                continue
            out.append(tuple(zip(ks, fs)))
    return out


def shape_deps(shape):
    deps, dflt = [], False
    for j, (k, f) in enumerate(shape):
        w, key = dict(plainT=("plain", (100, None)), plainS=("plain", (101, None)), inst=("plain", (102, None)), omit=("maybe", (998, None)), lit=("maybe", (998, None)),
                      maybe=("maybe", (101, None)), none=("none", (0, None)), ctx=("ctx", ("ctx", j % 3)), all=("all", (7, None)), all0=("all", (999, None)),
                      prov=("prov", (101, None)), aprov=("aprov", (100, None)), **{"async": ("plain", (103, None))})[f]
        d = R.Dep(f"p{j}", k, w, key)
        if k not in ("VP", "VK"):
            d.default = f in ("none", "omit")
        if k in ("PO", "PK"):
            d.default = dflt = d.default or dflt
        deps.append(d)
    return deps


def shape_graph(index, n):
    rng = random.Random(index)
    root = rng.choice((1, 1, 3))
    nodes = [R.Node((100, None), "concrete", life="T", level=root), R.Node((101, None), "factory", life="S", level=root), R.Node((102, None), "instance", life="S", level=root),
             R.Node((103, None), "factory", is_async=True, life=rng.choice("TS"), level=root), R.Node((7, "a"), "concrete", life="T", level=root),
             R.Node((7, None), "factory", life="S", level=root)]
    for i, sh in enumerate(shapes(n)[index * PER:index * PER + PER]):
        kind = rng.choice(("factory", "factory", "concrete", "generator", "cm"))
        nd = R.Node((110 + i, None), kind, life=rng.choice("TTS"), level=rng.choice((root, root, 4)), lock=rng.choice(("auto", "auto", "none")), variant=rng.randrange(2))
        nd.is_async = kind != "concrete" and rng.random() < .25
        nd.deps = shape_deps(sh)
        nd.inject = lab.injectable(nd) and rng.random() < .4
        lab.fix_signature(nd, nodes)
        nodes.append(nd)
    return R.Graph(nodes, [(l, l == 2) for l in (1, 2, 3, 4, 5) if l >= root]), root


@functools.lru_cache(None)
def pairs():
    """every consumer with one dependency: kind, lifetime, level, async and lock mode of both, every form of the dependency"""
    prov = [(k, life, lv, a) for k in ("concrete", "factory", "generator", "cm") for life in "ST" for lv in (0, 1, 2) for a in (False, True) if not (a and k == "concrete")]
    deps = [("instance", "S", 0, False), ("below", "T", 0, False), ("below", "S", 1, False), ("below", "T", 1, False)] + prov
    out = [(c, d, w, lk) for c in prov for d in deps for w in ("plain", "all", "prov") for lk in ("auto", "none")]
    random.Random(5).shuffle(out)
    return out


def pair_graph(index):
    rng = random.Random(index)
    root = rng.choice((1, 1, 3))
    lv = [root, 4, 5] if root == 3 else rng.choice(([1, 3, 4], [1, 2, 3], [1, 3, 5], [1, 2, 5]))
    nodes = []
    for i, (c, d, w, lk) in enumerate(pairs()[index * PER:index * PER + PER]):
        key = (200 + i, None)
        if w == "prov" and lv[d[2]] > lv[c[2]]:
            w = "plain"              # refused when the graph is compiled
        if d[0] == "instance":
            nodes.append(R.Node(key, "instance", life="S", level=root))
        else:
            dn = R.Node(key, "factory" if d[0] == "below" else d[0], life=d[1], level=lv[d[2]], is_async=d[3], lock=rng.choice(("auto", "auto", "thread", "async", "none")), variant=rng.randrange(2))
            if d[0] == "below":          # a provider that itself needs a deeper scope
                nodes.append(R.Node((300 + i, None), "factory", life=rng.choice("ST"), level=lv[2], is_async=rng.random() < .3))
                dn.deps = [R.Dep("p0", "PK", "plain", (300 + i, None))]
            elif rng.random() < .2:
                dn.deps = [R.Dep("p0", "PK", "ctx", ("ctx", i % 3))]
            nodes.append(dn)
        k, life, l, a = c
        nd = R.Node((110 + i, None), k, is_async=a, life=life, level=lv[l], lock=lk, variant=rng.randrange(2))
        nd.deps = [R.Dep("p0", "PK", w, key)]
        if rng.random() < .3:
            nd.deps.append(R.Dep("p1", rng.choice(("PK", "KO")), rng.choice(("plain", "all", "maybe")), (200 + rng.randrange(i + 1), None)))
        for x in nodes[-1], nd:
            x.inject = lab.injectable(x) and rng.random() < .25
        nodes.append(nd)
    g = R.Graph(nodes, [(l, l == 2) for l in (1, 2, 3, 4, 5) if l >= root])
    return None if g.compile_errors() else (g, root)


def graph_of(seed, over):
    if "pairs" in over:
        r = pair_graph(seed)
        return r and (*r, seed % 3 == 0, dict(lab.BASE))
    if "shapes" in over:
        g, root = shape_graph(seed, over["shapes"])
        return g, root, seed % 3 == 0, dict(lab.BASE)
    rng = random.Random(seed)
    P = dict(lab.BASE, **dict(dict(n=(2, 5)), **over))
    root = lab.pick(rng, P["roots"])
    for _ in range(20):
        g = lab.gen_graph(rng, P, root)
        if not g.compile_errors():
            return g, root, rng.random() < .3, P
    return None


def units(tier, seed, opts):
    n = opts.get("graphs", (320, 6000))[tier != "quick"]
    base = (seed * 1_000_003 + opts.get("salt", 0) * 7919) % 2**31
    step = max(4, n // 64)
    us = [(base + a, base + min(n, a + step), opts.get("profile", {})) for a in range(0, n, step)]
    if opts.get("shapes"):
        # every signature of one and two parameters (thorough: three), and a sample of the longer ones
        for k in (1, 2, 3):
            m = -(-len(shapes(k)) // PER)
            if k < 3 or tier != "quick":
                us += [(a, min(m, a + 12), dict(shapes=k)) for a in range(0, m, 12)]
            else:
                o = random.Random(base).randrange(m)
                us += [((o + 37 * i) % m, (o + 37 * i) % m + 1, dict(shapes=k)) for i in range(opts["shapes"])]
    if opts.get("pairs"):
        m = -(-len(pairs()) // PER)
        q = min(m, opts["pairs"]) if tier == "quick" else m
        o = random.Random(base).randrange(m)
        us += [((o + i) % m, min(m, (o + i) % m + min(6, q - i)), dict(pairs=1)) for i in range(0, q, 6)]
    return us


def run(params, deadline, col):
    import time
    lo, hi, over = params
    for seed in range(lo, hi):
        if time.time() > deadline:
            break
        gg = graph_of(seed, over)
        if gg is None:
            continue
        g, root, cleanup, P = gg
        eng = Engine()
        try:
            S = Setup(g, root, cleanup)
        except Exception as e:
            col.undecided("setup", f"{type(e).__name__}: {e}")
            continue
        col.program(lambda: [lab.describe(n) for n in g.nodes])
        it = prove_graph(eng, S, (lambda nd: 110 <= nd.key[0] < 200) if "shapes" in over or "pairs" in over else None)
        while True:
            try:
                (slot, a, chain), r = next(it)
            except StopIteration:
                break
            except Exception as e:
                col.undecided("internal", f"{type(e).__name__}: {e}")
                break
            col.result(f"{'a' if a else ''}resolve_<k> of {lab.describe(g.nodes[S.node_of[slot]])} open levels {chain}", r,
                       lambda: replay(seed, over))
        col.engine(eng)


def replay(seed, over, n=250, seconds=12):
    """search a concrete history on the very graph of the failed obligation, on the real code"""
    import time
    g, root, cleanup, P = graph_of(seed, over)
    t = time.time()
    for h in range(n):
        rng = random.Random(h)
        opts = dict(root_level=root, og=False, cleanup=cleanup, ctx=False, noise=lab.NoNoise())
        r = lab.run_graph(g, opts, rng, P)
        if r is not None:
            return dict(category=r[0], message=r[1], log=[str(x) for x in r[2]], history=h)
        if time.time() - t > seconds:
            return None
    return None
