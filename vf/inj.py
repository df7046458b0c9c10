"""Injected callables (C13): argument supply x current scope x target scope x completion, against the model.

Bounded stand-in: samples graphs, callables and calls from a seed.
"""
from __future__ import annotations
import inspect, random
from . import refmodel as R, lab
from .lab import (Sim, Diverge, Stop, DFLT, LEVELS, SYNC, ASYNC, Leave, Val, pick, run, err_kind, describe, Injected, FromContext,
                  FinErr, FinBase, X)
from .refmodel import Dep, Node, Graph, Model, MErr, MObj

IBASE = dict(lab.BASE, n=(2, 5), steps=(4, 10), p_fault=.05, p_fin=.15, p_og=.25, roots=[(1, 8), (3, 1)], wraps=[("plain", 10), ("maybe", 1.5), ("all", 1.2), ("prov", 1), ("aprov", .7), ("ctx", .4), ("none", .5)], p_async=.15,
             iops=[("call", 7), ("enter", 2), ("resolve", 1), ("close", .7)], nfun=(1, 3), p_boom=.3)


class Boom(Exception):
    pass


class Fn:
    pass


class ISim(Sim):
    def make_fn(self, rng):
        g = self.g
        f = Fn()
        f.is_async = rng.random() < .5
        keys = [n.key for n in g.nodes]
        f.params = []
        kinds = sorted((rng.choice(["PK", "PK", "KO", "PO"]) for _ in range(rng.randint(1, 5))), key=["PO", "PK", "KO"].index)
        dflt = False
        for j, pk in enumerate(kinds):
            role = pick(rng, [("plain", 3), ("inj", 5), ("ctx", 1.5)])
            d = Dep(f"p{j}", pk, "none", (0, None))
            d.role = role
            if role == "inj":
                d.wrap = pick(rng, [("plain", 6), ("maybe", 2), ("all", 1), ("prov", .7), ("aprov", .5)])
                d.key = rng.choice(keys) if rng.random() < .93 or d.wrap in ("prov", "aprov") else (997, None)
                if d.wrap == "all":
                    d.key = (d.key[0], None)
                if d.wrap == "maybe" and rng.random() < .4:
                    d.key = (997, None)
                d.default = rng.random() < .3
            elif role == "ctx":
                d.wrap, d.key = "ctx", ("ctx", rng.randrange(3))
                d.default = rng.random() < .2
            else:
                d.default = rng.random() < .4
            if pk in ("PO", "PK"):
                d.default = d.default or dflt
                dflt = d.default
            f.params.append(d)
        # positional-only parameters behind an omitted one cannot be passed: not exercised
        po = [d for d in f.params if d.pkind == "PO"]
        for k, d in enumerate(po):
            if d.role == "plain" and d.default or d.wrap == "maybe":
                for e in po[k + 1:]:
                    e.pkind = "PK"
        if any(d.pkind == "PK" for d in f.params):
            first = next(j for j, d in enumerate(f.params) if d.pkind == "PK")
            for d in f.params[first:]:
                if d.pkind == "PO":
                    d.pkind = "PK"
        f.level = rng.choice([None, None] + [l for l, _ in g.levels])
        f.auto = rng.random() < .8
        ns = {"_DFLT": DFLT, "calls": [], "box": f}
        parts, star = [], False
        for j, d in enumerate(f.params):
            if d.pkind == "KO" and not star:
                parts.append("*")
                star = True
            p = d.name
            if d.role != "plain":
                a = self.w.ann(d)
                if d.role == "inj":
                    a = Injected[a]
                if self.w.noise.random() < .12:
                    import typing
                    a = typing.Annotated[a, "x"]
                ns[f"_A_{d.name}"] = a
                p += f": _A_{d.name}"
            if d.default:
                p += " = _DFLT"
            parts.append(p)
            if d.pkind == "PO" and (j + 1 == len(f.params) or f.params[j + 1].pkind != "PO"):
                parts.append("/")
        body = "    box.calls.append({" + ", ".join(f"{d.name!r}: {d.name}" for d in f.params) + "})\n"
        body += "    box.live.append(list(box.fins))\n"
        if f.is_async:
            body += "    await Y()\n"
        body += "    if box.boom is not None: raise box.boom\n    return box.token\n"
        ns["Y"] = lab.Y
        exec(f"{'async ' if f.is_async else ''}def fn({', '.join(parts)}):\n{body}", ns)
        f.desc = f"fn({', '.join(f'{d.name}:{d.pkind}:{d.role}:{d.wrap}{d.key}' + ('=' if d.default else '') for d in f.params)}) scope={f.level} auto_open={f.auto} async={f.is_async}"
        kw = {"auto_open_scope": f.auto}
        if f.level is not None:
            kw["scope"] = LEVELS[f.level]
        need = max([self.m.root.level] + [infer(g, d, self.m.root.level) for d in f.params if d.role == "inj"])
        f.need = need
        self.log.append("inject " + f.desc)
        try:
            f.fn = self.w.rc.inject(**kw)(ns["fn"])
        except X.DIWireInvalidRegistrationError as e:
            if f.level is not None and f.level < need:
                return None
            raise Diverge("inject", f"inject raised {e}")
        if f.level is not None and f.level < need:
            raise Diverge("inject", f"inject accepted scope level {f.level} although level {need} is required")
        pub = inspect.signature(f.fn)
        want = [d.name for d in f.params if d.role == "plain"]
        if list(pub.parameters) != want:
            raise Diverge("signature", f"public signature {list(pub.parameters)}, expected {want}")
        return f

    def call(self, f, rng):
        g = self.g
        si = rng.randrange(len(self.scopes)) if rng.random() < .8 else 0
        while self.scopes[si][1].closed:
            si = rng.randrange(len(self.scopes))
        real, ms = self.scopes[si]
        explicit = si != 0 or rng.random() < .5 or not self.w.ctx
        # what the caller supplies
        args, kwargs, given = [], {}, {}
        pos = [d for d in f.params if d.pkind in ("PO", "PK")]
        npos = rng.choice([0, 0, rng.randint(0, len(pos))])
        # required plain positional-only parameters must be given
        for k, d in enumerate(pos):
            if d.pkind == "PO" and d.role == "plain" and not d.default:
                npos = max(npos, k + 1)
        for d in pos[:npos]:
            v = Val("arg" + d.name) if rng.random() < .8 else None
            args.append(v)
            given[d.name] = v
        for d in f.params:
            if d.name in given or d.pkind == "PO":
                continue
            if d.role == "plain" and not d.default or rng.random() < (.3 if d.role == "plain" else .15):
                v = Val("kw" + d.name) if rng.random() < .8 else None
                kwargs[d.name] = v
                given[d.name] = v
        ctx = None
        if rng.random() < .45:
            ctx = {k: rng.choice([Val(f"c{k}"), Val(f"c{k}")] + ([] if self.spread else [None, 0])) for k in range(3) if rng.random() < .75}
            kwargs["diwire_context"] = {self.w.base(("ctx", k)): v for k, v in ctx.items()}
        if explicit:
            kwargs["diwire_resolver"] = real
        f.boom = Boom("boom") if rng.random() < self.P["p_boom"] else None
        f.calls, f.live, f.token, f.fins = [], [], object(), self.w.ctl.fins
        what = f"call {f.desc} from scope#{si} level {ms.level} given={sorted(given)} context={sorted(ctx) if ctx is not None else None} raises={f.boom is not None} explicit={explicit}"
        self.log.append(what)
        mode = ASYNC if f.is_async else SYNC
        ctl = self.w.ctl
        ctl.events = []
        del ctl.fins[:]
        f.fins = ctl.fins
        try:
            res = f.fn(*args, **kwargs)
            if f.is_async:
                res = run(res)
            err = None
        except (Exception, FinBase) as e:
            res, err = None, e
        opened = []

        def model():
            self.m.built, self.m.may = [], set()
            target = None if not f.auto else f.level if f.level is not None else f.need
            s = ms
            if target is not None and target > ms.level:
                s = self.m.enter(ms, target, {("ctx", k): v for k, v in ctx.items()} if ctx is not None else None)
                opened.append(s)
            elif ctx is not None:
                raise MErr({R.E_REG})
            built, may, kinds, vals = [], set(), set(), {}
            for d in f.params:
                if d.name in given:
                    vals[d.name] = given[d.name]
                    continue
                if d.role == "plain":
                    vals[d.name] = R.DEFAULT
                    continue
                try:
                    if d.wrap == "maybe" and d.key not in g.by_key:
                        vals[d.name] = R.DEFAULT if d.default else None
                    else:
                        vals[d.name] = self.m.resolve(s, "plain" if d.wrap == "maybe" else d.wrap, d.key, mode)
                except MErr as e:
                    kinds |= e.kinds
                built += self.m.built
                may |= self.m.may
                self.m.built, self.m.may = [], set()
            self.m.built, self.m.may = built, may
            if kinds:
                raise MErr(kinds)
            return _Vals([vals[d.name] for d in f.params])
        if len(f.calls) > 1:
            raise Diverge("call", f"{what}: the function ran {len(f.calls)} times")
        if f.calls:
            out = ("ok", _Vals([f.calls[0][d.name] for d in f.params]))
        else:
            if err is None:
                raise Diverge("call", f"{what}: returned without calling the function")
            out = ("err", err)
        fins = list(ctl.fins)
        try:
            self.settle(out, model, what)
        except Stop:
            raise
        leaving = f.boom if f.calls else err
        # resources of the opened scopes
        want = []
        if opened:
            s = opened[0]
            for sc in [s] + list(reversed(s.owned)):
                want += sorted(sc.resources, key=lambda o: -ctl.opened[id(o.real)])
                sc.closed = True
        if f.calls and f.live[0]:
            raise Diverge("close", f"{what}: resources {[o.node for o, _ in f.live[0]]} were closed before the function ran")
        if [id(o) for o, _ in fins] != [id(o.real) for o in want]:
            raise Diverge("close", f"{what}: closed {[o.node for o, _ in fins]} after the call, expected {[o.node for o in want]}")
        for o, e in fins:
            if e is not leaving:
                raise Diverge("close", f"{what}: finaliser received {e!r}, expected {leaving!r}")
        if f.calls:
            if f.boom is not None:
                if err is not f.boom:
                    raise Diverge("call", f"{what}: the function's exception became {err!r}")
            else:
                bad = [o for o in want if g.nodes[o.node].fin]
                if bad:
                    t = {"E": FinErr, "B": FinBase}[g.nodes[bad[0].node].fin]
                    if not isinstance(err, t) or err.args != (bad[0].node,):
                        raise Diverge("close", f"{what}: raised {err!r}, expected the first finaliser error")
                elif err is not None or res is not f.token:
                    raise Diverge("call", f"{what}: gave {res!r}/{err!r}, expected the function's result")

    def match(self, real, mod, where, pkind="PK", new=None):
        if isinstance(mod, _Vals):
            for k, (r, x) in enumerate(zip(real.v, mod.v)):
                self.match(r, x, f"{where}.p{k}")
            return
        return super().match(real, mod, where, pkind, new)


class _Vals:
    def __init__(self, v):
        self.v = v


def infer(g, d, root, seen=None):
    seen = set() if seen is None else seen
    if d.wrap in ("ctx", "none", "maybectx"):
        return root
    ids = g.all_of(d.key) if d.wrap == "all" else [g.by_key[d.key]] if d.key in g.by_key else []
    m = root
    for i in ids:
        if i not in seen:
            seen.add(i)
            m = max([m, g.nodes[i].level] + [infer(g, x, root, seen) for x in g.nodes[i].deps])
    return m


def run_case(seed, P=IBASE, stats=None):
    rng = random.Random(seed)
    root = pick(rng, P["roots"])
    for _ in range(20):
        g = lab.gen_graph(rng, P, root)
        if not g.compile_errors():
            break
    else:
        return None
    ctx = rng.random() < .5
    opts = dict(root_level=root, og=rng.random() < P["p_og"], cleanup=rng.random() < P["p_cleanup"], ctx=ctx, noise=random.Random(seed + 1))
    log = [f"options {dict((k, v) for k, v in opts.items() if k != 'noise')}"] + [f"node {i}: {describe(n)}" for i, n in enumerate(g.nodes)]
    sim = None
    try:
        try:
            sim = ISim(g, **opts)
        except Exception as e:
            raise Diverge("compile", f"{type(e).__name__}: {e}")
        sim.w.ctx = ctx
        sim.P = P
        sim.spread = any(d.wrap == "ctx" and d.pkind in ("VP", "VK") for n in g.nodes for d in n.deps)
        sim.log = log
        fns = [f for f in (sim.make_fn(rng) for _ in range(rng.randint(*P["nfun"]))) if f]
        for _ in range(rng.randint(*P["steps"])):
            op = pick(rng, P["iops"])
            if stats is not None:
                stats[op] = stats.get(op, 0) + 1
            live = [i for i, (_, s) in enumerate(sim.scopes) if not s.closed]
            if op == "call" and fns:
                sim.call(rng.choice(fns), rng)
            elif op == "enter" and len(live) < 5:
                si = rng.choice(live)
                deeper = [l for l, _ in g.levels if l > sim.scopes[si][1].level]
                if deeper:
                    c = {k: Val(f"s{k}") for k in range(3) if rng.random() < .5} if rng.random() < .5 else None
                    sim.enter_nopush(si, rng.choice([None] + deeper), c)
            elif op == "resolve":
                si = rng.choice(live)
                n = rng.choice(g.nodes)
                sim.resolve(si, rng.choice(["plain", "all"]) if n.key[1] is None else "plain", n.key, rng.choice([SYNC, ASYNC]))
    except Stop:
        pass
    except Diverge as d:
        return (d.cat, d.msg, log)
    finally:
        if stats is not None and sim is not None:
            stats["_log"] = log
            stats["steps"] = stats.get("steps", 0) + len(log)
            stats["constructed"] = stats.get("constructed", 0) + sim.w.ctl.seq
    return None


def _enter_nopush(self, si, target, ctx):
    """open a scope without binding it to the resolver context"""
    real, ms = self.scopes[si]
    self.log.append(f"enter_scope({target}) from scope#{si} context={sorted(ctx) if ctx else None}")
    mnew = self.m.enter(ms, target, None if ctx is None else {("ctx", k): v for k, v in ctx.items()})
    rnew = real.enter_scope(None if target is None else LEVELS[target],
                            context=None if ctx is None else {self.w.base(("ctx", k)): v for k, v in ctx.items()})
    self.scopes.append((rnew, mnew))


ISim.enter_nopush = _enter_nopush
