"""Circular and deferred graphs (C19): random graphs with forward edges of every kind; compile verdict against the
definition, then resolution of the accepted ones with the common harness. Bounded stand-in."""
from __future__ import annotations
import random, re
from . import lab, refmodel as R
from .lab import Diverge, Stop, Dep, Graph, X, pick, run, ASYNC, SYNC, LEVELS

YBASE = dict(lab.BASE, n=(2, 8), p_fault=0, p_og=.1, steps=(3, 12), p_rewire=.5, p_flat=.7)


def sccs(g):
    """nodes on a cycle of non-deferred dependencies"""
    out = set()
    for i in g.order:
        seen, st = set(), list(g.edges(i))
        while st:
            j = st.pop()
            if j in seen:
                continue
            seen.add(j)
            st += g.edges(j)
        if i in seen:
            out.add(i)
    return out


def gen(rng, P, root):
    g = lab.gen_graph(rng, P, root)
    flat = rng.random() < P["p_flat"]
    nodes = g.nodes
    if flat:
        lv = rng.choice([root, root, 3])
        for n in nodes:
            if n.kind != "instance":
                n.level = max(lv, root)
    rate = rng.choice([.1, .3, .6])
    cyc_w = rng.choice([[("plain", 5), ("maybe", 2), ("all", 2), ("prov", 3), ("aprov", 2)], [("prov", 3), ("aprov", 2)]])
    for n in nodes:
        if n.kind == "instance":
            continue
        for d in n.deps:
            if d.wrap in ("ctx", "none", "maybectx") or rng.random() > rate:
                continue
            w = pick(rng, cyc_w)
            t = rng.choice(nodes)
            if d.pkind in ("VP", "VK") and w in ("prov", "aprov") or d.pkind == "VK" and w == "all":
                continue
            d.wrap, d.key = w, t.key if w != "all" else (t.key[0], None)
        n.perm = None
        lab.fix_signature(n, nodes)
    return Graph(nodes, g.levels)


def run_case(seed, P=YBASE, stats=None):
    rng = random.Random(seed)
    root = pick(rng, P["roots"])
    g = gen(rng, P, root)
    errs = g.compile_errors()
    for n in g.nodes:                 # a *args/**kwargs dependency must be iterable: keep collections out of plain slots
        pass
    if errs - {"cycle"}:
        return None
    log = [f"root={root}"] + [f"node {i}: {lab.describe(n)}" for i, n in enumerate(g.nodes)]
    if stats is not None:
        stats["cyclic" if errs else "acyclic"] = stats.get("cyclic" if errs else "acyclic", 0) + 1
        if not errs and deferred_cycle(g):
            stats["deferred cycles"] = stats.get("deferred cycles", 0) + 1
    opts = dict(root_level=root, og=rng.random() < P["p_og"], ctx=rng.random() < .2, cleanup=rng.random() < .2,
                noise=random.Random(seed + 1))
    try:
        if errs:
            w = lab.World(g, **opts)
            bad = sccs(g)
            c = w.container
            key = w.key(rng.choice(g.nodes).key)
            how = rng.choice(["compile", "resolve", "aresolve", "enter_scope"])
            log.append(how)
            for _ in range(2):
                try:
                    {"compile": c.compile, "resolve": lambda: c.resolve(key), "aresolve": lambda: run(c.aresolve(key)),
                     "enter_scope": c.enter_scope}[how]()
                except X.DIWireInvalidProviderSpecError as e:
                    named(w, g, bad, str(e))
                except RecursionError as e:
                    raise Diverge("cycle", f"{how} of a circular graph exhausted the stack")
                except Exception as e:
                    raise Diverge("cycle", f"{how} of a circular graph raised {type(e).__name__}: {e}")
                else:
                    raise Diverge("cycle", f"{how} of a circular graph succeeded (cycle through nodes {sorted(bad)})")
                if w.ctl.seq:
                    raise Diverge("cycle", f"{how} of a circular graph ran a provider before failing")
            return None
        try:
            sim = lab.Sim(g, **opts)
        except Exception as e:
            raise Diverge("reject", f"a graph without a non-deferred cycle was rejected: {type(e).__name__}: {e}")
        sim.log = log
        try:
            # every key, then a history
            for i in g.order:
                n = g.nodes[i]
                if lab.fits(g, sim.m.root, i):
                    sim.resolve(0, "plain", n.key, ASYNC if g.requires_async(i) else SYNC)
            for hi in range(min(4, len(sim.handles))):
                sim.call_handle(hi)
            lab.history(sim, rng, P, stats)
        except Stop:
            pass
    except Diverge as d:
        return (d.cat, d.msg, log)
    finally:
        if stats is not None:
            stats["_log"] = log
            stats["steps"] = stats.get("steps", 0) + len(log)
    return None


def deferred_cycle(g):
    def nxt(i):
        out = list(g.edges(i))
        for d in g.nodes[i].deps:
            if d.wrap in ("prov", "aprov") and d.key in g.by_key:
                out.append(g.by_key[d.key])
        return out
    for i in g.order:
        seen, st = set(), nxt(i)
        while st:
            j = st.pop()
            if j not in seen:
                seen.add(j)
                st += nxt(j)
        if i in seen:
            return True
    return False


def named(w, g, bad, msg):
    """the message names a provider on the cycle, by slot or by key"""
    names = {w.base(g.nodes[i].key).__name__ for i in bad}
    if any(re.search(rf"\b{n}\b", msg) for n in names):
        return
    m = re.search(r"slot\D{0,3}(\d+)", msg)
    if m:
        reg = getattr(w.container, "_providers_registrations", None)
        spec = next((s for s in reg.values() if s.slot == int(m.group(1))), None) if reg is not None else None
        if spec is not None and not any(w.key(g.nodes[i].key, noisy=False) == spec.provides for i in bad):
            raise Diverge("name", f"the error names {spec.provides!r}, which is not on the cycle: {msg}")
        return
    other = {w.base(n.key).__name__ for n in g.nodes} - names
    raise Diverge("name", f"the error names no provider on the cycle: {msg}" + (f" ({other})" if any(o in msg for o in other) else ""))
