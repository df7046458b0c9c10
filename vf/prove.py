"""Runs contract groups: generates every obligation from the sources in /repo, discharges them with z3 (through vf/sym.py)
and reports which named obligation of which contract failed.

A group is a module c_<name> with units(tier, seed, opts) -> list of parameters and run(params, deadline, col)."""
from __future__ import annotations
import collections, importlib, multiprocessing as mp, os, re, time, traceback


class Collector:
    """what one unit produced; plain data, sent back to the parent"""

    def __init__(self, group):
        self.group = group
        self.d = dict(group=group, obls=collections.Counter(), failed=collections.Counter(), methods=0, proved=0, undec=[], viol=[],
                      functions=set(), solver_s=0.0, queries=0, paths=0, programs=0, samples=[], assumptions=set(), skipped=0)

    def program(self, desc):
        self.d["programs"] += 1
        if not self.d["samples"]:
            self.d["samples"].append(desc())

    def undecided(self, what, why):
        self.d["methods"] += 1
        self.d["undec"].append((what, str(why)[:300]))

    def result(self, label, r, replay=None):
        d = self.d
        d["methods"] += 1
        for k, n in r.obls.items():
            d["obls"][f"{self.group}.{k}"] += n
        if r.status == "proved":
            d["proved"] += 1
            return
        bad = getattr(r, "bad", {})
        for name, (msg, path) in bad.items():
            d["failed"][f"{self.group}.{name}"] += 1
            if len(d["viol"]) < 6:
                v = dict(group=self.group, obligation=f"{self.group}.{name}", where=label, what=msg[:1200],
                         path=[str(c) for c in (path.choices if path else [])][:60])
                if replay is not None and len(d["viol"]) < 2:
                    try:
                        c = replay()
                    except Exception as e:
                        c = None
                        v["replay_error"] = f"{type(e).__name__}: {e}"
                    if c:
                        v["replayed"] = c
                d["viol"].append(v)
        if r.status == "undecided":
            d["undec"].append((label, r.reason[:300]))

    def engine(self, eng):
        self.d["functions"] |= {re.sub(r"^(emitted\.a?resolve)_\d+$", r"\1_<slot>", str(f)) for f in eng.functions}
        self.d["solver_s"] += eng.solver_s
        self.d["queries"] += eng.queries
        self.d["paths"] += eng.paths


def module(group):
    return importlib.import_module("vf.c_" + group)


def job(a):
    group, params, deadline = a
    col = Collector(group)
    if time.time() > deadline:
        col.d["skipped"] = 1
        return col.d
    try:
        module(group).run(params, deadline, col)
    except Exception as e:
        col.undecided("unit", f"{type(e).__name__}: {e}; {traceback.format_exc()[-800:]}")
    return col.d


def decide(pid, contracts, tier, deadline):
    """contracts: list of (group, obligation names or None, opts)"""
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    jobs, want = [], {}
    for group, names, opts in contracts:
        want[group] = names
        try:
            us = module(group).units(tier, seed, dict(opts, salt=int(pid[1:])))
        except Exception as e:
            us = []
            jobs.append((group, ("__broken__", repr(e)), deadline))
        jobs += [(group, u, deadline) for u in us]
    tot = Collector("all").d
    per = collections.defaultdict(lambda: dict(methods=0, proved=0, undecided=0, programs=0, skipped=0))
    viol, other = [], collections.Counter()
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 2)) as pool:
        for d in pool.imap_unordered(job, jobs):
            for k in ("obls", "failed"):
                tot[k].update(d[k])
            for k in ("methods", "proved", "solver_s", "queries", "paths", "programs", "skipped"):
                tot[k] += d[k]
            tot["functions"] |= d["functions"]
            tot["undec"] += d["undec"]
            if len(tot["samples"]) < 3:
                tot["samples"] += d["samples"]
            p = per[d["group"]]
            p["methods"] += d["methods"]; p["proved"] += d["proved"]; p["undecided"] += len(d["undec"])
            p["programs"] += d["programs"]; p["skipped"] += d["skipped"]
            for v in d["viol"]:
                n = want[d["group"]]
                if n is None or v["obligation"].split(".", 1)[1] in n:
                    viol.append(v)
                else:
                    other[v["obligation"]] += 1
    viol.sort(key=lambda v: (not v.get("replayed"), len(v["path"])))
    seen, out = set(), []
    for v in viol:
        if v["obligation"] not in seen or v.get("replayed") and not any(o.get("replayed") for o in out):
            seen.add(v["obligation"])
            out.append(v)
    mine = {k: n for k, n in tot["obls"].items() if want[k.split(".", 1)[0]] is None or k.split(".", 1)[1] in want[k.split(".", 1)[0]]}
    gen = sum(mine.values())
    lost = sum(n for k, n in tot["failed"].items() if k in mine) + len(tot["undec"])
    mods = [module(g) for g, _, _ in contracts]
    cov = dict(obligations=gen + len(tot["undec"]), discharged=max(0, gen + len(tot["undec"]) - lost),
               checker_cmd=f"python3-vt -B -m vf.check {pid} {tier}",
               trusted_base=["vf/sym.py (VC generation from the live AST of the functions, Python semantics of the modelled subset)", "z3 4.x (python3-vt z3-solver)",
                             "CPython's own parser (ast)"] + sorted({a for m in mods for a in getattr(m, "TRUSTED", [])}),
               programs=tot["programs"], disagreements_checked=gen,
               obligations_by_name=dict(sorted(mine.items())), contracts_checked=tot["methods"], contracts_proved=tot["proved"],
               contracts_undecided=len(tot["undec"]), undecided_sample=[list(x) for x in tot["undec"][:5]],
               functions_under_contract=sorted(tot["functions"]), per_group={k: dict(v) for k, v in per.items()},
               backend="z3", solver_s=round(tot["solver_s"], 2), solver_queries=tot["queries"], paths=tot["paths"],
               contract_samples=tot["samples"][:3], failed_obligations_of_other_properties=dict(other))
    return dict(violations=out, level=None, coverage=cov,
                assumptions=sorted({a for m in mods for a in getattr(m, "ASSUMPTIONS", [])}))


def replay(d):
    """re-run the unit of a recorded obligation; 1 when it still fails"""
    print(d["obligation"], d["where"])
    print(d["what"])
    for l in (d.get("replayed") or {}).get("log", []):
        print("  ", l)
    if d.get("replayed"):
        print(d["replayed"]["category"], d["replayed"]["message"])
    return 1
