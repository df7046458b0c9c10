"""python3-vt -m vf.check Cxx [quick|thorough]   decide one property on /repo's working tree
exit 0: held on everything explored / every obligation discharged; exit 1 + VIOLATION line: broken.
Internal errors of the harness itself are recorded in the evidence and never reported as violations."""
from __future__ import annotations
import os, sys
SRC = os.environ.get("VF_SRC", "/repo/src")
sys.path[:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__))), SRC]
sys.dont_write_bytecode = True
import collections, hashlib, importlib, json, multiprocessing as mp, signal, time, traceback, warnings
warnings.simplefilter("ignore")
ROOT = sys.path[0]
from vf import props

CASE_TIMEOUT = 60
WALL = dict(quick=float(os.environ.get("VF_WALL", 120)), thorough=float(os.environ.get("VF_WALL", 780)))


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


def origin(e):
    """'target' when the exception was raised by diwire (or code it generated), 'harness' otherwise"""
    tb, last = e.__traceback__, None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    if last is None:
        return "harness"
    if last.startswith(SRC) or last.startswith("<") and not last.startswith(("<frozen", "<string>", "<stdin>")):
        return "target"
    if last.startswith(ROOT):
        return "harness"
    # raised inside the standard library: whoever called it last
    tb, who = e.__traceback__, "harness"
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        who = "target" if f.startswith(SRC) else "harness" if f.startswith(ROOT) else who
        tb = tb.tb_next
    return who


def case(scen, over, seed, stats):
    """(cat, msg, log) or None; harness errors come back with cat 'harness'"""
    mod = importlib.import_module("vf." + scen)
    base = next(getattr(mod, n) for n in ("PBASE", "HBASE", "IBASE", "CBASE", "OBASE", "KBASE", "NBASE", "YBASE", "LBASE", "BASE") if hasattr(mod, n))
    P = dict(base, **over)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        return mod.run_case(seed, P=P, stats=stats)
    except Hang:
        return ("hang", f"no result within {CASE_TIMEOUT} s", list(stats.get("_log") or []))
    except Exception as e:
        who = origin(e)
        return ("crash" if who == "target" else "harness", "".join(traceback.format_exception(e))[-3000:], list(stats.get("_log") or []))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def chunk(job):
    si, scen, over, cats, lo, hi, deadline = job
    st, bad, ev, digests, sample = {}, [], 0, set(), None
    nontrivial = 0
    for seed in range(lo, hi):
        if time.time() > deadline:
            break
        st.pop("_log", None)
        b = st.get("steps", 0)
        r = case(scen, over, seed, st)
        log = st.pop("_log", None)
        ev += 1
        if log is not None and len(log) > 2:
            d = hashlib.sha1("\n".join(map(str, log)).encode()).digest()[:8]
            digests.add(d)
            if sample is None or seed % 97 == 0:
                sample = (seed, [str(x)[:300] for x in log[:40]])
        if r is not None and (r[0] in ("crash", "hang", "harness") or cats is None or r[0] in cats):
            bad.append((seed, r[0], r[1], [str(x) for x in r[2]]))
            if len(bad) > 3:
                break
        elif r is not None:
            st["other:" + r[0]] = st.get("other:" + r[0], 0) + 1
    return si, ev, digests, st, bad, sample


def replay_case(d, tries=1):
    """run one recorded case; returns the divergence or None"""
    for _ in range(tries):
        r = case(d["scenario"], d["profile"], d["seed"], {})
        if r is not None and r[0] != "harness":
            return r
    return None


def _confirm(q, d, tries):
    q.put(replay_case(d, tries))


def confirm(d):
    ctx = mp.get_context("spawn")
    q = ctx.Queue()
    p = ctx.Process(target=_confirm, args=(q, d, 12 if d["scenario"] == "conc" else 2))
    p.start()
    try:
        return q.get(timeout=4 * CASE_TIMEOUT + 30)
    except Exception:
        return None
    finally:
        p.kill()


def jsonable(x):
    return json.loads(json.dumps(x, default=lambda o: sorted(o) if isinstance(o, (set, frozenset)) else repr(o)))


def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = props.PROPS[pid]
    os.makedirs(f"{ROOT}/evidence", exist_ok=True)
    os.makedirs(f"{ROOT}/replays", exist_ok=True)
    violations, lines, notes = [], [], []

    # ---- 1. contracts: every obligation generated from the current source
    con = None
    if spec.get("contracts"):
        from vf import prove
        con = prove.decide(pid, spec["contracts"], tier, t0 + WALL[tier] * .7)
        for v in con["violations"]:
            path = f"{ROOT}/replays/{pid}-obligation-{len(violations)}.json"
            json.dump(dict(jsonable(v), property=pid, kind="obligation"), open(path, "w"), indent=1)
            tail = "" if v.get("replayed") else " no-failing-input-found"
            violations.append((path, tail, f"obligation {v['obligation']} of {v['where']}: {v['what']}"
                               + (f"; replayed on the real code: {v['replayed']['message']}" if not tail else "")))

    # ---- 2. scenario families (bounded)
    deadline = t0 + WALL[tier]
    jobs = []
    for si, (scen, over, cats, q, t) in enumerate(spec["scen"]):
        n = q if tier == "quick" else t
        base = (seed * 1_000_003 + int(pid[1:]) * 7919 + si * 104729) % 2**31
        step = max(5, min(200, n // 48))
        jobs += [(si, scen, over, cats, base + a, base + min(n, a + step), deadline) for a in range(0, n, step)]
    jobs.sort(key=lambda j: j[4] % 17)
    ev, digests, stats, samples = collections.Counter(), set(), collections.Counter(), []
    found, harness = [], []
    ncpu = min(8, os.cpu_count() or 2)
    with mp.get_context("fork").Pool(ncpu) as pool:
        for si, e, dg, st, bad, sample in pool.imap_unordered(chunk, jobs):
            ev[si] += e
            digests |= dg
            stats.update({k: v for k, v in st.items() if isinstance(v, int)})
            if sample and len(samples) < 4 and all(s["scenario"] != spec["scen"][si][0] for s in samples):
                samples.append(dict(scenario=spec["scen"][si][0], seed=sample[0], log=sample[1]))
            for sd, cat, msg, log in bad:
                d = dict(property=pid, kind="scenario", scenario=spec["scen"][si][0], profile=spec["scen"][si][1], seed=sd, category=cat, message=msg, log=log)
                (harness if cat == "harness" else found).append(d)
            if len(found) >= 6:
                pool.terminate()
                break
    found.sort(key=lambda d: len(d["log"]))
    unrepro = 0
    for d in found:
        if len([v for v in violations if not v[1]]) >= 1:
            break
        r = confirm(d)
        if r is None:
            unrepro += 1
            continue
        path = f"{ROOT}/replays/{pid}-{d['scenario']}-{d['seed']}.json"
        json.dump(jsonable(d), open(path, "w"), indent=1)
        violations.insert(0, (path, "", f"[{d['category']}] {d['message']}"))
    if unrepro:
        notes.append(f"{unrepro} divergences did not reproduce in a fresh process and were not reported")

    # ---- 3. known findings
    known = {}
    for line in open(f"{ROOT}/known_findings.txt"):
        if line.startswith("finding: "):
            f = dict(x.split("=", 1) for x in line.split()[1:3])
            known[f["id"]] = (f["property"], line.strip())
    for kid in spec.get("known", []):
        from vf.known import PROBES
        try:
            what = PROBES[kid]()
        except Exception as e:
            what = None
            notes.append(f"probe {kid} raised {type(e).__name__}: {e}")
        if what:
            if kid in known:
                lines.append(f"KNOWN-FINDING: property={pid} {kid}: {what}")
            else:
                path = f"{ROOT}/replays/{pid}-{kid}.json"
                json.dump(dict(property=pid, kind="probe", probe=kid, message=what), open(path, "w"), indent=1)
                violations.append((path, "", what))

    total = sum(ev.values())
    cov = dict(evaluations=total, distinct_nontrivial=len(digests),
               rule="bounded part: random programs (registration graph or container history plus a sequence of scope entries, resolutions, calls and closes) run "
                    "against the real package and compared step by step with an executable reference semantics; a case is non-trivial when it performed at least "
                    "two logged steps, distinct by the hash of its full log",
               samples=samples, per_family={f"{i}:{s[0]}": ev[i] for i, s in enumerate(spec["scen"])},
               observed={k: v for k, v in sorted(stats.items())}, harness_errors=len(harness), notes=notes)
    level = "exploration"
    assumptions = ["the reference semantics in vf/refmodel.py and the scenario modules state the property (oracle)",
                   "the scenario families are bounded samples: they never count as proved"]
    if con is not None:
        level = spec.get("level", "translation_validation")
        cov.update(con["coverage"])
        assumptions = con["assumptions"] + assumptions
    if harness:
        cov["harness_error_sample"] = harness[0]["message"][-1500:]
    json.dump(dict(property=pid, tier=tier, seed=seed, level=level, coverage=jsonable(cov), assumptions=assumptions,
                   wall_s=round(time.time() - t0, 2), violations=len(violations)), open(f"{ROOT}/evidence/{pid}.json", "w"), indent=1)
    for l in lines:
        print(l)
    print(f"{pid} {tier}: {total} cases, {len(digests)} distinct non-trivial"
          + (f"; obligations {cov['obligations']}, discharged {cov['discharged']}" if con else "")
          + (f"; harness errors {len(harness)}" if harness else "") + f"; {time.time() - t0:.1f} s")
    for path, tail, what in violations[:5]:
        print(what[:1500])
        print(f"VIOLATION property={pid} replay={path}{tail}")
    return 1 if violations else 0


if __name__ == "__main__":
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-B", "-m", "vf.check"] + sys.argv[1:])
    sys.exit(main(sys.argv[1], tier))
