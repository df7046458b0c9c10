"""Concurrent first resolutions (C15): threads preempted at the lines of the library's code, and tasks suspended inside
providers, in schedules drawn from a seed; failures and cancellations included. Bounded stand-in.

A property violation is judged on the outcome only (objects received, provider runs, errors, progress), so any schedule,
including one the operating system perturbs, must satisfy it.
"""
from __future__ import annotations
import asyncio, contextlib, random, sys, threading, time
from typing import Generic, TypeVar
from . import lab
from .lab import (Diverge, X, Container, Scope, Lifetime, LockMode, MissingPolicy, DependencyRegistrationPolicy, LEVELS, Maybe, All,
                  ResolverContext)
from typing import Annotated

NBASE = dict(p_async=.5)
T = TypeVar("T")


class Boom(Exception):
    pass


class Obj:
    def __init__(self, k, dep=None):
        self.k, self.dep = k, dep


class Sched:
    """runs workers one at a time; a worker hands the baton back at preemption points"""

    def __init__(self, rng, p):
        self.rng, self.p = rng, p
        self.cv = threading.Condition()
        self.ready, self.running, self.done = {}, set(), set()
        self.me = threading.local()
        self.trace_log = []
        self.free = False

    def point(self, force=False):
        w = getattr(self.me, "w", None)
        if w is None or self.free or not (force or self.rng.random() < self.p):
            return
        ev = threading.Event()
        with self.cv:
            self.running.discard(w)
            self.ready[w] = ev
            self.cv.notify_all()
        ev.wait()

    def tracer(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if "diwire" in fn or fn.startswith("<"):
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "line":
            self.point()
        return self.local

    def start(self, w, fn):
        def body():
            self.me.w = w
            self.point(force=True)
            sys.settrace(self.tracer)
            try:
                fn()
            finally:
                sys.settrace(None)
                with self.cv:
                    self.running.discard(w)
                    self.done.add(w)
                    self.cv.notify_all()
        t = threading.Thread(target=body, daemon=True)
        with self.cv:
            self.running.add(w)
        t.start()
        return t

    def drive(self, n):
        """until all workers are done; False when nothing moves any more"""
        deadline = time.time() + 8
        while True:
            with self.cv:
                if len(self.done) == n:
                    return True
                if self.ready:
                    w = self.rng.choice(sorted(self.ready))
                    ev = self.ready.pop(w)
                    self.running.add(w)
                    deadline = time.time() + 8
                else:
                    w = None
            if w is not None:
                ev.set()
                with self.cv:
                    self.cv.wait_for(lambda: w not in self.running, timeout=.004)
            else:
                with self.cv:
                    if not self.cv.wait_for(lambda: self.ready or len(self.done) == n, timeout=.5) and time.time() > deadline:
                        return False


def build(rng, is_async, sched, log):
    """container with SCOPED keys; returns (container, keys, counters)"""
    state = {"runs": {}, "ok": {}, "fail": {}, "objs": {}}
    c = Container(missing_policy=MissingPolicy.ERROR, dependency_registration_policy=DependencyRegistrationPolicy.IGNORE,
                  resolver_context=ResolverContext(), use_resolver_context=rng.random() < .3)
    keys = []
    mixed = rng.random() < .3
    explicit = mixed or rng.random() < .4
    n = rng.randint(1, 4)
    for i in range(n):
        k = type(f"K{i}", (), {})
        level = rng.choice([1, 1, 3, 3, 4])
        if keys:
            level = max([level] + [0])
        life = Lifetime.SCOPED if i == 0 or rng.random() < .75 else Lifetime.TRANSIENT
        kind = rng.choice(["factory", "factory", "generator", "cm", "concrete"])
        dep = rng.choice(keys) if keys and rng.random() < .7 else None
        if dep is not None and dep["level"] > level:
            level = dep["level"]
        a = is_async and kind != "concrete" and (rng.random() < .6 or (dep is None or not dep["req"]))
        req = a or bool(dep and dep["req"])
        if is_async and not req and kind == "concrete":
            kind, a, req = "factory", True, True
        info = dict(t=k, level=level, life=life, kind=kind, dep=dep, i=i, req=req, a=a, fails=rng.choice([0, 0, 0, 1, 2]))
        state["runs"][i] = 0
        state["fail"][i] = info["fails"]
        prov = provider(rng, info, state, sched)
        kw = dict(provides=k, scope=LEVELS[level], lifetime=life)
        if explicit:
            kw["lock_mode"] = LockMode.ASYNC if req else LockMode.THREAD
        {"factory": c.add_factory, "concrete": c.add, "generator": c.add_generator, "cm": c.add_context_manager}[kind](prov, **kw)
        keys.append(info)
        log.append(f"key {i}: {'async ' if a else ''}{kind} {life.name} level={level} dep={dep['i'] if dep else None} "
                   f"fails={info['fails']} lock={'explicit' if explicit else 'default'}")
    if rng.random() < .25:
        # an open generic template next to the closed keys
        class OG(Generic[T]):
            pass
        info = dict(og=True, t=OG[int], level=rng.choice([1, 3]), life=Lifetime.SCOPED, kind="factory", i=n, a=is_async and rng.random() < .5, fails=rng.choice([0, 0, 1]))
        info["dep"] = dep = rng.choice([k for k in keys if k["level"] <= info["level"]] or [None])
        if dep is None and is_async:
            info["a"] = True
        info["req"] = info["a"] or bool(dep and dep["req"])
        if info["req"] or not is_async:
            state["runs"][n], state["fail"][n] = 0, info["fails"]
            prov = provider(rng, info, state, sched, og=True)
            kw = dict(provides=OG[T], scope=LEVELS[info["level"]], lifetime=Lifetime.SCOPED)
            if explicit:
                kw["lock_mode"] = LockMode.ASYNC if info["req"] else LockMode.THREAD
            c.add_factory(prov, **kw)
            keys.append(info)
            log.append(f"key {n}: open generic {'async ' if info['a'] else ''}factory level={info['level']} dep={dep['i'] if dep else None} fails={info['fails']}")
    if mixed:
        class Other:
            pass

        async def other():
            return Other()

        def sother():
            return Other()
        c.add_factory(sother if is_async else other, provides=Other, lifetime=Lifetime.TRANSIENT)
        log.append("a provider of the other colour is registered; lock modes explicit")
    return c, keys, state


def provider(rng, info, state, sched, og=False):
    i = info["i"]

    def run_sync(dep):
        state["runs"][i] += 1
        r = state["runs"][i]
        sched.point(force=True)
        if r <= state["fail"][i]:
            raise Boom(i)
        return Obj(i, dep)

    async def run_async(dep):
        state["runs"][i] += 1
        r = state["runs"][i]
        await sched.pause(i)
        if r <= state["fail"][i]:
            raise Boom(i)
        return Obj(i, dep)
    ann = {}
    if info["dep"] is not None:
        ann["dep"] = info["dep"]["t"]
    if og:
        ann["t"] = type[T]
    args = ", ".join(ann)
    dv = "dep" if info["dep"] is not None else "None"
    ns = dict(run_sync=run_sync, run_async=run_async, Obj=Obj, contextlib=contextlib)
    k, a = info["kind"], info["a"]
    if k == "factory":
        src = f"{'async ' if a else ''}def P({args}):\n    return {'await run_async' if a else 'run_sync'}({dv})\n"
    elif k == "generator":
        src = f"{'async ' if a else ''}def P({args}):\n    o = {'await run_async' if a else 'run_sync'}({dv})\n    yield o\n"
    elif k == "cm":
        w = "a" if a else ""
        aw = "async " if a else ""
        src = (f"class CM:\n    def __init__(self, d): self.d = d\n    {aw}def __{w}enter__(self):\n"
               f"        return {'await run_async' if a else 'run_sync'}(self.d)\n    {aw}def __{w}exit__(self, *x): pass\n"
               f"def P({args}) -> CM:\n    return CM({dv})\n")
    else:
        src = (f"class P(Obj):\n    def __init__(self{', ' + args if args else ''}):\n        o = run_sync({dv})\n        self.k, self.dep = o.k, o.dep\n")
    exec(src, ns)
    P = ns["P"]
    f = P.__init__ if k == "concrete" else P
    f.__annotations__.update(ann)
    return P


def open_scopes(rng, c, log):
    """shared scopes every worker can use: (resolver, level, chain)"""
    root = c.compile()
    out = [(root, 1, [("root", 1)])]
    for s in range(rng.choice([0, 1, 2, 2])):
        r, l, ch = rng.choice(out)
        deeper = [x for x in (3, 4) if x > l]
        if not deeper:
            continue
        t = rng.choice(deeper)
        nr = r.enter_scope(LEVELS[t])
        path = [x for x in (3, 4) if l < x <= t]
        nch = ch + [((s, x), x) for x in path]
        out.append((nr, t, nch))
        log.append(f"scope#{len(out) - 1} level {t} inside level {l}")
    return out


def owner(info, chain):
    for name, l in chain:
        if l == info["level"]:
            return (info["i"], name)
    return None


def jobs(rng, keys, scopes, log):
    out = []
    main = rng.choice(keys)
    for w in range(rng.randint(2, 4)):
        todo = []
        for _ in range(rng.choice([1, 1, 2])):
            k = main if rng.random() < .6 else rng.choice(keys)
            cand = [s for s in range(len(scopes)) if any(l == k["level"] for _, l in scopes[s][2])]
            own = not cand or rng.random() < .15
            todo.append((k, rng.choice(cand) if not own else None))
        out.append(todo)
        log.append(f"worker {w}: " + ", ".join(f"key {k['i']} from " + (f"scope#{s}" if s is not None else "its own scope") for k, s in todo))
    return out


def own_scope(rng_name, c, k):
    r = c.compile()
    if k["level"] == 1:
        return r, [("root", 1)]
    return r.enter_scope(LEVELS[4]), [("root", 1), ((rng_name, 3), 3), ((rng_name, 4), 4)]


def check(results, keys, state, ncancel, log):
    """results: list of (worker, info, chain, value | exception)"""
    by_owner = {}
    objs = {}
    boom = 0
    tried = set()
    for w, k, chain, v in results:
        d = k
        while d is not None:
            if d["life"] is Lifetime.SCOPED:
                tried.add(owner(d, chain))
            d = d["dep"]
        if isinstance(v, Boom):
            boom += 1
            continue
        if isinstance(v, asyncio.CancelledError):
            continue
        if isinstance(v, BaseException):
            raise Diverge("error", f"worker {w}: key {k['i']} raised {type(v).__name__}: {v}")

        def walk(v, k):
            if not isinstance(v, Obj) or v.k != k["i"]:
                raise Diverge("wrong", f"worker {w}: key {k['i']} received {v!r}")
            if k["life"] is Lifetime.SCOPED:
                o = owner(k, chain)
                first = by_owner.setdefault(o, v)
                if first is not v:
                    raise Diverge("twice", f"two different objects of key {k['i']} were handed out for one scope ({o[1]})")
                other = objs.setdefault(id(v), o)
                if other != o:
                    raise Diverge("shared", f"scopes {other} and {o} share an object of key {k['i']}")
            objs.setdefault(("keep", id(v)), v)
            if k["dep"] is not None:
                if v.dep is None:
                    raise Diverge("wrong", f"key {k['i']} was built without its dependency")
                walk(v.dep, k["dep"])
        walk(v, k)
    if boom > sum(k["fails"] for k in keys):
        raise Diverge("error", f"{boom} workers failed, the providers raise only {sum(k['fails'] for k in keys)} times")
    for k in keys:
        if k["life"] is Lifetime.SCOPED:
            owners = {o for o in tried if o and o[0] == k["i"]}
            runs = state["runs"][k["i"]]
            allowed = len(owners) + state["fail"][k["i"]] + state.get("cancelled", {}).get(k["i"], 0) + state.get("wasted", {}).get(k["i"], 0)
            if runs > allowed:
                raise Diverge("twice", f"provider of key {k['i']} ran {runs} times for {len(owners)} scopes "
                              f"({state['fail'][k['i']]} failing runs, {state.get('cancelled', {}).get(k['i'], 0)} cancelled)")


class TSched(Sched):
    pass


def run_threads(rng, log, stats):
    sched = Sched(rng, rng.choice([.05, .15, .4]))
    c, keys, state = build(rng, False, sched, log)
    scopes = open_scopes(rng, c, log)
    todo = jobs(rng, keys, scopes, log)
    results = []

    def worker(w):
        def go():
            for j, (k, s) in enumerate(todo[w]):
                try:
                    if s is None:
                        r, chain = own_scope((w, j), c, k)
                    else:
                        r, chain = scopes[s][0], scopes[s][2]
                    v = r.resolve(k["t"]) if rng.random() < .8 or k.get("og") else lab.run(r.aresolve(k["t"]))
                except BaseException as e:
                    v = e
                results.append((w, k, chain, v))
        return go
    ts = [sched.start(w, worker(w)) for w in range(len(todo))]
    ok = sched.drive(len(todo))
    sched.free = True
    if not ok:
        with sched.cv:
            for ev in sched.ready.values():
                ev.set()
        raise Diverge("lock", f"no progress: workers {sorted(set(range(len(todo))) - sched.done)} are stuck")
    for t in ts:
        t.join(2)
    # whatever failed, the next resolution constructs it
    final = []

    def after():
        for k in keys:
            for r, l, chain in scopes:
                if any(x == k["level"] for _, x in chain):
                    for _ in range(sum(x["fails"] for x in keys) + 1):
                        try:
                            final.append(("after", k, chain, r.resolve(k["t"])))
                            break
                        except Boom as e:
                            final.append(("after", k, chain, e))
                        except BaseException as e:
                            final.append(("after", k, chain, e))
                            break
    t = threading.Thread(target=after, daemon=True)
    t.start()
    t.join(5)
    if t.is_alive():
        raise Diverge("lock", "a resolution after the concurrent ones blocks: a lock stayed held")
    check(results + final, keys, state, 0, log)


class ASched:
    def __init__(self, rng):
        self.rng = rng
        self.waiting = []
        self.state = None

    def point(self, force=False):
        pass

    async def pause(self, i):
        for _ in range(self.rng.choice([0, 1, 1, 2])):
            f = asyncio.get_running_loop().create_future()
            self.waiting.append(f)
            try:
                await f
            except asyncio.CancelledError:
                self.state.setdefault("cancelled", {})
                self.state["cancelled"][i] = self.state["cancelled"].get(i, 0) + 1
                raise


def run_tasks(rng, log, stats):
    sched = ASched(rng)
    c, keys, state = build(rng, True, sched, log)
    sched.state = state

    async def main():
        scopes = open_scopes(rng, c, log)
        todo = jobs(rng, keys, scopes, log)
        results = []

        async def worker(w):
            for j, (k, s) in enumerate(todo[w]):
                if s is None:
                    r, chain = own_scope((w, j), c, k)
                else:
                    r, chain = scopes[s][0], scopes[s][2]
                try:
                    v = await r.aresolve(k["t"])
                except (Exception, asyncio.CancelledError) as e:
                    v = e
                results.append((w, k, chain, v))
        tasks = [asyncio.ensure_future(worker(w)) for w in range(len(todo))]
        ncancel = 0
        idle = 0
        p_cancel = rng.choice([0, 0, .1, .25])
        while not all(t.done() for t in tasks):
            for _ in range(rng.choice([1, 2, 4])):
                await asyncio.sleep(0)
            live = [t for t in tasks if not t.done()]
            if live and rng.random() < p_cancel and ncancel < 3:
                t = rng.choice(live)
                log.append(f"cancel worker {tasks.index(t)}")
                t.cancel()
                ncancel += 1
            sched.waiting = [f for f in sched.waiting if not f.done()]
            if sched.waiting:
                idle = 0
                sched.waiting.pop(rng.randrange(len(sched.waiting))).set_result(None)
            else:
                idle += 1
                if idle > 200:
                    raise Diverge("lock", f"no progress: tasks {[i for i, t in enumerate(tasks) if not t.done()]} are stuck")
        final = []

        async def after():
            for k in keys:
                for r, l, chain in scopes:
                    if any(x == k["level"] for _, x in chain):
                        for _ in range(sum(x["fails"] for x in keys) + 1):
                            try:
                                final.append(("after", k, chain, await r.aresolve(k["t"])))
                                break
                            except Boom as e:
                                final.append(("after", k, chain, e))
                            except Exception as e:
                                final.append(("after", k, chain, e))
                                break
        t = asyncio.ensure_future(after())
        idle = 0
        while not t.done():
            await asyncio.sleep(0)
            sched.waiting = [f for f in sched.waiting if not f.done()]
            if sched.waiting:
                idle = 0
                sched.waiting.pop().set_result(None)
            else:
                idle += 1
                if idle > 300:
                    t.cancel()
                    raise Diverge("lock", "a resolution after the concurrent ones blocks: a lock stayed held")
        # a cancelled dependent wastes nothing: its finished SCOPED dependencies stay cached
        check(results + final, keys, state, ncancel, log)
    asyncio.run(main())


def run_case(seed, P=NBASE, stats=None):
    rng = random.Random(seed)
    log = []
    kind = "tasks" if rng.random() < P["p_async"] else "threads"
    if stats is not None:
        stats[kind] = stats.get(kind, 0) + 1
    log.append(kind)
    if stats is not None:
        stats["_log"] = log
    try:
        (run_tasks if kind == "tasks" else run_threads)(rng, log, stats)
    except Diverge as d:
        return (d.cat, d.msg, log)
    return None
