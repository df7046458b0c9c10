"""Loop contracts: drain loops (while seq: ... seq.pop()) and for-loops over sequences of unknown length.

The invariant is stated over the abstraction (what was processed so far, which error came first), not over the program text: every local
assigned in the body is matched against a list of templates, the strongest inductive one is found by a Houdini search, so renaming or
reordering the loop does not matter. If no template is inductive the loop stays undecided; it is never reported as violated for that."""
from __future__ import annotations
import ast
import z3
from .sym import SymSeq, Unsupported, PathEnd, SV, Exc, SI, _Break, _Continue, Path


class InvFail(Exception):
    pass


class Poison:
    def __repr__(self):
        return "<unknown after loop>"


POISON = Poison()
TEMPLATES = ("first", "same", "firstany", "poison")


def assigned(body):
    """locals assigned by the statements (nested functions excluded); names bound by `except .. as` are dropped"""
    out, skip = [], set()

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            return
        if isinstance(n, ast.ExceptHandler) and n.name:
            skip.add(n.name)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
            out.append(n.id)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for s in body:
        walk(s)
    return [x for x in out if x not in skip]


class Ghost:
    """first error raised by an element so far, number of processed elements per sequence"""

    def __init__(self, active):
        self.first = None
        self.may_fail = True
        self.active = active      # whether errors are to be remembered (the scope was closed without an exception)
        self.calls = []           # (sequence, index)
        self.done = []            # sequences completely processed, in order


def value_of(t, entry, g):
    if t == "first":
        return g.first if g.active and g.first is not None else entry
    if t == "firstany":
        return g.first if g.first is not None else entry
    if t == "same":
        return entry
    return POISON


class Drain:
    def __init__(self, eng, cand):
        self.eng, self.cand, self.failed = eng, cand, None

    def __call__(self, p, s, fr, it=None):
        g = p.ghost
        if isinstance(s, ast.While):
            p.touched = []
            p.truthy(p.eval(s.test, fr)) if False else None
            seq = self.seq_of_test(p, s, fr)
        else:
            seq = it
        if not isinstance(seq, SymSeq):
            return False
        seqname = seq.name
        names = assigned(s.body) if isinstance(s, ast.While) else assigned([s])
        home = {}
        for n in names:
            f = fr
            while f is not None and n not in f.vars:
                f = f.parent
            home[n] = f if f is not None and n in f.vars else fr
        entry = {n: home[n].vars.get(n) for n in names}
        key = lambda n: (s.lineno, n)
        temp = {n: self.cand.setdefault(key(n), 0) for n in names}
        n0 = len(g.calls)
        lo0, hi0, g0 = seq.lo, seq.hi, g.first
        k = p.choose(2, f"loop over {seqname}: step/exit")
        # havoc: `left` elements remain
        left = z3.Int(f"left_{seqname}_{p.nfresh}")
        p.nfresh += 1
        p.assume(left >= 0)
        p.assume(left <= hi0 - lo0)
        if g0 is None and g.may_fail and p.choose(2, "an earlier element failed") == 1:
            p.assume(left < hi0 - lo0)
            g.first = p.exc("earlier error")
        pops = isinstance(s, ast.While)
        down = pops or seq.rev
        at = z3.simplify(lo0 + left - 1) if down else z3.simplify(hi0 - left)
        if pops:
            seq.hi = z3.simplify(lo0 + left)
        for n in names:
            home[n].vars[n] = value_of(TEMPLATES[temp[n]], entry[n], g)
        if k == 0:
            p.assume(left > 0)
            if not p.sat():
                raise PathEnd()
            if not pops:
                p.assign(s.target, seq.elem(p, at), fr)
            try:
                p.block(s.body, fr)
            except _Continue:
                pass
            except _Break:
                g.calls.append((seqname, "broken off"))
                return True
            new = g.calls[n0:]
            p.must(len(new) == 1 and new[0][0] == seqname and not isinstance(new[0][1], str) and not p.sat(new[0][1] != at), "each-once",
                   f"one iteration over {seqname} must process exactly the next element, processed {new}")
            if pops:
                p.must(seq.lo == lo0, "each-once", f"{seqname}: popped from the wrong end")
                p.must(seq.hi == lo0 + left - 1, "each-once", f"{seqname}: the iteration must consume one element")
            for n in names:
                want = value_of(TEMPLATES[temp[n]], entry[n], g)
                if want is POISON:
                    continue
                if home[n].vars.get(n) is not want:
                    self.failed = key(n)
                    raise InvFail(f"{n} is {home[n].vars.get(n)!r}, invariant {TEMPLATES[temp[n]]} says {want!r}")
            raise PathEnd()
        p.assume(left == 0)
        if not p.sat():
            raise PathEnd()
        if not pops:
            for n in [x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)]:
                home[n].vars[n] = POISON
        g.done.append(seqname)
        return True

    def seq_of_test(self, p, s, fr):
        """the sequence whose emptiness the test decides"""
        t = s.test
        if isinstance(t, ast.Compare) or isinstance(t, ast.Call):
            for c in ast.walk(t):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "len":
                    t = c.args[0]
                    break
        if isinstance(t, (ast.Name, ast.Attribute)):
            return p.eval(t, fr)
        return None


def houdini(eng, make, tries=40, **kw):
    """make(handler) -> setup(path); strengthens/weakens the candidate invariants until the exploration succeeds"""
    cand = {}
    r = None
    for _ in range(tries):
        h = Drain(eng, cand)
        r = eng.explore(make(h), **kw)
        if h.failed is None:
            break
        cand[h.failed] += 1
        if cand[h.failed] >= len(TEMPLATES):
            r.status, r.reason, r.bad = "undecided", f"no invariant template is inductive for {h.failed}", {}
            break
        h.failed = None
    r.cand = {f"line {k[0]} {k[1]}": TEMPLATES[min(v, 3)] for k, v in cand.items()}
    return r
