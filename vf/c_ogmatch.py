"""Contracts of open-generic matching (open_generics.py: _match_typevars/_match_node, substitute_typevars, contains_typevar, canonicalize_open_key/
_normalize_generic_node, _rebuild_alias, _specificity_score, validate_typevar_arguments/_is_type_argument_valid/_matches_type_constraint,
_is_closed_generic_dependency, find_best_match/has_match_for_dependency, _build_binding_plan).

Type expressions are terms: type variables, classes, aliases of any origin over argument terms. Recursive calls are used by contract (structural
induction), so there is no bound on the depth of a term; aliases have up to three arguments (bounded).
ensures   match     : for every substitution s that extends the mapping: s(template) = concrete iff matching succeeds and s extends the new mapping
                      (hence a match binds every type variable consistently, and a template that matches is never rejected)
          subst     : the result is the term with every bound variable replaced, everything else unchanged
          vars      : contains_typevar, the canonical key and the closed-key test see exactly the variables of the term
          specific  : replacing a variable by something that is no variable makes a template strictly more specific
          validate  : an argument is accepted iff it satisfies the constraints or the bound, DIWireInvalidGenericTypeArgumentError otherwise
          best      : the result is a matching template with valid arguments, maximal by specificity, then by registration; the error iff all
                      matching ones are invalid; nothing if none matches or the key is not closed
          plan      : parameters declared as T or type[T] of the template receive the argument bound to T, everything else is a dependency"""
from __future__ import annotations
import inspect, itertools, z3
from types import new_class
from typing import TypeVar, get_args, get_origin, Generic, Any
from .sym import Engine, Obj, Exc, PyRaise, Unsupported, SV, SB, SI, zi, _model
from .c_rcontext import outcome
from diwire import exceptions as X
from diwire._internal.providers import ProviderDependency
from diwire._internal.markers import AllMarker, ProviderMarker
import diwire._internal.open_generics as og

ASSUMPTIONS = ["typing: get_origin/get_args take an alias apart, origin[args] puts it together, == on aliases is structural (CPython)"]
ARITY = 3
P = lambda n, kind=inspect.Parameter.POSITIONAL_OR_KEYWORD: inspect.Parameter(n, kind)


class Term(SV):
    """a type expression; z: the expression, s: the expression under one arbitrary substitution, has: a variable occurs in it"""


class Terms:
    """terms of one path; what get_origin, get_args, isinstance and == see of them"""

    def __init__(self, p):
        self.p, self.n, self.all = p, 0, []
        self.s = {}              # id(mapping) -> z3 Bool: the substitution extends the mapping
        p.opaque[id(get_origin)] = lambda p, a, k: self.origin(a[0])
        p.opaque[id(get_args)] = lambda p, a, k: self.args(a[0])

    def term(self, name, kinds):
        """kinds: those of tv, leaf, bare, alias the term may have"""
        p = self.p
        self.n += 1
        t = Term(z3.Int(f"{name}{self.n}"), f"{name}{self.n}")
        p.assume(t.z > 0)
        t.kinds, t.kind, t.name = kinds, None, f"{name}{self.n}"
        t.s = z3.Int(f"s_{t.name}")
        t.has = z3.Bool(f"has_{t.name}")
        t.sc = z3.Int(f"score_{t.name}")
        t.canon = z3.Int(f"canon_{t.name}")
        p.assume(z3.Implies(z3.Not(t.has), t.s == t.z))
        if "tv" not in kinds and "bare" not in kinds and kinds != ("any",):
            pass
        t.facts["isinstance"] = lambda p, T: self.isinstance(t, T)
        t.facts["eq"] = lambda p, o: self.eq(t, o)
        t.on_attr = self.attr
        t.parts = None
        self.all.append(t)
        p.keep.append(t)
        return t

    def look(self, t):
        """the kind of a term, chosen when the code first asks"""
        if t.kind is None:
            p = self.p
            t.kind = t.kinds[p.choose(len(t.kinds), t.name + " is " + "/".join(t.kinds))]
            if t.kind == "alias":
                n = p.choose(ARITY + 1, f"arguments of {t.name}")
                t.o = p.fresh("origin", (None,))
                t.o.facts["ident_eq"] = True
                t.parts = tuple(self.child(t, i) for i in range(n))
                p.assume(t.has == z3.Or([z3.BoolVal(False)] + [c.has for c in t.parts if c is not None]))
            else:
                p.assume(t.has == (t.kind in ("tv", "bare")))
                t.parts = ()
        return t.kind

    def child(self, t, i):
        ks = t.childkinds if hasattr(t, "childkinds") else t.kinds
        if "none" in ks:
            ks = tuple(k for k in ks if k != "none")
            if self.p.choose(2, f"argument {i} of {t.name} is None") == 1:
                return None
        c = self.term(f"{t.name}.", ks)
        if hasattr(t, "childkinds"):
            c.childkinds = t.childkinds
        if "tv" not in ks and "bare" not in ks:
            self.p.assume(z3.Not(c.has))
        return c

    def z(self, t):
        return z3.IntVal(0) if t is None else t.z

    def sub(self, t):
        return z3.IntVal(0) if t is None else t.s

    def hasz(self, t):
        return z3.BoolVal(False) if t is None else t.has

    def origin(self, t):
        if not isinstance(t, Term):
            return self.p.real(get_origin, [t], {}) if not isinstance(t, (SV, Obj)) else None
        return t.o if self.look(t) == "alias" else None

    def args(self, t):
        if not isinstance(t, Term):
            return self.p.real(get_args, [t], {}) if not isinstance(t, (SV, Obj)) else ()
        self.look(t)
        return t.parts

    def isinstance(self, t, T):
        if T is TypeVar:
            return self.look(t) == "tv"
        if T in (AllMarker, ProviderMarker):
            return False
        if T is type:
            return self.look(t) in ("leaf", "bare")
        raise Unsupported(f"isinstance of a type expression with {T}")

    def eq(self, t, o):
        if o is None or not isinstance(o, Term):
            return False
        return SB(t.z == o.z)

    def attr(self, p, t, n):
        k = self.look(t)
        if n == "__parameters__":
            if k == "bare":
                if not hasattr(t, "params"):
                    t.params = (self.term(f"{t.name}param", ("tv",)),)
                    self.look(t.params[0])
                return t.params
            if k == "leaf":
                if p.choose(2, f"{t.name} has an empty __parameters__") == 1:
                    return ()
                raise PyRaise(Exc(AttributeError, (n,)))
            if k == "tv":
                raise PyRaise(Exc(AttributeError, (n,)))
        if n == "__name__":
            return t.name
        raise Unsupported(f"attribute {n} of a type expression")


# ------------------------------------------------------------------------------------------------ match
def matches(ts, t, c):
    """the substitution maps the template t to the concrete term c (both looked at one level deep)"""
    if c is None and t is None:
        return z3.BoolVal(True)
    if t is None:
        return z3.BoolVal(False)
    k = ts.look(t)
    if k == "tv":
        return t.s == ts.z(c)
    if k == "leaf":
        return z3.BoolVal(False) if c is None else t.z == c.z
    if c is None or ts.look(c) != "alias" or len(c.parts) != len(t.parts):
        return z3.BoolVal(False)
    return z3.And([t.o.z == c.o.z] + [ts.sub(a) == ts.z(b) for a, b in zip(t.parts, c.parts)])


def match_contract(ts):
    def h(p, a, kw):
        t, c, m = [*a, *(kw[k] for k in ("template", "concrete", "mapping") if k in kw)]
        S = ts.s.get(id(m))
        if S is None:
            if m != {}:
                raise Unsupported("matching with an unknown mapping")
            S = z3.BoolVal(True)
            p.keep.append(m)
        ts.n += 1
        S2, ok = z3.Bool(f"S_{ts.n}"), z3.Bool(f"ok_{ts.n}")
        e = ts.sub(t) == ts.z(c)
        p.assume(z3.If(ok, S2 == z3.And(S, e), z3.Not(z3.And(S, e))))
        ts.s[id(m)] = S2
        ts.calls.append((t, c, m, ok))
        return SB(ok)
    return h


def mapping(ts, names=()):
    """a dict from type variables to concrete terms, of which nothing is known but what it says when asked"""
    p = ts.p
    m = Obj(dict, "mapping")
    ts.s[id(m)] = z3.Bool("S_0")
    over = []

    def find(t):
        for kk, v in reversed(over):
            if p.branch(kk.z == t.z, "same variable"):
                return True, v
        if p.choose(2, f"{t.name} is bound") == 0:
            over.insert(0, (t, _NONE))
            return False, None
        v = None if p.choose(2, f"{t.name} is bound to None") == 1 else ts.term("bound", ("leaf", "alias"))
        if v is not None:
            p.assume(z3.Not(v.has))
        p.assume(z3.Implies(ts.s[id(m)], t.s == ts.z(v)))
        over.insert(0, (t, v))
        return True, v

    def look(t):
        if not isinstance(t, Term):
            return False, None
        ok, v = find(t)
        return (False, None) if v is _NONE else (ok, v)

    def setit(t, v):
        ok, old = look(t)
        if ok:
            p.must(ts.z(old) == ts.z(v), "match", f"the binding of {t} is overwritten")
        ts.s[id(m)] = z3.And(ts.s[id(m)], t.s == ts.z(v))
        over.append((t, v))

    def getit(t):
        ok, v = look(t)
        if not ok:
            raise PyRaise(Exc(KeyError, (t,)))
        return v

    def setdefault(t, d=None):
        ok, v = look(t)
        if not ok:
            setit(t, d)
            v = d
        return v
    for f, n in ((lambda t, d=None: (lambda r: r[1] if r[0] else d)(look(t)), "get"), (getit, "__getitem__"), (setit, "__setitem__"), (setdefault, "setdefault"),
                 (lambda t: look(t)[0], "__contains__")):
        m.fields[n] = _model(f)
    return m


_NONE = object()
TPL, CON = ("tv", "leaf", "alias"), ("leaf", "alias", "none")


def go_match(p):
    ts = Terms(p)
    ts.calls = []
    t = ts.term("template", TPL)
    c = None if p.choose(2, "the concrete argument is None") == 1 else ts.term("concrete", ("leaf", "alias"))
    if c is not None:
        c.childkinds = CON
        p.assume(z3.Not(c.has))
    m = mapping(ts)
    S = ts.s[id(m)]
    f = og._match_node
    top = []

    def rec(p, fn, a, k):
        if fn is not f:
            return NOT
        if not top:
            top.append(1)
            return NOT
        return match_contract(ts)(p, a, k)
    from .sym import NOTIMPL as NOT
    p.contracts.append(rec)
    kk, r = outcome(p, lambda: p.call(f, [], dict(template=t, concrete=c, mapping=m)), False)
    p.must(kk == "ok", "match", f"matching raises {r!r}")
    e = matches(ts, t, c)
    ok = p.truthy(r, "matched")
    if ok:
        p.must(z3.simplify(ts.s[id(m)] == z3.And(S, e)), "match", f"{t.kind} matched against {c and c.kind}, but the bindings are not those that make them equal")
    else:
        p.must(z3.Not(z3.And(S, e)), "match", f"{t.kind} rejected for {c and c.kind} although a consistent binding exists")


def go_match_top(p):
    ts = Terms(p)
    ts.calls = []
    t, c = ts.term("template", TPL), ts.term("concrete", ("leaf", "alias"))
    p.opaque[id(og._match_node)] = match_contract(ts)
    kk, r = outcome(p, lambda: p.call(og._match_typevars, [], dict(template=t, concrete=c)), False)
    p.must(kk == "ok", "match", f"matching raises {r!r}")
    if r is None:
        p.must(z3.Not(t.s == c.z), "match", "no mapping although the template matches")
    else:
        p.must(id(r) in ts.s, "match", "the mapping is not the one that was matched")
        p.must(ts.s[id(r)] == (t.s == c.z), "match", "the mapping does not make the template equal to the key")


# ------------------------------------------------------------------------------------------------ substitution, variables, canonical keys
def rebuild_contract(ts):
    def h(p, a, kw):
        o, args, fb = [*a, *(kw[k] for k in ("origin", "args", "fallback") if k in kw)]
        r = ts.term("built", ("alias",))
        r.kind, r.o, r.parts, r.fb = "alias", o, tuple(args), fb
        p.assume(r.has == z3.Or([z3.BoolVal(False)] + [ts.hasz(c) for c in r.parts]))
        return r
    return h


def same_term(ts, r, origin, parts):
    """r is origin[parts] (parts: z3 terms)"""
    if not isinstance(r, Term) or r.kind != "alias" or len(r.parts) != len(parts):
        return z3.BoolVal(False)
    return z3.And([r.o.z == origin.z] + [ts.z(x) == y for x, y in zip(r.parts, parts)])


def recursive(p, f, contract):
    """the first call of f runs its body, the others are used by contract"""
    from .sym import NOTIMPL
    top = []

    def rec(p, fn, a, k):
        if fn is not f:
            return NOTIMPL
        if not top:
            top.append(1)
            return NOTIMPL
        return contract(p, a, k)
    p.contracts.append(rec)


def go_subst(p):
    """s is the substitution the mapping stands for: unbound variables stay"""
    ts = Terms(p)
    v = ts.term("value", TPL)
    bound = {}

    def look(t):
        if not isinstance(t, Term):
            return False, None
        if id(t) not in bound:
            bound[id(t)] = (False, None) if p.choose(2, f"{t.name} is bound") == 0 else (True, ts.term("arg", ("leaf",)))
            p.assume(t.s == (ts.z(bound[id(t)][1]) if bound[id(t)][0] else t.z))
        return bound[id(t)]

    def getit(t):
        if not look(t)[0]:
            raise PyRaise(Exc(KeyError, (t,)))
        return look(t)[1]
    m = Obj(dict, "mapping")
    for f, n in ((lambda t, d=None: (lambda r: r[1] if r[0] else d)(look(t)), "get"), (getit, "__getitem__"), (lambda t: look(t)[0], "__contains__")):
        m.fields[n] = _model(f)
    sub = {}

    def contract(p, a, kw):
        t, mm = [*a, *(kw[k] for k in ("value", "mapping") if k in kw)]
        p.must(mm is m, "subst", "another mapping is used for a part of the term")
        if t is None:
            return None
        r = ts.term("sub", ("leaf",))
        p.assume(r.z == t.s)
        p.assume(z3.Implies(z3.Not(t.has), r.z == t.z))
        return r
    recursive(p, og.substitute_typevars, contract)
    p.opaque[id(og._rebuild_alias)] = rebuild_contract(ts)
    p.opaque[id(og.contains_typevar)] = lambda p, a, k: SB(a[0].has)
    mk = p.choose(3, "a plain term, All, Provider")
    arg = v if mk == 0 else AllMarker(v) if mk == 1 else ProviderMarker(v, True)
    kk, r = outcome(p, lambda: p.call(og.substitute_typevars, [arg], dict(mapping=m)), False)
    p.must(kk == "ok", "subst", f"substitution raises {r!r}")
    if mk:
        p.must(type(r) is type(arg) and r[1:] == arg[1:], "subst", f"{arg!r} became {r!r}")
        p.must(ts.z(r[0]) == v.s, "subst", "the key behind the marker is not substituted")
        return
    k = ts.look(v)
    if k == "tv":
        look(v)
    if r is v:
        p.must(z3.Or(v.z == v.s, z3.Not(v.has), *([z3.And([ts.z(c) == ts.sub(c) for c in v.parts])] if k == "alias" else [])) if k != "leaf" else True, "subst",
               f"a {k} with bound variables is left as it is")
    elif k == "alias":
        p.must(same_term(ts, r, v.o, [ts.sub(c) for c in v.parts]), "subst", "the alias is not rebuilt from the substituted arguments")
    else:
        p.must(isinstance(r, Term) or r is None, "subst", f"result {r!r}")
        p.must(ts.z(r) == v.s if k == "tv" else ts.z(r) == v.z, "subst", f"a {k} became something else")


def go_contains(p):
    ts = Terms(p)
    v = None if p.choose(2, "None") == 1 else ts.term("value", (*TPL, "bare"))
    recursive(p, og.contains_typevar, lambda p, a, k: False if a[0] is None else SB(a[0].has))
    kk, r = outcome(p, lambda: p.call(og.contains_typevar, [v], {}), False)
    p.must(kk == "ok", "vars", f"contains_typevar raises {r!r}")
    if v is not None:
        ts.look(v)
    p.must((z3.BoolVal(p.truthy(r, "contains")) == ts.hasz(v)), "vars", "contains_typevar disagrees with the variables of the term")


def go_canon(fname):
    def setup(p):
        ts = Terms(p)
        v = ts.term("key", ("leaf", "bare", "alias", "tv"))

        def norm(p, a, kw):
            t = [*a, *kw.values()][0]
            if t is None:
                return None
            r = ts.term("canonical", ("leaf",))
            p.assume(r.z == t.canon)
            p.assume(r.has == t.has)
            return r
        f = getattr(og, fname)
        if fname == "_normalize_generic_node":
            recursive(p, f, norm)
        else:
            p.opaque[id(og._normalize_generic_node)] = norm
        p.opaque[id(og._rebuild_alias)] = rebuild_contract(ts)
        p.opaque[id(og.contains_typevar)] = lambda p, a, k: SB(a[0].has) if a[0] is not None else False
        kk, r = outcome(p, lambda: p.call(f, [v], {}), False)
        p.must(kk == "ok", "vars", f"{fname} raises {r!r}")
        k = ts.look(v)
        if k == "tv":
            for_tv = r is None if fname == "canonicalize_open_key" else r is v
            p.must(for_tv, "vars", f"a bare type variable becomes {r!r}")
            return
        if fname == "canonicalize_open_key":
            if r is None:
                p.must(z3.Not(v.has), "vars", f"a {k} with type variables is not an open key")
                return
            p.must(v.has, "vars", f"a {k} without type variables becomes an open key")
        if k == "leaf":
            p.must(r is v, "vars", f"a class became {r!r}")
        elif k == "alias":
            p.must(same_term(ts, r, v.o, [z3.IntVal(0) if c is None else c.canon for c in v.parts]), "vars", "the canonical key has other arguments")
        else:
            params = v.params
            p.must(isinstance(r, Term) and r.kind == "alias" and r.o is v and len(r.parts) == len(params), "vars", "a generic class is not expanded by its parameters")
            for x, y in zip(r.parts, params):
                p.must(z3.Or(x.z == y.z, x.z == y.canon), "vars", "a generic class is expanded by other parameters")
    return setup


def go_closed(p):
    ts = Terms(p)
    v = ts.term("key", ("leaf", "bare", "alias", "tv"))
    p.opaque[id(og.contains_typevar)] = lambda p, a, k: SB(a[0].has) if a[0] is not None else False
    kk, r = outcome(p, lambda: p.call(og._is_closed_generic_dependency, [v], {}), False)
    p.must(kk == "ok", "vars", f"raises {r!r}")
    k = ts.look(v)
    b = p.truthy(r, "closed")
    p.must(z3.BoolVal(b) == z3.And(k == "alias" and len(v.parts) > 0, z3.Not(v.has)), "vars", f"a {k} is{'' if b else ' not'} a closed generic key")


def go_rebuild(p):
    A = type("A", (), {})
    T, U = TypeVar("T"), TypeVar("U")
    G1 = new_class("G1", (Generic[T],))
    G2 = new_class("G2", (Generic[T, U],))

    class Not:
        pass
    for o, a in ((list, (A,)), (dict, (A, int)), (G1, (A,)), (G2, (A, int)), (G1, (T,)), (tuple, (A, A, A)), (tuple, (A, ...)), (G1, (list[A],))):
        r = p.real(og._rebuild_alias, [], dict(origin=o, args=a, fallback=None))
        p.must(get_origin(r) is o and get_args(r) == a, "subst", f"{o}[{a}] became {r!r}")
    p.must(p.real(og._rebuild_alias, [], dict(origin=Not, args=(A,), fallback=5)) == 5, "subst", "no fallback for an origin that cannot be subscripted")


# ------------------------------------------------------------------------------------------------ specificity
def go_specific(p):
    """t and one of its instances i: score(i) >= score(t), strictly if a variable of t became something that is no variable"""
    ts = Terms(p)
    t = ts.term("template", TPL)
    k = ts.look(t)
    strict = z3.Bool("strict")
    pairs = []
    if k == "tv":
        i = ts.term("instance", ("leaf", "alias", "tv"))
        i.childkinds = TPL
        ki = ts.look(i)
        p.assume(strict == (ki != "tv"))
    elif k == "leaf":
        i = t
        p.assume(z3.Not(strict))
    else:
        i = ts.term("instance", ("alias",))
        i.kind, i.o = "alias", t.o
        i.parts = tuple(ts.term(f"{c.name}'", TPL) for c in t.parts)
        st = []
        for a, b in zip(t.parts, i.parts):
            s = z3.Bool(f"strict_{a.name}")
            st.append(s)
            p.assume(b.sc >= a.sc)
            p.assume(z3.Implies(s, b.sc > a.sc))
        p.assume(strict == z3.Or([z3.BoolVal(False)] + st))
    for x in ts.all:
        p.assume(x.sc >= 0)

    res = []
    for x in (t, i):
        q = [0]

        def contract(p, fn, a, kw):
            from .sym import NOTIMPL
            if fn is not og._specificity_score:
                return NOTIMPL
            q[0] += 1
            if q[0] == 1:
                return NOTIMPL
            v = [*a, *kw.values()][0]
            if not isinstance(v, Term):
                return NOTIMPL
            p.assume(v.sc >= 0)
            return SI(v.sc)
        p.contracts.append(contract)
        kk, r = outcome(p, lambda: p.call(og._specificity_score, [x], {}), False)
        p.contracts.pop()
        p.must(kk == "ok" and isinstance(r, (int, SI)), "specific", f"the specificity is {r!r}")
        res.append(zi(r))
    p.must(res[0] >= 0, "specific", "negative specificity")
    p.must(res[1] >= res[0], "specific", f"an instance of a {k} is less specific")
    p.must(z3.Implies(strict, res[1] > res[0]), "specific", f"a strict instance of a {k} is not more specific")


# ------------------------------------------------------------------------------------------------ bounds and constraints
def go_validate(p):
    n = p.choose(3, "type variables")
    m, flags = {}, []
    for i in range(n):
        shape = p.choose(3, f"variable {i}: free, bound, constrained")
        tv = (lambda: TypeVar(f"T{i}"), lambda: TypeVar(f"T{i}", bound=int), lambda: TypeVar(f"T{i}", int, str))[shape]()
        m[tv] = object
    seen = {}

    def valid(p, a, kw):
        tv, arg = [*a, *(kw[k] for k in ("typevar", "argument") if k in kw)]
        p.must(m.get(tv) is arg, "validate", f"the argument of {tv} is taken for {arg}")
        if tv not in seen:
            seen[tv] = p.choose(2, f"{tv} is valid") == 0
        return seen[tv]
    p.opaque[id(og._is_type_argument_valid)] = valid
    kk, r = outcome(p, lambda: p.call(og.validate_typevar_arguments, [m], {}), False)
    if kk == "raise":
        p.must(isinstance(r, Exc) and r.cls is X.DIWireInvalidGenericTypeArgumentError, "validate", f"raises {r!r}")
        p.must(not all(seen.values()), "validate", "valid arguments are rejected")
    else:
        p.must(len(seen) == n and all(seen.values()), "validate", "an invalid argument is accepted")


def go_valid_argument(p):
    n = p.choose(4, "constraints")
    bound = p.choose(2, "bound") == 1
    Cs = [type(f"C{i}", (), {}) for i in range(n)]
    B = type("B", (), {})
    if n == 1:
        return                       # typing wants at least two constraints
    tv = TypeVar("T", *Cs) if n else TypeVar("T", bound=B) if bound else TypeVar("T")
    arg = p.fresh("argument")
    seen = {}

    def m(p, a, kw):
        x, c = [*a, *(kw[k] for k in ("argument", "constraint") if k in kw)]
        p.must(x is arg, "validate", "another argument is checked")
        if c not in seen:
            seen[c] = p.choose(2, f"satisfies {c.__name__}") == 0
        return seen[c]
    p.opaque[id(og._matches_type_constraint)] = m
    kk, r = outcome(p, lambda: p.call(og._is_type_argument_valid, [], dict(typevar=tv, argument=arg)), False)
    p.must(kk == "ok", "validate", f"raises {r!r}")
    b = p.truthy(r, "valid")
    if n:
        p.must(b == any(seen.get(c, False) for c in Cs) and (b or len(seen) == n) and set(seen) <= set(Cs), "validate", "constraints are not what decides")
    elif bound:
        p.must(b == seen.get(B) and set(seen) == {B}, "validate", "the bound is not what decides")
    else:
        p.must(b is True, "validate", "an argument of a free variable is rejected")


def go_constraint(p):
    class Base:
        pass

    class Sub(Base):
        pass

    class Meta(type):
        def __subclasscheck__(cls, sub):
            raise TypeError("no")

    class Odd(metaclass=Meta):
        pass
    T = TypeVar("T")
    Gn = new_class("Gn", (Generic[T],))
    Gs = new_class("Gs", (Gn,))
    for a, c, want in ((Base, Any, True), (Sub, Base, True), (Base, Sub, False), (Base, Base, True), (list[int], list, True), (list[int], dict, False), (Gs, Gn[int], True),
                       (Gs, Gn, True), (Gn[int], Gn[str], True), (int, Base, False), (Sub, Odd, False), (None, None, True), (None, Base, False), ("x", "x", True),
                       (int | str, int | str, True), (3, Base, False), (list[int], Any, True), (bool, int, True)):
        kk, r = outcome(p, lambda: p.call(og._matches_type_constraint, [], dict(argument=a, constraint=c)), False)
        p.must(kk == "ok", "validate", f"{a} against {c} raises {r!r}")
        p.must(bool(r) == want, "validate", f"{a} against {c}: {r}")


# ------------------------------------------------------------------------------------------------ the best match
def go_best(n, has):
    def setup(p):
        reg = og._OpenGenericRegistry()
        specs, info = {}, {}
        orders = []
        for i in range(n):
            key, s = p.fresh("key"), Obj(og._OpenGenericSpec, f"spec{i}")
            od = p.fresh_int("order")
            for o in orders:
                p.assume(o.z != od.z)
            orders.append(od)
            s.fields.update(canonical_key=key, registration_order=od)
            specs[key] = s
            info[id(key)] = dict(spec=s, m=p.choose(2, f"template {i} matches") == 0, valid=None, score=p.fresh_int("specificity"), order=od)
        p.setattr(reg, "_specs_by_key", specs)
        dep = p.fresh("dependency")
        closed = p.choose(2, "the key is closed") == 0
        p.opaque[id(og._is_closed_generic_dependency)] = lambda p, a, k: closed
        maps = {}

        def match(p, a, kw):
            t, c = [*a, *(kw[k] for k in ("template", "concrete") if k in kw)]
            p.must(c is dep, "best", "something else is matched")
            i = info[id(t)]
            if not i["m"]:
                return None
            mm = p.own({p.fresh("typevar"): p.fresh("argument")})
            maps[id(mm)] = i
            i["map"] = mm
            return mm

        def validate(p, a, kw):
            i = maps[id([*a, *kw.values()][0])]
            if i["valid"] is None:
                i["valid"] = p.choose(2, f"the arguments of {i['spec']} are valid") == 0
            if not i["valid"]:
                i["err"] = Exc(X.DIWireInvalidGenericTypeArgumentError, ())
                raise PyRaise(i["err"])
        p.opaque[id(og._match_typevars)] = match
        p.opaque[id(og.validate_typevar_arguments)] = validate
        p.opaque[id(og._specificity_score)] = lambda p, a, k: info[id([*a, *k.values()][0])]["score"]
        kk, r = outcome(p, lambda: p.call(p.getattr(reg, "has_match_for_dependency" if has else "find_best_match"), [dep], {}), False)
        p.must(all(k in specs and specs[k] is info[id(k)]["spec"] for k in p.getattr(reg, "_specs_by_key")) and len(p.getattr(reg, "_specs_by_key")) == n, "best",
               "looking for a match changes the registrations")
        if not closed:
            p.must(kk == "ok" and (r is None or r is False), "best", f"a key that is not closed gives {r!r}")
            return
        good = [i for i in info.values() if i["m"] and i["valid"] is not False]
        bad = [i for i in info.values() if i["m"] and i["valid"] is False]
        if has and good:
            p.must(kk == "ok" and p.truthy(r, "has"), "best", f"a match exists, the answer is {kk} {r!r}")
        elif good:
            p.must(kk == "ok" and r is not None, "best", f"a match exists, the result is {kk} {r!r}")
            s, mm = p.getattr(r, "spec"), p.getattr(r, "typevar_map")
            w = next((i for i in good if i["spec"] is s), None)
            p.must(w is not None and w["valid"] is True and mm is w["map"], "best", f"the result {s!r} is not a valid match with its own arguments")
            for i in good:
                p.must(z3.Or(w["score"].z > i["score"].z, z3.And(w["score"].z == i["score"].z, w["order"].z >= i["order"].z)), "best",
                       f"{i['spec']!r} is more specific, or equally specific and registered later, than the chosen {s!r}")
        elif bad:
            p.must(kk == "raise" and any(r is i["err"] for i in bad), "best", f"all matches are invalid, the outcome is {kk} {r!r}")
        else:
            p.must(kk == "ok" and (r is None or r is False), "best", f"nothing matches, the outcome is {kk} {r!r}")
    return setup


# ------------------------------------------------------------------------------------------------ binding plans
def go_plan(p):
    T, U, Foreign = TypeVar("T"), TypeVar("U"), TypeVar("Foreign")
    G1 = new_class("G1", (Generic[T],))
    for dep, kind, tv in ((T, "generic_argument", T), (U, "generic_argument", U), (Foreign, "dependency", None), (type[T], "generic_argument_type", T),
                          (type[Foreign], "dependency", None), (type[int], "dependency", None), (list[T], "dependency", None), (int, "dependency", None),
                          (G1[T], "dependency", None), (type, "dependency", None), (type[list[T]], "dependency", None)):
        d = ProviderDependency(provides=dep, parameter=P("x"))
        kk, r = outcome(p, lambda: p.call(og._build_binding_plan, [], dict(dependency=d, template_typevars=(T, U))), False)
        p.must(kk == "ok", "plan", f"{dep}: raises {r!r}")
        p.must(p.getattr(r, "kind") == kind and p.getattr(r, "dependency") is d, "plan", f"{dep} is a {p.getattr(r, 'kind')}")
        p.must(p.getattr(r, "typevar") is tv if tv is not None else p.getattr(r, "template") is dep, "plan", f"{dep}: bound to {p.getattr(r, 'typevar')}, {p.getattr(r, 'template')}")


def go_collect(p):
    T, U = TypeVar("T"), TypeVar("U")
    G2 = new_class("G2", (Generic[T, U],))
    for v, want in ((T, (T,)), (list[T], (T,)), (dict[U, list[T]], (U, T)), (int, ()), (G2[T, T], (T,)), (G2[int, U], (U,)), (G2, (T, U)), (list[G2[U, int]], (U,))):
        kk, r = outcome(p, lambda: p.call(og._collect_typevars, [v], {}), False)
        p.must(kk == "ok" and set(r) == set(want) and len(r) == len(want), "plan", f"the variables of {v} are {r!r}")


UNITS = {"match": go_match, "match-top": go_match_top, "subst": go_subst, "contains": go_contains, "closed": go_closed, "rebuild": go_rebuild,
         "canon": go_canon("canonicalize_open_key"), "normalize": go_canon("_normalize_generic_node"), "specific": go_specific, "validate": go_validate,
         "valid-argument": go_valid_argument, "constraint": go_constraint, "plan": go_plan, "collect": go_collect}


def units(tier, seed, opts):
    return [(u,) for u in UNITS] + [("best", n, h) for n in range(4) for h in (False, True)]


# ------------------------------------------------------------------------------------------------ replay on real terms
def search():
    """a real input on which matching, substitution or selection is wrong, or None"""
    T, U, V = TypeVar("T"), TypeVar("U"), TypeVar("V")
    B = TypeVar("B", bound=int)
    C = TypeVar("C", int, str)
    G1 = new_class("G1", (Generic[T],))
    G2 = new_class("G2", (Generic[T, U],))
    G3 = new_class("G3", (Generic[T, U, V],))
    atoms = [int, str, bool, None, list[int], list[None], dict[int, str], G1[int], G1[list[int]]]
    tats = [T, U, int, list[T], list[U], G1[T], dict[T, U], G1[list[T]], B, C]
    tpls = [G1[x] for x in tats if og.contains_typevar(x)] + [G2[x, y] for x in tats for y in tats if og.contains_typevar(x) or og.contains_typevar(y)] + \
        [G3[x, y, z] for x in (T, U, int) for y in (T, U, list[T]) for z in (T, V, U)]
    cons = [G1[x] for x in atoms] + [G2[x, y] for x in atoms for y in atoms] + [G3[x, y, z] for x in atoms[:3] for y in (int, list[int], str) for z in atoms[:3]]

    def ref(t, c, m):
        if isinstance(t, TypeVar):
            if t in m:
                return m[t] == c or {m[t], c} == {None, type(None)}
            m[t] = c
            return True
        if get_origin(t) is None:
            return t == c
        return get_origin(t) == get_origin(c) and len(get_args(t)) == len(get_args(c)) and all(ref(a, b, m) for a, b in zip(get_args(t), get_args(c)))

    def sub(t, m):
        if isinstance(t, TypeVar):
            return m.get(t, t)
        return get_origin(t)[tuple(sub(a, m) for a in get_args(t))] if get_args(t) else t

    def valid(m):
        def one(tv, a):
            def ok(c):
                x, y = get_origin(a) or a, get_origin(c) or c
                return issubclass(x, y) if isinstance(x, type) and isinstance(y, type) else a == c
            return any(map(ok, tv.__constraints__)) if tv.__constraints__ else tv.__bound__ is None or ok(tv.__bound__)
        return all(one(tv, a) for tv, a in m.items())

    def general(a, b):
        """b is a strict instance of a"""
        def inst(t, c, m):
            if isinstance(t, TypeVar):
                return m.setdefault(t, c) == c
            if isinstance(c, TypeVar):
                return False
            return t == c if get_origin(t) is None else get_origin(t) == get_origin(c) and all(inst(x, y, m) for x, y in zip(get_args(t), get_args(c)))
        m = {}
        return inst(a, b, m) and any(not isinstance(x, TypeVar) for x in m.values())
    by = {}
    for t in tpls:
        for c in cons:
            if get_origin(t) is not get_origin(c):
                continue
            m = {}
            want = m if ref(t, c, m) else None
            got = og._match_typevars(template=og.canonicalize_open_key(t), concrete=c)
            if (got is None) != (want is None) or want is not None and dict(got) != want and {k: v or type(None) for k, v in got.items()} != {k: v or type(None) for k, v in want.items()}:
                return f"matching {t} against {c} gives {got}, expected {want}"
            if want is not None:
                by.setdefault(c, []).append((t, want))
                if og.substitute_typevars(t, mapping=want) != sub(t, want):
                    return f"substituting {want} in {t} gives {og.substitute_typevars(t, mapping=want)}"
                try:
                    og.validate_typevar_arguments(want)
                    v = True
                except X.DIWireInvalidGenericTypeArgumentError:
                    v = False
                if v != valid(want):
                    return f"the arguments {want} are {'accepted' if v else 'rejected'}"
    for c, ms in by.items():
        for (t1, m1), (t2, m2) in itertools.permutations(ms[:14], 2):
            r = og._OpenGenericRegistry()
            for t in (t1, t2):
                r.register(provides=t, provider_kind="factory", provider=lambda: 0, lifetime=None, scope=None, lock_mode="auto", is_async=False, is_any_dependency_async=False,
                           needs_cleanup=False, dependencies=[])
            try:
                b = r.find_best_match(c)
                got = b and b.spec.canonical_key
            except X.DIWireInvalidGenericTypeArgumentError:
                got = "invalid"
            ok = [t for t, m in ((t1, m1), (t2, m2)) if valid(m)]
            want = {"invalid"} if not ok else {ok[0]} if len(ok) == 1 else {t1} if general(t2, t1) else {t2} if general(t1, t2) else {t1, t2}
            if len(want) == 2 and og._specificity_score(t1) == og._specificity_score(t2):
                want = {t2}
            if got not in want:
                return f"{c} with templates {t1} and {t2} resolves with {got}, expected {want}"
    return None


def run(u, deadline, col):
    eng = Engine()
    g = go_best(u[1], u[2]) if u[0] == "best" else UNITS[u[0]]
    r = eng.explore(g, deadline=deadline)
    label = "open generics: " + " ".join(map(str, u))

    def replay():
        w = search()
        return w and dict(category=r.failed, message=w, log=[label])
    col.result(label, r, replay)
    col.engine(eng)
