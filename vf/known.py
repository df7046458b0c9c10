"""(no postponed annotations here) Probes of the findings recorded in known_findings.txt: each replays the exact history that fails and returns what failed, or None."""
import inspect
from typing import Generic, TypeVar


def maybe_missing_context():
    from diwire import Container, FromContext, Maybe, MissingPolicy, DependencyRegistrationPolicy
    class A: ...
    class K:
        def __init__(self, a): self.a = a
    def make(a: FromContext[A]) -> K: return K(a)
    c = Container(missing_policy=MissingPolicy.ERROR, dependency_registration_policy=DependencyRegistrationPolicy.IGNORE, use_resolver_context=False)
    c.add_factory(make, provides=K)
    try:
        v = c.compile().resolve(Maybe[K])
    except Exception:
        return None
    if v is None:
        return ("resolver.resolve(Maybe[K]) returns None although K is registered; building K needs a FromContext value that is not supplied "
                "(resolve(K) raises DIWireDependencyNotRegisteredError)")


def star_after_default():
    from diwire import Container, Maybe, MissingPolicy, DependencyRegistrationPolicy
    class A: ...
    class K: ...
    got = []
    def make(a="default", *rest) -> K:
        got.append((a, rest)); return K()
    c = Container(missing_policy=MissingPolicy.ERROR, dependency_registration_policy=DependencyRegistrationPolicy.IGNORE, use_resolver_context=False)
    c.add_instance((1, 2), provides=tuple)
    ps = inspect.signature(make).parameters
    c.add_factory(make, provides=K, dependencies={Maybe[A]: ps["a"], tuple: ps["rest"]})
    c.resolve(K)
    if got and got[0][0] != "default":
        return (f"make(a: Maybe[A] = 'default', *rest: tuple) with A unregistered is called as make(*rest): a received {got[0][0]!r} "
                "(the first element of rest) instead of its default")


def recompile_leak():
    from diwire import Container, Lifetime, MissingPolicy, DependencyRegistrationPolicy
    class A: ...
    class B: ...
    log = []
    def make() :
        log.append("open"); yield A(); log.append("close")
    c = Container(missing_policy=MissingPolicy.ERROR, dependency_registration_policy=DependencyRegistrationPolicy.IGNORE, use_resolver_context=False)
    with c:
        c.add_generator(make, provides=A, lifetime=Lifetime.SCOPED)
        c.resolve(A)
        c.add_instance(B(), provides=B)
        c.resolve(A)
    if log.count("open") != log.count("close"):
        return ("container: root-scoped generator resolved, then another registration, then resolved again and the container closed: "
                f"opened {log.count('open')}, finalised {log.count('close')} (the resolver replaced by the registration is never closed)")


def strict_rebound_on_missing():
    from diwire import Container, MissingPolicy, DependencyRegistrationPolicy
    class A: ...
    c = Container(missing_policy=MissingPolicy.ERROR, dependency_registration_policy=DependencyRegistrationPolicy.IGNORE, use_resolver_context=False)
    c.compile()
    try:
        c.resolve(A, on_missing=MissingPolicy.REGISTER_ROOT)
    except TypeError as e:
        return f"strict container without resolver context, after compile(): container.resolve(K, on_missing=...) raises TypeError: {e}"
    except Exception:
        pass
    return None


def negative_level():
    from diwire import Container, MissingPolicy, DependencyRegistrationPolicy
    from vf.c_scopes import make_ladder
    class A: ...
    lad = make_ladder((-2, -1), (False, False))
    c = Container(root_scope=lad.Sm2, missing_policy=MissingPolicy.ERROR, dependency_registration_policy=DependencyRegistrationPolicy.IGNORE, use_resolver_context=False)
    c.add(A, scope=lad.Sm1)
    try:
        c.compile()
    except SyntaxError as e:
        return f"compile() of a container whose scope tree has levels -2 (root) and -1 raises SyntaxError: {e.msg}"
    return None


PROBES = {"negative-level": negative_level, "maybe-missing-context": maybe_missing_context, "star-after-default": star_after_default,
          "recompile-leak": recompile_leak, "strict-rebound-on-missing": strict_rebound_on_missing}
