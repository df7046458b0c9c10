"""property -> what decides it: contract groups (vf/contracts_*.py) and bounded scenario families with the categories of divergence
that count for the property, case counts (quick, thorough)."""

ANY = None
ARGK = dict(pkinds=[("PK", 5), ("KO", 4), ("PO", 4), ("VP", 2), ("VK", 2)], ndeps=[(0, 1), (1, 3), (2, 4), (3, 3), (4, 2)], p_missing=.12,
            wraps=[("plain", 8), ("maybe", 4), ("all", 1.2), ("prov", 1), ("aprov", .7), ("ctx", .8), ("none", .5)])

DECOS = ("bound", "decorated", "pending", "pending2", "decorated2", "pending-bound", "rebound", "gen-decorated", "contract-decorated")

CTXK = dict(wraps=[("plain", 5), ("maybe", 1), ("all", .5), ("prov", 1), ("aprov", .5), ("ctx", 7), ("none", .3)], p_ctx=.9)
# scenario, profile overrides, categories, quick, thorough
PROPS = {
    "C01": dict(contracts=[("slots", {"once", "value", "cell", "frame", "rank"}, dict(pairs=150)), ("ogbuild", {"once", "key"}, dict(what=("resolve", "open"))),
                           ("dispatch", {"key", "inline", "memo"}, {}), ("planner", {"cached"}, dict(what=("flags",)))], scen=[
        ("lab", {}, {"ident", "count", "err-other", "all", "arg"}, 2500, 40000),
        ("lab", dict(wraps=[("plain", 1)], n=(3, 6), p_async=.1, p_fault=0, p_fin=0, ops=[("resolve", 9), ("enter", 2.5), ("close", 1)]),
         {"ident", "count", "err-other", "all", "arg"}, 1500, 20000),
        ("ogen", {}, {"ident", "count"}, 800, 10000)]),
    "C02": dict(contracts=[("exits", ANY, {}), ("slots", {"cleanup"}, dict(graphs=(160, 2500), pairs=100)),
                           ("registry", {"cleanup"}, dict(keys=("K",), hists=("gen-bound", "used", "used-gen", "gen-decorated", "other-gen"))),
                           ("ogbuild", {"cleanup"}, dict(what=("build",)))], scen=[
        ("lab", dict(kinds=[("concrete", 1), ("factory", 2), ("generator", 5), ("cm", 4), ("instance", .2)], p_fin=.35, p_swallow=.15,
                     ops=[("resolve", 7), ("enter", 3), ("close", 2), ("handle", .5)]), {"fin-order", "fin-count", "fin-err", "fin-exc"}, 3000, 45000),
        ("ogen", dict(tkinds=[("concrete", 1), ("factory", 1), ("generator", 4), ("cm", 3)], p_fin=.3),
         {"fin-order", "fin-count", "fin-err", "fin-exc"}, 1500, 20000)], known=["recompile-leak"]),
    "C03": dict(contracts=[("scopes", ANY, {})], known=["negative-level"], scen=[
        ("ladder", {}, ANY, 2500, 40000),
        ("lab", dict(n=(1, 4), steps=(10, 26), ops=[("resolve", 3), ("enter", 7), ("close", 2.5), ("handle", .2)]), {"enter", "ident"}, 3000, 45000),
        ("lab", dict(n=(1, 2), p_og=.5, steps=(8, 20), roots=[(1, 3), (2, 1), (3, 1), (4, .5)],
                     ops=[("resolve", 1), ("enter", 7), ("close", 2)]), {"enter", "ident"}, 2000, 25000)]),
    "C04": dict(contracts=[("chain", {"context"}, {}), ("scopes", {"context"}, {}), ("slots", {"args"}, dict(graphs=(200, 3000), profile=CTXK))], scen=[
        ("lab", dict(wraps=[("plain", 5), ("maybe", 1), ("all", .5), ("prov", 1), ("aprov", .5), ("ctx", 7), ("none", .3)], p_ctx=.9,
                     dwraps=[("plain", 6), ("maybe", 1), ("prov", .7), ("ctx", 4), ("maybectx", 3), ("missing", .2)]),
         {"ctx", "err-missing", "arg"}, 3500, 50000),
        ("lab", dict(n=(1, 3), levels=[(1, 1)], p_ctx=.5, steps=(8, 20), ops=[("resolve", 4), ("enter", 5), ("close", 1.5)],
                     wraps=[("plain", 5), ("ctx", 4)], dwraps=[("plain", 3), ("ctx", 5), ("maybectx", 3)]),
         {"ctx", "err-missing", "arg"}, 1200, 15000)]),
    "C05": dict(contracts=[("chain", {"owner", "scope"}, {}), ("slots", {"scope", "error"}, dict(graphs=(200, 3000), pairs=150)),
                           ("ogbuild", {"scope"}, dict(what=("open",))), ("planner", {"level"}, dict(what=("visit",)))], scen=[
        ("lab", dict(p_bias=.4, monotone=.45), {"err-scope", "err-other", "ident"}, 3500, 50000),
        ("ogen", {}, {"err-scope", "ident"}, 800, 10000)]),
    "C06": dict(contracts=[("slots", {"async"}, dict(graphs=(200, 3000), profile=dict(p_async=.3), pairs=150)),
                           ("registry", {"async"}, dict(hists=("empty", "decorated", "pending"), every=2)),
                           ("planner", {"async", "edges", "memo"}, dict(what=("visit", "build", "edges"))), ("ogbuild", {"async"}, dict(what=("open", "build"))),
                           ("extract", {"async"}, dict(what=("return",)))], scen=[
        ("lab", dict(p_async=.4, p_bias=.4), {"err-async", "coroutine"}, 3500, 50000),
        ("lab", dict(p_async=.12, n=(4, 8), p_bias=.4), {"err-async", "coroutine"}, 1200, 20000),
        ("lab", dict(p_async=.35, n=(3, 6), p_bias=.4, p_comp=.7, p_swarm=.2, wraps=[("plain", 3), ("all", 5), ("maybe", 1)]), {"err-async", "coroutine"}, 1000, 15000),
        ("ogen", dict(p_async=.35), {"err-async", "coroutine"}, 800, 10000),
        ("provs", dict(modes=[("factory", 5), ("generator", 3), ("cm", 3)]), {"async"}, 1200, 20000)]),
    "C07": dict(contracts=[("registry", {"binding", "frame", "invalidate"}, dict(keys=("K", "AK", "GI")))], scen=[
        ("hist", {}, {"all", "arg", "ident", "count", "err-missing", "err-other", "err-scope", "err-async"}, 1500, 20000),
        ("lab", dict(p_rereg=.4, p_comp=.5), {"all", "arg", "ident", "err-missing"}, 1500, 20000)]),
    "C08": dict(contracts=[("registry", {"atomic", "depth", "raises", "frame"}, {})], scen=[
        ("hist", dict(p_evil=.6, hops=[("add", 4), ("decorate", 2), ("fail", 5), ("resolve", 5), ("enter", 1), ("compile", 1), ("inject", .7),
                                       ("call", 1.2), ("probe", 2), ("handle", .5)]), ANY, 2400, 30000)]),
    "C09": dict(contracts=[("slots", {"args"}, dict(graphs=(200, 3000), profile=ARGK, shapes=100)), ("ogbuild", {"args", "binding"}, dict(what=("args", "binding"))),
                           ("planner", {"order", "flags"}, dict(what=("order", "flags"))),
                           ("extract", {"deps", "infer", "explicit", "ctor", "returns"}, dict(what=("deps", "explicit", "ctor", "return")))], scen=[
        ("lab", ARGK, {"arg", "err-other"}, 3500, 50000),
        ("ogen", ARGK, {"arg", "err-other"}, 1500, 20000),
        ("provs", {}, {"arg", "infer"}, 2500, 40000)], known=["star-after-default"]),
    "C10": dict(contracts=[("registry", {"chain", "binding", "frame"}, dict(keys=("K", "G", "AK"), hists=DECOS))], scen=[
        ("hist", dict(hops=[("add", 5), ("decorate", 5), ("fail", .5), ("resolve", 5), ("enter", 1), ("compile", .7), ("inject", .4), ("call", .5),
                            ("probe", 1.5), ("handle", .5)]), ANY, 1500, 20000),
        ("ogen", dict(p_deco=.8), {"arg", "ident", "count", "err-other", "err-scope", "err-missing", "err-async", "compile"}, 1500, 20000)]),
    "C11": dict(contracts=[("ogmatch", ANY, {}), ("ogbuild", {"key", "agree", "binding"}, dict(what=("resolve", "open", "binding")))], scen=[
        ("ogen", {}, ANY, 4000, 60000),
        ("provs", dict(modes=[("closed", 1)]), {"arg"}, 1000, 15000)]),
    "C12": dict(contracts=[("rcontext", ANY, {})], scen=[("ctx12", {}, ANY, 4500, 60000)]),
    "C13": dict(contracts=[("inject", {"supplied", "resolved", "scope", "context", "result"}, dict(what=("call",))),
                           ("extract", {"inject"}, dict(what=("inject",))),
                           ("rcontext", {"inject-decorate", "inject-signature", "inject-precedence", "inject-result"}, {}),
                           ("slots", {"args"}, dict(graphs=(100, 1500), profile=dict(p_inject=.8, kinds=[("factory", 5), ("instance", 1), ("generator", 1)])))], scen=[
        ("inj", {}, ANY, 4500, 60000),
        ("lab", dict(p_inject=.8, kinds=[("factory", 5), ("instance", 1), ("generator", 1)]), {"arg", "err-other", "ident"}, 800, 10000),
        ("provs", dict(modes=[("inject", 1)]), ANY, 1500, 20000)]),
    "C14": dict(contracts=[("ogbuild", {"key"}, dict(what=("resolve",))), ("planner", {"all"}, dict(what=("all",))), ("dispatch", ANY, {}), ("markers", ANY, {})], scen=[
        ("keys14", {}, ANY, 700, 9000),
        ("lab", dict(wraps=[("plain", 4), ("maybe", 4), ("all", 3), ("prov", 2), ("aprov", 2), ("ctx", 2), ("none", .3)], p_comp=.5,
                     dwraps=[("plain", 4), ("maybe", 3), ("all", 3), ("prov", 1), ("aprov", 1), ("ctx", 2), ("maybectx", 1), ("missing", 1)]),
         {"all", "arg", "ctx", "err-missing", "err-other"}, 2000, 25000)], known=["maybe-missing-context"]),
    "C15": dict(contracts=[("slots", {"lock", "once", "cell"}, dict(graphs=(200, 3000), pairs=150)), ("ogbuild", {"lock", "once"}, dict(what=("open",))),
                           ("planner", {"mode", "locks"}, dict(what=("mode", "flags")))], scen=[("conc", {}, ANY, 3000, 40000)]),
    "C16": dict(contracts=[("policy", {"policy", "result", "fresh", "autoreg"}, dict(what=("resolve", "ensure"))),
                           ("registry", {"autoreg"}, dict(hists=("empty", "bound", "decorated", "pending", "other")))], scen=[
        ("hist", dict(p_deps_missing=.35, p_onmissing=.5, policies=[("E", 3), ("RR", 3), ("R", 4)],
                      hops=[("add", 5), ("decorate", 1), ("fail", 1), ("resolve", 7), ("enter", .7), ("compile", .7), ("inject", 1.5), ("call", 2),
                            ("probe", 2.5), ("handle", .5)]), ANY, 2400, 30000)], known=["strict-rebound-on-missing"]),
    "C17": dict(contracts=[("inject", {"target"}, dict(what=("history", "target"))), ("policy", {"compile", "scope", "bound", "fresh", "result"}, {}),
                           ("registry", {"invalidate"}, {})], scen=[
        ("ogen", dict(p_stir=1), {"arg", "ident", "count", "err-other", "err-scope", "err-missing", "err-async", "compile"}, 1200, 15000),
        ("hist", dict(policies=[("E", 6), ("RR", 1), ("R", 2)], hops=[("add", 6), ("decorate", 3), ("fail", 1), ("resolve", 6), ("enter", 2), ("compile", 3),
                            ("inject", 1), ("call", 2.5), ("probe", 1), ("handle", 1)]), ANY, 2400, 30000),
        ("hist", dict(p_ctxuse=.95, hops=[("add", 3), ("decorate", 1), ("resolve", 1), ("injseq", 4), ("call", 3), ("compile", .5)], steps=(3, 7)), ANY, 1200, 15000)]),
    "C18": dict(contracts=[("slots", ANY, dict(graphs=(200, 3000), profile=dict(p_async=0, p_amode=.5), shapes=30, pairs=80)),
                           ("ogbuild", {"key", "agree", "once", "scope"}, dict(what=("resolve", "open"))), ("dispatch", ANY, {})], scen=[
        ("lab", dict(p_async=0, p_amode=.5), ANY, 3500, 45000),
        ("lab", dict(p_async=0, p_amode=.8, wraps=[("plain", 6), ("maybe", 2), ("all", 2), ("prov", 2), ("aprov", 2), ("ctx", 2), ("none", .5)]), ANY, 1200, 15000),
        ("ogen", dict(p_async=0, p_amode=.7), ANY, 1000, 12000)]),
    "C19": dict(contracts=[("planner", ANY, {})], scen=[("cyc", {}, ANY, 5000, 70000)]),
}
