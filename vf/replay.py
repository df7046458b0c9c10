"""python3-vt -m vf.replay FILE   run a recorded violation again (exit 1 when it still diverges)"""
import json, sys
from vf import check
if __name__ == "__main__":
    d = json.load(open(sys.argv[1]))
    if d["kind"] == "scenario":
        d["profile"] = {k: ([tuple(x) if isinstance(x, list) else x for x in v] if isinstance(v, list) and v and isinstance(v[0], list) else tuple(v) if isinstance(v, list) else v)
                        for k, v in d["profile"].items()}
        r = check.replay_case(d, 12 if d["scenario"] == "conc" else 1)
        if r:
            print(r[0], r[1]); print("\n".join(map(str, r[2])))
        sys.exit(1 if r else 0)
    if d["kind"] == "probe":
        from vf.known import PROBES
        w = PROBES[d["probe"]](); print(w); sys.exit(1 if w else 0)
    from vf import prove
    sys.exit(prove.replay(d))
