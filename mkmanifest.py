"""writes MANIFEST.json from vf/props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf.props import PROPS
checks = []
for pid, s in PROPS.items():
    proof = bool(s.get("contracts"))
    checks.append(dict(property=pid, quick_cmd=f"python3-vt -B -m vf.check {pid} quick", thorough_cmd=f"python3-vt -B -m vf.check {pid} thorough",
                       technique=s.get("technique") or (
                           "deductive verification of contracts (VC generation from the live source, z3), with a bounded differential stand-in beside it" if proof else
                           "bounded differential check against an executable specification (stand-in; contracts in progress)"),
                       level=s.get("level", "translation_validation" if proof else "exploration"),
                       level_note=s.get("note") or ("Contracts of the functions listed in the evidence are discharged by z3 per generated graph; the composition across functions is covered by the bounded stand-in." if proof
                       else "Bounded stand-in: random programs against an executable reference semantics; nothing is proved.")))
m = dict(version=1, setup_cmd="python3-vt -B -c 'import z3, ast; print(z3.get_version_string())'", checks=checks, not_applicable=[],
         notes="Needs no build: every check imports /repo/src and reads the sources of /repo's working tree on every run.")
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w"), indent=1)
