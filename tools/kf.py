"""Rewrites known_findings.jsonl (python3 tools/kf.py)."""
import json, os, subprocess
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%H\t%s"], capture_output=True, text=True).stdout.splitlines()
PROP = {"a location over a pole": "P01", "fields of a structured location": "P01", "exactly two (lon, lat)": "P01", "measured radius or diameter": "P02", "projectile_vertical_velocity": "P03", "rng_state takes": "P16", "size draw that rounds": "P09", "Scaling.maker keeps": "P06", "scaling model no longer": "P06"}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "kf_more.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "kf_more.py")) else None
KNOWN = globals().get("KNOWN", [])
out = []
for l in log:
    h, s = l.split("\t", 1)
    if not s.startswith("fix:"):
        continue
    pr = [v for k, v in PROP.items() if k in s]
    assert len(pr) == 1, (s, pr)
    out.append({"property": pr[0], "status": "fixed", "commit": h[:7], "what": f"fixed: property={pr[0]} {h[:7]} {s[5:]}"})
out += KNOWN
with open("/verif/known_findings.jsonl", "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
