"""mkseed.mk(id, prop, [(file, old, new)...], needs, breaks, demo_py): writes /verif/seeded/<id>/ from an edit of /repo (undone at once)."""
import json, os, subprocess, sys
SH = '''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/support/env.sh
export PYTHONDONTWRITEBYTECODE=1
W="$(mktemp -d)"; trap 'rm -rf "$W"' EXIT
cd "$W" && $PY -W ignore "$D/demo.py"
'''
PRE = "import no_rust_bindings, sys, math\nimport numpy as np\nimport cratermaker\n\n\ndef need(ok, what):\n    if not ok:\n        print('FAILED:', what)\n        sys.exit(1)\n\n\n"


REPO, DEST = os.environ.get("MKREPO", "/repo"), os.environ.get("MKDEST", "/verif/seeded")


def run(d):
    """The demonstration, against the repository the edit is made in."""
    if REPO == "/repo":
        return subprocess.run(["bash", d + "/demo.sh"], cwd=REPO, capture_output=True, text=True)
    import tempfile
    with tempfile.TemporaryDirectory() as w:
        return subprocess.run(["bash", "-c", f". /opt/vp/support/env.sh; PYTHONPATH=/opt/vp/support:{REPO} PYTHONDONTWRITEBYTECODE=1 $PY -W ignore {d}/demo.py"], cwd=w, capture_output=True, text=True)


def mk(id, prop, edits, needs, breaks, demo):
    assert not subprocess.run(["git", "-C", REPO, "status", "--porcelain"], capture_output=True, text=True).stdout.strip()
    try:
        for f, old, new in edits:
            p = REPO + "/" + f
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        d = f"{DEST}/{id}"
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True).stdout)
        open(d + "/demo.sh", "w").write(SH)
        open(d + "/demo.py", "w").write(PRE + demo)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        r1 = run(d)
    finally:
        subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."])
    r0 = run(d)
    print(id, "clean:", r0.returncode, r0.stdout[-200:], r0.stderr[-600:] if r0.returncode else "", "| patched:", r1.returncode, r1.stdout[-150:], r1.stderr[-150:])
