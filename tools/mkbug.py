"""Development helper: mkbug.mk(id, property, file, [(old, new)...], needs, breaks, demo_python)."""
import difflib, json, pathlib
REPO, SEED = pathlib.Path("/repo"), pathlib.Path("/verif/seeded")
PRE = """#!/bin/bash
export PYTHONPATH="$PWD/_build/components/wrapper:$PWD/components/python" PYTHONDONTWRITEBYTECODE=1
exec timeout 250 /opt/vp/venv/bin/python - <<'PYEOF'
"""


def mk(id, prop, edits, needs, breaks, demo, raw=False, files=None):
    d = SEED / id
    d.mkdir(parents=True, exist_ok=True)
    out = ""
    for f, reps in edits.items():
        t = o = (REPO / f).read_text()
        for a, b in reps:
            assert t.count(a) == 1, (id, f, t.count(a), a)
            t = t.replace(a, b)
        out += "".join(difflib.unified_diff(o.splitlines(True), t.splitlines(True),
                                            "a/" + f, "b/" + f))
    (d / "patch.diff").write_text(out)
    (d / "demo.sh").write_text(demo if raw else PRE + demo.strip("\n") + "\nPYEOF\n")
    (d / "demo.sh").chmod(0o755)
    for k, v in (files or {}).items():
        (d / k).write_text(v)
    (d / "meta.json").write_text(json.dumps(dict(property=prop, needs=needs, what_it_breaks=breaks),
                                            indent=1) + "\n")
    print(id)
