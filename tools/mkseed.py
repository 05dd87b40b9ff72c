"""mkseed.py SPEC.py : SPEC defines id, prop, edits=[(file, old, new)], needs, breaks, demo (python source; exit non-zero / assert on failure)"""
import sys, os, json, subprocess, tempfile, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns["SEEDS"]:
    d = f"/verif/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(dir="/tmp")
    subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
    try:
        for f, old, new in s["edits"]:
            p = f"{w}/r/src/finoptions/{f}"
            t = open(p).read()
            assert t.count(old) == 1 or s.get("nth"), (s["id"], f, t.count(old), old)
            t = t.replace(old, new, 1) if not s.get("nth") else t.replace(old, "\0", s["nth"]).replace("\0", old, s["nth"] - 1).replace("\0", new)
            open(p, "w").write(t)
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"])
        open(d + "/patch.diff", "wb").write(diff)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    open(d + "/demo.py", "w").write(s["demo"])
    open(d + "/demo.sh", "w").write('#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=${TMPDIR:-/tmp}\n'
                                    'PYTHONPATH=$PWD/src exec /opt/venv/bin/python -W ignore "$d/demo.py"\n')
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    print(s["id"])
