#!/usr/bin/env python3
"""Assembles a planted-bug folder: plant.py ID PROPERTY 'needs' 'what it breaks' DEMO.cpp [roots...]
The patch is the current `git -C /repo diff`.  The folder gets a self-contained build kit (a copy of the build helper,
the compatibility headers and the headers the demo includes), so that the demo stands alone."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pid, prop, needs, breaks, demo, *roots = sys.argv[1:]
d = f"{V}/seeded/{pid}"
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", os.environ.get("PLANT_REPO", "/repo"), "diff"], capture_output=True, text=True).stdout
assert diff, "no change in /repo"
open(f"{d}/patch.diff", "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
if demo.endswith(".py"):
    shutil.copy(demo, f"{d}/demo.py")
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo\nexec /opt/vp/venv/bin/python "$D/demo.py"\n')
else:
    k = f"{d}/kit"
    os.makedirs(f"{k}/tools", exist_ok=True)
    os.makedirs(f"{k}/lib", exist_ok=True)
    for f in ("vbuild.py", "overlay.py"):
        shutil.copy(f"{V}/tools/{f}", f"{k}/tools/{f}")
    shutil.copytree(f"{V}/compat", f"{k}/compat", dirs_exist_ok=True)
    shutil.copy(demo, f"{k}/demo.cpp")
    todo, seen = [f"{k}/demo.cpp"], set()
    while todo:
        for i in re.findall(r'#include "([a-z_]+\.h)"', open(todo.pop()).read()):
            if i not in seen and os.path.exists(f"{V}/lib/{i}"):
                seen.add(i)
                shutil.copy(f"{V}/lib/{i}", f"{k}/lib/{i}")
                todo.append(f"{V}/lib/{i}")
    open(f"{k}/tools/demo.py", "w").write(f'''import sys, os, subprocess
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
t = dict(demo=dict(ov=True, harness=["demo.cpp"], roots={roots!r}, headers={sorted(seen)!r}, libs="-lMLIR -lLLVM-20 -lisl -lpthread"))
ok, log = vbuild.build(t, ["demo"])
if not ok:
    print(log[-3000:])
    sys.exit(3)
r = subprocess.run([vbuild.BUILD + "/bin/demo"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=240)
print(r.stdout[-3000:])
sys.exit(0 if r.returncode == 0 else 1)
''')
    open(f"{d}/demo.sh", "w").write('''#!/bin/bash
# Builds the demonstration against /repo's sources in a scratch directory and runs it.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'case "$W" in /tmp/demo.*) rm -rf "$W";; esac' EXIT
VERIF_BUILD="$W" python3 "$D/kit/tools/demo.py"
''')
os.chmod(f"{d}/demo.sh", 0o755)
