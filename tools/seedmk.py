#!/usr/bin/env python3
"""seedmk.py SPEC.py: development helper; SPEC defines BUGS = {id: dict(prop, file, edits=[(old,new)...], needs, breaks, libs, demo)}; writes seeded/<id>/."""
import sys, os, json, subprocess, shutil, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = {}; exec(open(sys.argv[1]).read(), g); common = g.get('COMMON', '')
for bid, b in g['BUGS'].items():
    if len(sys.argv) > 2 and bid not in sys.argv[2:]: continue
    d = f"{root}/seeded/{bid}"; os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(); subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", t + "/w"])
    try:
        for e in b['edits']:
            f, old, new = e if len(e) == 3 else (b['file'],) + tuple(e)
            p = t + "/w/" + f; s = open(p).read(); assert s.count(old) == 1, (bid, s.count(old), old); open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", t + "/w", "diff"]).decode(); open(d + "/patch.diff", "w").write(diff)
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", t + "/w"]); shutil.rmtree(t)
    libs = b.get('libs', 'EKF/*.cpp geo/*.cpp geo_lookup/*.cpp')
    open(d + "/demo.cpp", "w").write(common.replace('@EKF@', '1' if 'EKF' in libs else '0') + b['demo'])
    open(d + "/demo.sh", "w").write(f"""#!/bin/bash
# run in the repository root: exit 0 when the property holds in this demonstration
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
F="-std=c++14 -O1 -w -fno-associative-math -DECL_STANDALONE -I$D/shim -I. -IEKF"
for s in {libs} "$D/demo.cpp"; do echo $s; done | xargs -P8 -I{{}} sh -c "g++ $F -c {{}} -o $T/\\$(basename {{}}).o || exit 255" && g++ $T/*.o -o $T/demo && timeout 250 $T/demo
""")
    if 'EKF' in libs or 'matrix' in b['demo'] or b.get('shim'):
        os.makedirs(d + "/shim/matrix", exist_ok=True); shutil.copy(root + "/shim/matrix/math.hpp", d + "/shim/matrix/math.hpp")
    json.dump({"property": b['prop'], "needs": b['needs'], "what_it_breaks": b['breaks']}, open(d + "/meta.json", "w"), indent=1)
    print(bid)
