#!/bin/bash
# Builds every gtest suite of the repository against shim/matrix/math.hpp and runs it (development aid: shows that the
# stand-in behaves like the real PX4/Matrix; not a registered check).   usage: validate.sh [SCRATCH]
set -euo pipefail
HERE=$(cd "$(dirname "$0")" && pwd)
S=${1:-$(mktemp -d /tmp/shimval.XXXXXX)}
mkdir -p "$S/o" "$S/run"
R=/repo
FLAGS="-std=c++14 -O0 -g -DECL_STANDALONE -fno-associative-math -w -I$HERE -I$R -I$R/EKF -I$R/test"
ls $R/EKF/*.cpp $R/geo/*.cpp $R/geo_lookup/*.cpp $R/airdata/*.cpp $R/test/sensor_simulator/*.cpp $R/test/test_helper/*.cpp $R/test/*.cpp \
 | xargs -P8 -I{} sh -c 'g++ '"$FLAGS"' -c {} -o '"$S"'/o/$(echo {} | tr / _).o'
g++ "$S"/o/*.o -lgtest -lpthread -o "$S/ECL_GTESTS"
mkdir -p "$S/run/test" "$S/run/a/b/c"; cp -r $R/test/replay_data $R/test/change_indication "$S/run/test/"
(cd "$S/run/a/b/c" && "$S/ECL_GTESTS" > "$S/log" 2>&1) || true
tail -60 "$S/log"
grep -c 'OK \]' "$S/log"; grep 'FAILED' "$S/log" || true
for f in iris_gps ekf_gsf_reset; do python3 - $R/test/change_indication/$f.csv "$S/run/test/change_indication/$f.csv" <<'PY'
import sys
a=[l.rstrip().rstrip(',').split(',') for l in open(sys.argv[1])]; b=[l.rstrip().rstrip(',').split(',') for l in open(sys.argv[2])]
print(sys.argv[1], len(a), len(b), a[0]==b[0])
worst=[0]*len(a[0]); first=None
for i,(x,y) in enumerate(zip(a[1:],b[1:])):
    for j,(p,q) in enumerate(zip(x,y)):
        try: d=abs(float(p)-float(q))
        except ValueError: continue
        if d>worst[j]: worst[j]=d
        if d and first is None: first=(i,j,p,q)
print("first difference:", first); print("largest per column:", worst)
PY
done
