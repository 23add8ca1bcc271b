#!/bin/bash
# plant.sh [-t] [-n] ID...: tries planted bugs in /repo and restores it.
#   -t: also build and run the test suite; -n: do not run the check
cd /verif
tests=; check=1
while [[ $1 == -* ]]; do case $1 in -t) tests=1;; -n) check=;; esac; shift; done
good=$(mktemp -d)
restore() { git -C /repo checkout -q -- .; }
trap restore EXIT
for id in "$@"; do
    d=/verif/seeded/$id; [ -d "$d" ] || d=/verif/fortran_plants/$id
    prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    rm -rf "$good/d"; mkdir "$good/d"; cp "$d"/* "$good/d"; rm -f "$good/d"/*.diff "$good/d/meta.json"
    fortran=$(grep -c '^+++ .*flib' "$d/patch.diff")
    (cd /repo && timeout 300 bash "$good/d/demo.sh") > "$good/o0" 2>&1; r0=$?
    git -C /repo apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
    if [[ $fortran != 0 || $tests ]]; then bash /opt/vp/build.sh > "$good/b" 2>&1 || echo "$id: build failed"; fi
    (cd /repo && timeout 300 bash "$good/d/demo.sh") > "$good/o1" 2>&1; r1=$?
    t=-
    if [[ $tests ]]; then
        bash /opt/vp/test.sh "$good/t.json" > "$good/tl" 2>&1
        t=$(python3 - "$good/t.json" <<'PY'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
p=set(o['passed']); m=[x for x in b if x not in p]
print('tests-ok' if not m else f'{len(m)} tests fail: {m[:3]}')
PY
)
    fi
    c=-
    if [[ $check ]]; then
        s=$SECONDS
        ./check "$prop" quick > "$good/c" 2>&1; rc=$?
        c="check exit $rc ($((SECONDS - s)) s) $(grep -m1 -A1 VIOLATION "$good/c" | tr '\n' ' ' | cut -c1-200)"
    fi
    restore
    if [[ $fortran != 0 || $tests ]]; then bash /opt/vp/build.sh > "$good/b" 2>&1; fi
    echo "$id [$prop]: demo $r0/$r1 $t $c"
    [[ $r0 != 0 ]] && tail -5 "$good/o0"
    [[ $r1 == 0 ]] && tail -5 "$good/o1"
done
rm -rf "$good"
