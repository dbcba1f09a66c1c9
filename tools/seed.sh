#!/bin/bash
# tools/seed.sh ID PROP PKGDIR NEEDS BREAKS   (stdin: demo test source; change already made in the worktree /tmp/sw)
# Confirms that the change compiles, passes the stable tests, that the demo passes without it and fails with it;
# writes /verif/seeded/ID and then runs the property's check against it.
id=$1 prop=$2 pkg=$3 needs=$4 breaks=$5
d=/verif/seeded/$id
mkdir -p $d
cat > $d/demo_test.go.txt
git -C /tmp/sw diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
cat > $d/demo.sh <<EOF
#!/bin/bash
# exit 0: the property holds on this demonstration; nonzero: it is broken
d=\$(cd "\$(dirname "\$0")" && pwd)
. /opt/vp/env.sh
t=\$(mktemp -d) || exit 3
trap 'rm -rf "\$t"' EXIT
cp "\$d/demo_test.go.txt" "\$t/demo_test.go"
printf '{"Replace":{"%s/$pkg/zz_demo_test.go":"%s/demo_test.go"}}' "\$PWD" "\$t" > "\$t/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "\$t/overlay.json" -run '^TestSeedDemo\$' ./$pkg
EOF
python3 - "$d" "$prop" "$needs" "$breaks" <<'EOF'
import json,sys
d,p,n,b=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(d+"/meta.json","w"),indent=1)
EOF
repo=${SEED_REPO:-/repo}
cd $repo
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
bash $d/demo.sh > /tmp/seed.out 2>&1 || { echo "DEMO FAILS ON CLEAN"; tail -20 /tmp/seed.out; exit 1; }
grep -q 'no tests to run' /tmp/seed.out && { echo "NO TEST RAN"; exit 1; }
git apply $d/patch.diff || exit 1
trap "git -C $repo checkout -- ." EXIT
sed "s#cd /repo#cd $repo#" /opt/vp/build.sh > /tmp/seed.bs; sed "s#cd /repo#cd $repo#" /opt/vp/test.sh > /tmp/seed.ts
bash /tmp/seed.bs > /tmp/seed.build 2>&1 || { echo "NO BUILD"; tail /tmp/seed.build; exit 1; }
bash /tmp/seed.ts /tmp/seed.json > /dev/null 2>&1
python3 - <<'EOF' || exit 1
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
def names(x):
    for k in ('stable','passed','pass','tests'):
        if isinstance(x,dict) and k in x: return x[k]
    return x
bs=set(names(b)); rs=set(names(r))
miss=bs-rs
print("baseline",len(bs),"missing",list(miss)[:5])
import sys
sys.exit(1 if miss else 0)
EOF
if bash $d/demo.sh > /tmp/seed.out 2>&1; then echo "DEMO PASSES WITH PATCH"; exit 1; fi
grep -q -- '--- FAIL' /tmp/seed.out || { echo "demo failure odd:"; tail -5 /tmp/seed.out; }
[ -n "$NOCHECK" ] || bash /verif/run.sh $prop 2>&1 | tail -6
