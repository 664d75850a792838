#!/bin/bash
# mkseed.sh ID PROPERTY PKGDIR "needs" "breaks" : makes /verif/seeded/ID from the uncommitted change in /repo and the test file on stdin,
# then undoes the change.
set -e
REPO=${REPO:-/repo}
ID=$1 PROP=$2 PKG=$3 NEEDS=$4 BREAKS=$5
D=/verif/seeded/$ID
mkdir -p "$D"
git -C "$REPO" diff > "$D/patch.diff"
[ -s "$D/patch.diff" ] || { echo "no change"; exit 1; }
cat > "$D/demo_test.go.txt"
cat > "$D/demo.sh" <<X
#!/bin/bash
# exit 0 when the property holds on the demonstrated input
HERE="\$(cd "\$(dirname "\$0")" && pwd)"
export PATH=/opt/veriftools/go1.23.12/bin:\$PATH GOWORK=off GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
unset GOROOT
T=\$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap '/bin/rm -rf "\$T"' EXIT
cp "\$HERE/demo_test.go.txt" "\$T/zz_demo_test.go"
cp go.mod "\$T/m.mod"; cp go.sum "\$T/m.sum"
P=$PKG
R="\$(pwd)"
if [ "\$P" = cli/astra/cmd ]; then
  cp cli/astra/go.mod "\$T/m.mod"; cat go.sum cli/astra/go.sum | sort -u > "\$T/m.sum"
fi
echo "{\"Replace\":{\"\$R/\$P/zz_demo_test.go\":\"\$T/zz_demo_test.go\"}}" > "\$T/o.json"
cd "\$R/\$P" || exit 2
go test -c -vet=off -overlay "\$T/o.json" -modfile "\$T/m.mod" -o "\$T/demo.test" . || exit 2
mkdir -p "\$T/astra/run" && cd "\$T/astra/run" && DEMO_REPO="\$R" timeout 120 "\$T/demo.test" -test.run 'TestZZDemo' -test.v
X
chmod +x "$D/demo.sh"
python3 - "$D/meta.json" "$PROP" "$NEEDS" "$BREAKS" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],'w'),indent=1)
P
cd "$REPO"
if bash "$D/demo.sh" >/tmp/demo.out 2>&1; then echo "DEMO DOES NOT FAIL with the patch"; tail -5 /tmp/demo.out; else grep -m3 -- "---\|panic\|error" /tmp/demo.out || tail -3 /tmp/demo.out; fi
git -C "$REPO" checkout -- .
if bash "$D/demo.sh" >/tmp/demo.out 2>&1; then echo "$ID ok on the unchanged tree"; else echo "DEMO FAILS on the unchanged tree"; tail -20 /tmp/demo.out; fi
