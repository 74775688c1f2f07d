#!/bin/bash
# run.sh PROPERTY: search the real code for an input that breaks the property.
# Exit 1 and a line "FAILING <id>: <input>" when one is found.
id=$1
here=$(cd "$(dirname "$0")" && pwd)
repo=${NV_REPO:-/repo}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
P=protocol:protocol F=filesystem:ufs D=pkg/debugfs:debugfs
case $id in
C0[59]) pkgs="$P $F" ;;
C0[1-9]|C1[0-4]|C2[34]) pkgs=$P ;;
C1[5-9]|C2[01]) pkgs=$F ;;
C22) pkgs=$D ;;
*) exit 0 ;;
esac
sc=$(mktemp -d /tmp/nvh.XXXXXX) || exit 0
trap 'rm -rf "$sc"' EXIT
m=$sc/src/github.com/Harvey-OS/ninep
mkdir -p "$m"
for d in protocol filesystem pkg cmd; do [ -d "$repo/$d" ] && cp -a "$repo/$d" "$m/"; done
find "$m" -name '*_test.go' -delete
if [ "$id" = C23 ]; then
	( cd "$m/protocol" && HOME=$sc GOENV=off GOPATH=$sc GO111MODULE=off GOFLAGS= GOWORK=off GOPROXY=off GOTOOLCHAIN=local GOCACHE=${GOCACHE:-/root/.cache/go-build} go run gen.go ) || { echo "FAILING C23: go run gen.go fails"; exit 1; }
fi
export GOENV=off GOPATH=$sc GO111MODULE=off GOFLAGS= GOWORK=off GOPROXY=off GOTOOLCHAIN=local GOTELEMETRY=off GOCACHE=${GOCACHE:-/root/.cache/go-build}
mkdir -p "$sc/work" && chmod 0755 "$sc" && chown 65534:65534 "$sc/work" && chmod -R a+rX "$sc/src"
for pd in $pkgs; do
	pkg=${pd%:*} dir=${pd#*:}
	cp "$here/$dir"/*_test.go "$m/$pkg/"
	if ! ( cd "$m/$pkg" && go test -vet=off -c -o "$sc/nv.$dir" . ) >"$sc/build.log" 2>&1; then
		if [ "$id" = C23 ]; then echo "FAILING C23: the generated code does not compile: $(head -c 300 "$sc/build.log" | tr '\n' ' ')"; exit 1; fi
		head -c 2000 "$sc/build.log"; rm -f "$sc/nv.$dir"
	fi
	rm -f "$m/$pkg"/*_test.go
done
secs=20
[ "$NV_TIER" = thorough ] && secs=300
export NV_SECS=${NV_SECS:-$secs} TMPDIR=$sc/work HOME=$sc/work
run=$id
[ "$id" = C23 ] && run='C0[12367]'
user="setpriv --reuid=65534 --regid=65534 --clear-groups --no-new-privs"
$user true 2>/dev/null || user="setpriv --reuid=65534 --regid=65534 --clear-groups"
$user true 2>/dev/null || { echo "cannot run as an unprivileged user"; exit 0; }
cd "$sc/work" || exit 0
for pd in $pkgs; do
	pkg=${pd%:*} dir=${pd#*:}
	[ -x "$sc/nv.$dir" ] || continue
	NV_SRC=$m/$pkg timeout -k 5 $((NV_SECS * 6 + 60)) $user "$sc/nv.$dir" -test.run "^TestNV($run)\$" -test.timeout 0 >"$sc/out" 2>&1
	rc=$?
	head -c 20000 "$sc/out"
	if [ "$id" = C23 ]; then sed -n 's/^FAILING C[0-9]*:/FAILING C23: with the regenerated stubs:/p' "$sc/out"; fi
	if grep -aq '^FAILING ' "$sc/out"; then exit 1; fi
	if [ $rc -eq 1 ] && ! grep -aq '^--- FAIL\|^FAIL\|^PASS\|^panic: \|^fatal error: ' "$sc/out"; then
		echo "FAILING $id: the code ends the process: $(tail -c 300 "$sc/out" | tr '\n' ' ')"; exit 1
	fi
	if [ $rc -ne 0 ] && grep -aq '^panic: \|^fatal error: ' "$sc/out"; then
		echo "FAILING $id: the code crashes: $(grep -a -A12 '^panic: \|^fatal error: ' "$sc/out" | head -c 600 | tr '\n' ' ')"; exit 1
	fi
done
exit 0
