# Runs Go tests of /repo that import the wasmer package, with a stand-in for the library that is missing
# here: every function of it exists and does nothing. Usage: . lib.sh; run_test <package dir> <test file> <regexp>
export HOME=/root LANG=C.UTF-8
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
DIR=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
TMP=$(mktemp -d)
trap 'rm -rf "$TMP"' EXIT
stub() {
  { for f in $(grep -oh 'C\.wasmer_[a-z_]*(' "$REPO"/wasmer/*.go | sed 's/C\.//;s/(//' | sort -u); do r=0; [ $f = wasmer_import_object_cache_from_imports ] && r=1; if [ $f = wasmer_instance_context_data_get ]; then echo "void *$f(void *p) { return p; }"; else echo "long $f(void) { return $r; }"; fi; done; } > "$TMP/stub.c"
  echo 'const char *verif_stub = "stub";' >> "$TMP/stub.c"
  gcc -shared -fPIC -w -o "$TMP/libwasmer_linux_amd64.so" "$TMP/stub.c" || exit 2
  export CGO_LDFLAGS="-L$TMP" LD_LIBRARY_PATH="$TMP"
}
run_test() { # package dir, test file beside the script, test regexp
  stub
  printf '{"Replace": {"%s/%s/zz_demo_test.go": "%s/%s"}}\n' "$REPO" "$1" "$DIR" "$2" > "$TMP/overlay.json"
  go test -vet=off -count=1 -timeout 200s -overlay "$TMP/overlay.json" -run "$3" "./$1"
}
