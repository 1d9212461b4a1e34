#!/bin/bash
# build.sh WORK [ext] [race]: builds the simulator from /repo's working tree
# (or $WATER_SRC) in the scratch directory WORK; leaves WORK/watersim.
# WORK/build.txt says how the code under test was built.
set -u
WORK=$1; shift
VERIF=$(cd "$(dirname "$0")/.." && pwd)
SRC=${WATER_SRC:-/repo}
TAGS=; RACE=
for a in "$@"; do case $a in ext) TAGS=extended;; race) RACE=-race;; esac; done
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off GONOSUMDB='*' GONOSUMCHECK=1
GO=/usr/local/bin/go1.27.3
MODC=$($GO env GOMODCACHE)
LOGX=$MODC/github.com/meilihao/logx@v0.0.0-20170321054053-4899b1894781

prepare() { # fresh copies of everything
  mkdir -p "$WORK" && cd "$WORK" || exit 2
  for d in sim water logx; do [ -d "$WORK/$d" ] && /bin/rm -rf "$WORK/$d"; done
  cp -r "$VERIF/sim" "$WORK/sim" || exit 2
  mkdir -p "$WORK/water" "$WORK/logx"
  # non-test sources only
  (cd "$SRC" && find . -name .git -prune -o -type f \( -name '*.go' -o -name go.mod -o -name go.sum \) ! -name '*_test.go' -print) |
    while read -r f; do mkdir -p "$WORK/water/$(dirname "$f")"; cp "$SRC/$f" "$WORK/water/$f"; done
  # programs shipped along with the library are not part of the build
  (cd "$LOGX" && find . -type f -name '*.go' ! -name '*_test.go' -print) |
    while read -r f; do mkdir -p "$WORK/logx/$(dirname "$f")"; cp "$LOGX/$f" "$WORK/logx/$f"; done
  chmod -R u+w "$WORK/logx" "$WORK/water"
  printf 'module github.com/meilihao/logx\n\ngo 1.21\n' > "$WORK/logx/go.mod"
  cat > "$WORK/logx/verif_sink.go" <<'G'
package logx

// VerifSetStorer makes s the one store of the default logger.
func VerifSetStorer(s Storer) {
	l := NewLogger()
	l.funcCallDepth = 0
	l.outputs = []*nameLogger{{Storer: s, name: "verif"}}
	SetOutput(l)
}
G
  # the language version of the module decides loop variable and other
  # semantics only from 1.22 on; 1.21 is needed for the generic runtime calls
  minor=$(sed -nE 's/^go 1\.([0-9]+).*/\1/p' "$WORK/water/go.mod"); minor=${minor:-0}
  sed -i -E '/^toolchain /d' "$WORK/water/go.mod"
  if [ "$minor" -lt 21 ]; then
    sed -i -E '/^go [0-9.]+/d' "$WORK/water/go.mod"
    printf '\ngo 1.21\n' >> "$WORK/water/go.mod"
  fi
  {
    echo "module watersim"; echo; echo "go 1.25"; echo
    echo "require ("
    echo "	github.com/meilihao/water v0.0.0"
    echo "	github.com/meilihao/logx v0.0.0-20170321054053-4899b1894781"
    echo ")"
    echo "replace github.com/meilihao/water => $WORK/water"
    echo "replace github.com/meilihao/logx => $WORK/logx"
  } > "$WORK/sim/go.mod"
  [ -f "$WORK/water/go.sum" ] && cp "$WORK/water/go.sum" "$WORK/sim/go.sum"
}

# Under the race detector sync.Pool drops a quarter of what it is given, by the
# runtime's own random numbers; here it drops everything: a run repeats, and pools inside the
# standard library (fmt has one) do not order what the code under test leaves
# unordered.
OVERLAY=
if [ -n "$RACE" ]; then
  mkdir -p "$WORK"
  POOL=$($GO env GOROOT)/src/sync/pool.go
  sed -E 's/runtime_randn\(4\) == 0/runtime_randn(4) < 4/' "$POOL" > "$WORK/pool.go.txt"
  if ! cmp -s "$POOL" "$WORK/pool.go.txt"; then
    printf '{"Replace":{"%s":"%s"}}\n' "$POOL" "$WORK/pool.go.txt" > "$WORK/overlay.json"
    OVERLAY="-overlay $WORK/overlay.json"
  fi
fi

compile() {
  (cd "$WORK/sim" && $GO build $RACE $OVERLAY ${TAGS:+-tags $TAGS} -o "$WORK/watersim" ./cmd/watersim) > "$WORK/compile.log" 2>&1
}

link_replaces() {
  cat >> "$WORK/water/go.mod" <<G

require watersim v0.0.0

replace watersim => $WORK/sim

replace github.com/meilihao/logx => $WORK/logx
G
}

info() { # mode sites note
  printf '{"mode":"%s","sites":%s,"tags":"%s","race":%s,"note":"%s"}\n' "$1" "$2" "$TAGS" "$([ -n "$RACE" ] && echo true || echo false)" "$3" > "$WORK/build.json"
}

mkdir -p "$WORK"
prepare
(cd "$WORK/sim" && $GO build -o "$WORK/instrument" ./cmd/instrument) > "$WORK/compile.log" 2>&1 || { cat "$WORK/compile.log" >&2; echo "cannot build the instrumenter" >&2; exit 2; }
link_replaces
for mode in full noshim plain; do
  if [ $mode != full ]; then prepare; link_replaces; fi
  sites=0
  case $mode in
    full) "$WORK/instrument" -src "$SRC" -dst "$WORK/water" -go $GO ${TAGS:+-tags $TAGS} -report "$WORK/instrument.json" > "$WORK/instrument.log" 2>&1 || continue;;
    noshim) "$WORK/instrument" -src "$SRC" -dst "$WORK/water" -go $GO ${TAGS:+-tags $TAGS} -noshim all -report "$WORK/instrument.json" > "$WORK/instrument.log" 2>&1 || continue;;
  esac
  [ $mode != plain ] && sites=$(sed -E 's/.*"sites":([0-9]+).*/\1/' "$WORK/instrument.json")
  if compile; then info $mode "$sites" ""; exit 0; fi
  cp "$WORK/compile.log" "$WORK/compile.$mode.log"
done
cat "$WORK/compile.log" >&2
echo "the working tree does not build with the simulator" >&2
exit 2
