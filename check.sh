#!/bin/bash
# check.sh PROPERTY        decide one property for /repo's working tree
# check.sh replay FILE     run a replay file again
# check.sh selftest [PROPERTIES]  the same seeds twice: do runs repeat exactly?
# VERIF_TIER is quick (default) or thorough, VERIF_SEED an integer; WATER_SRC
# names another source tree (for demonstrations).
# Exit 0: held on everything explored. 1: violated. 2: the check itself failed.
set -u
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
WORK=$(mktemp -d /tmp/watersim.XXXXXX) || exit 2
trap 'case $WORK in /tmp/watersim.??????) rm -rf "$WORK";; esac' EXIT
trap 'exit 2' INT TERM
kind() { case $1 in C15) echo race;; C18) echo ext;; esac; }
case ${1:-} in
  replay)
    P=$(sed -nE 's/^ "property": "(C[0-9]+)",?$/\1/p' "$2" | head -1)
    bash tools/build.sh "$WORK" $(kind "$P") || exit 2
    "$WORK/watersim" replay -scratch "$WORK" "$2"; exit $?;;
  selftest)
    bash tools/build.sh "$WORK" || exit 2
    "$WORK/watersim" selftest -scratch "$WORK" -seed "${VERIF_SEED:-1}" ${2:+-props "$2"}; exit $?;;
  C[0-9][0-9]) ;;
  *) echo "usage: check.sh PROPERTY | replay FILE | selftest" >&2; exit 2;;
esac
bash tools/build.sh "$WORK" $(kind "$1") || exit 2
"$WORK/watersim" check -prop "$1" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -scratch "$WORK" -verif "$VERIF"
exit $?
