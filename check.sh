#!/bin/bash
# Decides one property against /repo's working tree.
#   check.sh P01 [--quick|--thorough] [--seed N] [--only SUB] [--scale X] [--limit S]
# Exit 0: held on everything explored; 1: VIOLATION line printed; else: an error.
set -u
cd "$(dirname "$(readlink -f "$0")")" || exit 2
root=$PWD
prop=${1:?usage: check.sh PROPERTY [--quick|--thorough]}
shift
build() { # dir profile
  (cd "$root/$1" && CARGO_TARGET_DIR="$root/$1/target" cargo build --offline --profile "$2" >"$root/$1/build.log" 2>&1) || {
    echo "building $1 failed:"
    grep -E "^error" -A 8 "$root/$1/build.log" | head -60
    exit 2
  }
}
thorough=0
[ "${VERIF_TIER:-quick}" = thorough ] && thorough=1
for a in "$@"; do
  [ "$a" = --quick ] && thorough=0
  [ "$a" = --thorough ] && thorough=1
done
build harness release
# Runs a check; when the process dies from a signal that a fault in the code
# raises, looks for the case that kills it.
run() { # binary args...
  "$@"
  local rc=$?
  case $rc in
  132 | 134 | 135 | 136 | 139) ;;
  *) return $rc ;;
  esac
  local journal="$root/harness/target/journal-$prop-$$"
  mkdir -p "$journal" "$root/replays"
  echo "the process died ($rc): once more, with a journal"
  CHALAMET_VERIF_JOURNAL="$journal" "$@" --no-evidence
  local again=$? f
  if [ $again != 1 ]; then
    for f in "$journal"/*.json; do
      [ -e "$f" ] || continue
      "$1" --replay "$f" >/dev/null 2>&1
      case $? in
      132 | 134 | 135 | 136 | 139)
        cp "$f" "$root/replays/"
        echo "the process dies on this case"
        echo "VIOLATION property=$prop replay=$root/replays/$(basename "$f")"
        again=1
        break
        ;;
      esac
    done
  fi
  find "$journal" -name '*.json' -delete
  rmdir "$journal"
  [ $again = 1 ] && return 1
  return $rc
}
others=() # runs of the same property over other builds
extra=()
run_other() { # name binary args...
  local dir="$root/harness/target/other-$prop-$1"
  mkdir -p "$dir"
  run "$2" "$prop" --root "$root" --evidence-dir "$dir" "${@:3}"
  local rc=$?
  extra+=(--merge "$dir/$prop.json")
  others+=("$rc")
}
case $prop in
P09 | P11 | P12)
  build harness-nopad release
  run_other unpadded "$root/harness-nopad/target/release/chalamet-verif-nopad" "$@"
  ;;
esac
if [ $thorough = 1 ]; then
  # without debug assertions and overflow checks, as `make test` builds
  build harness plain
  run_other plain "$root/harness/target/plain/chalamet-verif" "$@" --scale 0.3
fi
run "$root/harness/target/release/chalamet-verif" "$prop" --root "$root" "${extra[@]}" "$@"
rc=$?
for o in "${others[@]}"; do
  [ "$o" = 1 ] && { [ $rc = 0 ] && rc=1; }
  [ "$o" -gt 1 ] && { [ $rc = 0 ] && rc=$o; }
done
exit $rc
