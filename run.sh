#!/bin/bash
# run.sh check ID | replay FILE | list | sample ID N: builds what is needed from /repo's current tree, and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
cmd=${1:-} arg=${2:-}
id=$arg
[ "$cmd" = replay ] && id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$arg")
case "$id" in
  P01|P02|P03) bin=kd ;;
  P04|P05|P06|P07) bin=hull ;;
  P08|P09|P10) bin=poly ;;
  P11|P12) bin=line ;;
  P13|P14) bin=geo ;;
  P15|P16|P17|P18|P19) bin=cloud ;;
  P20|P21|P22|P23|P24|P25|P28) bin=icp ;;
  P26) bin=pre ;;
  P27) bin=cfg ;;
  P29) bin=total ;;
  P30) bin=work ;;
  P31) bin=history ;;
  *) echo "usage: run.sh check|replay|sample ..." >&2; exit 2 ;;
esac
log=$("$here/build.sh" "$bin")
case $? in
  0) ;;
  3)
    # The library compiles by default, but not in another configuration, or it lacks a pregenerated function
    mkdir -p "$here/replays" "$here/evidence"
    replay=$arg
    if [ "$cmd" = check ]; then
      replay="$here/replays/$id-build.json"
      python3 - "$here" "$id" "$log" "$replay" <<'PY'
import json, os, sys
here, prop, log, replay = sys.argv[1:]
text = open(log).read()
which = os.path.basename(log)[:-4]
json.dump({"property": prop, "build": which, "message": text}, open(replay, "w"), indent=1)
json.dump({
    "property": prop, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1")),
    "level": "exploration", "wall_s": 0, "violations": 1,
    "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "samples": [which],
                 "rule": "the library itself compiles by default, but not this: nothing was generated"},
}, open(f"{here}/evidence/{prop}.json", "w"), indent=1)
PY
    fi
    tail -n 20 "$log"
    echo "VIOLATION property=$id replay=$replay"
    exit 1 ;;
  *) exit 2 ;;
esac
if [ "$cmd" = replay ] && grep -q '"build":' "$arg"; then
  echo "$id: everything compiles"
  exit 0
fi
exec "$here/target/debug/$bin" "$@"
