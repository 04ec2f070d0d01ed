#!/bin/bash
# build.sh [BIN...]: builds the given check binaries (all of them by default) from /repo's current working tree.
# Exits 3, naming the log, if the library itself does not compile in one of the configurations compared by `cfg`, or
# if it lacks a pregenerated function which is compared by `pre`.
set -u
here=$(cd "$(dirname "$0")" && pwd)
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
bins=("$@")
if [ ${#bins[@]} -eq 0 ]; then
  # These have another feature, and so are built on their own
  "$0" kd hull poly line geo cloud icp pre total work || exit
  bins=(cfg history)
fi

# Cargo goes by modification times, which prove nothing in a copied or restored tree: go by the contents as well
state=$( (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.md' -o -name Cargo.lock \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)

build() { # directory, target directory, log, cargo arguments
  local dir=$1 target=$2 log=$3
  shift 3
  mkdir -p "$target"
  if [ "$(cat "$target/.repo-state" 2>/dev/null)" != "$state" ]; then
    rm -f "$target/.repo-state"
    [ -d "$target/debug" ] && (cd "$dir" && cargo clean --offline --target-dir "$target" -p mapping-algorithms >"$log" 2>&1)
  fi
  (cd "$dir" && cargo build --offline --target-dir "$target" "$@" >"$log" 2>&1) || return 1
  echo "$state" >"$target/.repo-state"
}

mkdir -p "$here/target"
# One build at a time
exec 9>"$here/target/.lock"
flock 9
args=()
features=()
for b in "${bins[@]}"; do args+=(--bin "$b"); case $b in cfg|history) features=(--features cfg) ;; esac; done
checks() {
  build "$here/checks" "$here/target" "$here/target/checks.log" "${args[@]}" "${features[@]}" "$@"
}
# If integers are not accepted any more where floats are documented, do without
if ! checks && ! { grep -q '^error\[E0277\]' "$here/target/checks.log" && checks --no-default-features; }; then
  cat "$here/target/checks.log" >&2
  # Everything but the calls of pregenerated functions compiles: one of them is missing, or has other types
  if [ "${bins[*]}" = pre ] && grep -q 'could not compile `pbt-checks` (bin "pre")' "$here/target/checks.log" &&
    grep -A 3 -E '^error\[E0(425|432|433|061|308)\]' "$here/target/checks.log" | grep -q -- '--> src/bin/pre.rs'; then
    echo "$here/target/checks.log"
    exit 3
  fi
  echo "cannot build the checks" >&2
  exit 2
fi
case " ${bins[*]} " in *" cfg "*)
  for c in nostd:pregenerated bare: tracing:std,pregenerated,tracing; do
    log="$here/target/cfg-${c%%:*}.log"
    if ! build "$here/cfgdriver" "$here/target/cfg-${c%%:*}" "$log" --features "${c#*:}"; then
      cat "$log" >&2
      grep -q 'could not compile `mapping-algorithms`' "$log" || exit 2
      echo "$log"
      exit 3
    fi
  done
esac
exit 0
