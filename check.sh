#!/bin/bash
# check.sh <id> [quick|thorough]   run one property's check
# check.sh --replay <file>         re-run a recorded failing case
# check.sh --build                 build every runner (setup)
# Exit: 0 held, 1 violation, anything else: the check itself failed.
. /verif/env.sh
mkdir -p /verif/target /verif/evidence /verif/replays
exec 9>/verif/target/.lock
flock 9

# Cargo decides by mtime; a copied tree may carry old mtimes. Compare contents
# and drop the repository crates' artifacts when they differ.
fresh() {
  local h
  h=$(cd /repo && find Cargo.toml contracts contracts-proc lib/crypto -type f \
        \( -name '*.rs' -o -name '*.toml' \) -not -path '*/target/*' -print0 \
      | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
  if [ -f /verif/target/.stamp ] && [ "$(cat /verif/target/.stamp)" != "$h" ]; then
    for d in harness crypto wasm wasmc; do
      local t=; [ "${d#wasm}" != $d ] && t="--release --target wasm32-unknown-unknown"
      (cd /verif/$d && cargo clean -q --offline $t \
         $(cargo metadata --offline --format-version 1 2>/dev/null \
           | python3 -c 'import json,sys;print(" ".join("-p "+p["name"] for p in json.load(sys.stdin)["packages"] if p["manifest_path"].startswith("/repo/")))') \
      ) >/dev/null 2>&1
    done
  fi
  echo "$h" > /verif/target/.stamp
}

build() { # dir bin...
  local d=$1; shift
  (cd /verif/$d && cargo build --offline --locked -q "$@" 2> /verif/target/.build.log) || {
    grep -v '^warning' /verif/target/.build.log | tail -n 60 >&2
    echo "ERROR: the harness does not build against /repo" >&2
    exit 4
  }
}

# The cryptography checks as a WebAssembly module (C36).
wasm() {
  build wasm --release --target wasm32-unknown-unknown
  export OZWASM=/verif/target/wasm32-unknown-unknown/release/ozwasm.wasm
}

# The contract checks as a WebAssembly module (C38).
wasmc() {
  build wasmc --release --target wasm32-unknown-unknown
  export OZWASM=/verif/target/wasm32-unknown-unknown/release/ozwasmc.wasm
}

# The generated interface definitions of C26 (a function of the seed).
traits() { # seed
  mkdir -p /verif/target/gen
  python3 /verif/tools/gen_traits.py "$1" /verif/target/gen/traits.new || exit 4
  cmp -s /verif/target/gen/traits.new /verif/target/gen/traits.rs \
    || cp /verif/target/gen/traits.new /verif/target/gen/traits.rs
}
try_build() { # bin
  (cd /verif/harness && cargo build --offline --locked -q --bin "$1" 2> /verif/target/.build.log)
}

bin_of() { awk -v id="$1" '$1==id{print $2}' /verif/ids.txt; }

run_bin() {
  local bin=$1; shift
  if [ "$bin" = ifaceid ]; then
    local seed=${VERIF_SEED:-1}
    [ "$1" = --replay ] && seed=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1])).get("seed",1))' "$2")
    traits "$seed"
    if ! try_build ifaceid; then
      # Do the generated definitions fail, or the harness as a whole?
      cp /verif/target/.build.log /verif/target/.traits.log
      traits none
      if try_build ifaceid; then
        traits "$seed"
        f=/verif/replays/C26.json
        python3 - "$seed" > "$f" <<'P'
import json, sys
log = [l for l in open("/verif/target/.traits.log").read().split("\n") if l.startswith("error") or "-->" in l]
print(json.dumps({"property": "C26", "seed": sys.argv[1], "signature": "trait-rejected",
  "failure": "the interface macro rejects a valid interface definition", "compiler": log[:40],
  "how_to_replay": "bash /verif/check.sh C26"}, indent=1))
P
        python3 - "$seed" <<'P'
import json, os
e = {"property": "C26", "seed": int(os.environ.get("VERIF_SEED", "1")), "tier": os.environ.get("VERIF_TIER", "quick"), "level": "exploration",
  "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "a generated interface definition was rejected", "samples": [open("/verif/replays/C26.json").read()[:500]]}, "wall_s": 1}
json.dump(e, open("/verif/evidence/C26.json", "w"), indent=1)
P
        echo "VIOLATION property=C26 replay=$f"
        exit 1
      fi
    fi
  fi
  case "$bin" in
    crypto) build crypto --bin crypto ;;
    wasmdiff) build crypto --bin wasmdiff; wasm ;;
    wasmrun) build wasmrun; wasmc ;;
    *) build harness --bin "$bin" ;;
  esac
  flock -u 9
  "/verif/target/debug/$bin" "$@"
}

fresh
case "$1" in
  --build)
    build crypto --bins
    wasm
    build wasmrun
    wasmc
    traits "${VERIF_SEED:-1}"
    build harness --bins
    ;;
  --replay)
    id=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 2
    run_bin "$(bin_of "$id")" --replay "$2"
    ;;
  *)
    bin=$(bin_of "$1")
    [ -n "$bin" ] || { echo "unknown property $1" >&2; exit 2; }
    run_bin "$bin" "$1" "${2:-${VERIF_TIER:-quick}}"
    rc=$?
    if [ $rc = 134 ] || [ $rc = 139 ]; then
      # The code under test took the process down (stack overflow, abort).
      f=/verif/replays/$1.json
      echo "{\"property\":\"$1\",\"failure\":\"runner ended by signal $((rc-128))\",\"command\":\"bash /verif/check.sh $1 ${2:-quick}\",\"seed\":${VERIF_SEED:-1}}" > "$f"
      echo "VIOLATION property=$1 replay=$f"
      exit 1
    fi
    exit $rc
    ;;
esac
