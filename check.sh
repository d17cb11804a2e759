#!/bin/bash
# check.sh <ID> [quick|thorough]   build what the check needs from /repo's current tree and run it
# check.sh replay <file>           run one saved case
# check.sh build                   build everything
#
# Exit 0: held on everything explored. Exit 1 + VIOLATION line: a failing case was found.
# Exit 2: no verdict (the tree does not build, or the machinery failed).
here=$(cd "$(dirname "$(readlink -f "$0")")" && pwd)
id=$1
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
[ "$id" = replay ] && { file=$(readlink -f "$2"); unset VERIF_TIER; id=$(sed -n 's/.*"property": *"\(C[0-9]*\)".*/\1/p' "$file" | head -1); }
export VERIF_SEED=${VERIF_SEED:-1}
export VP_VERIF=$here
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=$here/harness/target
export RUSTFLAGS="--cap-lints=warn"
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
mkdir -p "$CARGO_TARGET_DIR" "$here/evidence" "$here/replays"

# Never trust cached builds of the code under test.
exec 9>"$CARGO_TARGET_DIR/.vp-lock"
flock 9
rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/{stacks-rs,stacks_derive}-*

log=$CARGO_TARGET_DIR/build-$id.log
lib() { (cd "$here/harness" && cargo build --release --offline --lib) >"$log" 2>&1; }
bin() { # crate dir, bin
  (cd "$here/$1" && cargo build --release --offline --bin "$2") >"$log" 2>&1
}

case $id in
  build)
    lib && bin harness vp && bin harness vp15 && bin harness vp26 && bin c22 vp22 && exit 0
    tail -n 40 "$log" >&2; exit 2 ;;
  C15) dir=harness bin=vp15 ;;
  C26) dir=harness bin=vp26 ;;
  C22) dir=c22 bin=vp22 ;;
  C[0-9][0-9]) dir=harness bin=vp ;;
  *) echo "usage: check.sh <ID> [quick|thorough] | replay <file> | build" >&2; exit 2 ;;
esac

if ! bin $dir $bin; then
  tail -n 60 "$log" >&2
  cp "$log" "$log.bin"
  # If the library builds, documented uses of its macros do not compile.
  if [ $bin != vp ] && lib && grep -qE "could not compile .(vp-harness|vp-c22). \(bin" "$log.bin" \
     && ! grep -qE "linking with|No space left|signal: [0-9]" "$log.bin"; then
    replay=$here/replays/$id-compile.log
    cp "$log.bin" "$replay"
    python3 - "$here/evidence/$id.json" "$id" <<'P'
import json, os, sys
json.dump({
    "property": sys.argv[2], "tier": os.environ["VERIF_TIER"], "seed": int(os.environ["VERIF_SEED"]),
    "level": "exploration",
    "coverage": {"evaluations": 1, "distinct_nontrivial": 1,
                 "rule": "the generated uses of the macro under test did not compile",
                 "samples": [os.path.basename(sys.argv[1])]},
    "wall_s": 0, "violations": 1}, open(sys.argv[1], "w"), indent=1)
P
    echo "$id: generated uses of the macro do not compile"
    echo "VIOLATION property=$id replay=$replay"
    exit 1
  fi
  echo "ERROR the tree under test or the check does not build" >&2
  exit 2
fi
exec 9>&-
cd "$here"
if [ -n "$file" ]; then exec "$CARGO_TARGET_DIR/release/$bin" replay "$file"; fi
exec "$CARGO_TARGET_DIR/release/$bin" "$id"
