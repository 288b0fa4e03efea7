#!/bin/bash
# run.sh setup                    build everything the checks need
# run.sh <ID> <quick|thorough>    rebuild from /repo's working tree and check one property
# run.sh all <quick|thorough>     all properties
# run.sh replay <file>            run a replay file again
# Exit: 0 held, 1 violation, 2 no answer.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
ROOT=$PWD
export VERIF_ROOT=$ROOT CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export VERIF_SEED=${VERIF_SEED:-1}
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WRAPPER
PLAIN=$ROOT/target/plain PRECISE=$ROOT/target/precise
mkdir -p "$ROOT/target" "$ROOT/evidence"

build() { # target dir, cargo arguments
    local dir=$1 log=$1.log
    shift
    # Separate lock per target directory is cargo's own; --locked keeps Cargo.lock as committed.
    if ! (cd "$ROOT/harness" && cargo build --release --offline --locked --target-dir "$dir" "$@") >"$log" 2>&1; then
        echo "ERROR: the harness does not build against /repo:"
        tail -n 40 "$log"
        exit 2
    fi
}

case "$1" in
setup)
    build "$PLAIN"
    build "$PRECISE" --features precise
    exit 0
    ;;
replay)
    [ -r "$2" ] || { echo "usage: run.sh replay FILE"; exit 2; }
    if grep -q '^variant=precise' "$2"; then
        build "$PRECISE" --features precise
        exec "$PRECISE/release/ebur128-verif" replay "$2"
    fi
    build "$PLAIN"
    exec "$PLAIN/release/ebur128-verif" replay "$2"
    ;;
all)
    rc=0
    for id in $(seq -f "C%02g" 1 24); do
        "$0" "$id" "${2:-quick}" || rc=1
    done
    exit $rc
    ;;
C[0-9][0-9])
    ID=$1 TIER=${2:-quick}
    build "$PLAIN"
    if [ "$ID" = C06 ]; then
        # The same property with the precision-true-peak feature of the crate.
        build "$PRECISE" --features precise
        tmp=$(mktemp -d "$ROOT/target/c06.XXXXXX") || exit 2
        VERIF_EVIDENCE=$tmp/e.json "$PRECISE/release/ebur128-verif" check "$ID" "$TIER"
        rc=$?
        python3 - "$tmp" <<'P'
import json, sys
d = sys.argv[1]
try:
    c = json.load(open(d + "/e.json"))["coverage"]
    open(d + "/extra", "w").write("evaluations_precision_true_peak=%d\ndistinct_nontrivial_precision_true_peak=%d\n" % (c["evaluations"], c["distinct_nontrivial"]))
except Exception:
    pass
P
        if [ $rc -ne 0 ]; then
            [ -r "$tmp/e.json" ] && cp "$tmp/e.json" "$ROOT/evidence/$ID.json"
            rm -rf "${tmp:?}"
            exit $rc
        fi
        VERIF_EXTRA=$tmp/extra "$PLAIN/release/ebur128-verif" check "$ID" "$TIER"
        rc=$?
        rm -rf "${tmp:?}"
        exit $rc
    fi
    exec "$PLAIN/release/ebur128-verif" check "$ID" "$TIER"
    ;;
*)
    echo "usage: run.sh setup | ID quick|thorough | all TIER | replay FILE"
    exit 2
    ;;
esac
