#!/bin/bash
# bash /verif/run.sh ID quick|thorough          decide one property against /repo's current tree
# bash /verif/run.sh replay ID SEED TIER CASE   run one recorded case again (MVD_FLAVOUR=asan|tsan: under that sanitizer)
set -u
export HOME=/root PATH=/root/.cargo/bin:$PATH
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0
unset RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER RUSTFLAGS RUSTDOCFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_BUILD_RUSTFLAGS CARGO_TARGET_DIR
REPO=/repo
mkdir -p /verif/target /verif/evidence /verif/replays
scratch=$(mktemp -d /verif/target/scratch.XXXXXXXX) || exit 2
trap 'rm -rf -- "$scratch"' EXIT
cd /verif/harness || exit 2

. /verif/scripts/build.sh

flavour=${MVD_FLAVOUR:-stable}
if [ "${1:-}" = replay ]; then
    build "$flavour" "$scratch" || exit 2
    "$bin" replay "$2" "$3" "$4" "$5" "$scratch" "$REPO"
    exit $?
fi
if [ "${1:-}" = setup ]; then
    build stable "$scratch"
    exit $?
fi
id=${1:?property}
tier=${2:-${VERIF_TIER:-quick}}
[ "$tier" = thorough ] || tier=quick
seed=${VERIF_SEED:-1}
case $seed in ''|*[!0-9]*) seed=1 ;; esac
if [ -f "/verif/scripts/$id.sh" ]; then
    . "/verif/scripts/$id.sh"
    exit $?
fi
build stable "$scratch" || exit 2
"$bin" check "$id" "$seed" "$tier" "$scratch" "$REPO" "/verif/evidence/$id.json" /verif/replays
