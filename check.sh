#!/bin/bash
# check.sh <property> [quick|thorough]   decide one property on /repo's working tree
# check.sh replay <file>                 run one recorded case again
# check.sh build                         only build
set -u
rf="${2:-}"
case "${1:-}" in replay) rf="$(realpath "$rf")" ;; esac
cd "$(dirname "$0")/mc" || exit 2
export MC_VERIF="$(cd .. && pwd)"
export CARGO_TARGET_DIR="$MC_VERIF/mc/target" CARGO_NET_OFFLINE=true
if ! cargo build --release --offline -q 2>"$MC_VERIF/mc/build.log"; then
	cat "$MC_VERIF/mc/build.log" >&2
	echo "check.sh: the harness does not build against /repo" >&2
	exit 2
fi
ulimit -c 0
ulimit -v 25000000 # code that eats memory is a verdict, too
case "${1:-}" in
build) exit 0 ;;
replay) exec target/release/mc replay "$rf" ;;
*) exec target/release/mc check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
