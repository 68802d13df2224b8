#!/usr/bin/env bash
# Build the simulator against the repository's working tree and run one
# property check. usage: check.sh ID
# Exit 0 held, 1 violation, anything else: the check itself failed.
set -u
root="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$root"
cd "$root/sim" || exit 2
log="$root/sim/target/build-$$.log"
mkdir -p "$root/sim/target"
case "$1" in
    C21) args=(--features cli --bin sim --bin cli-under-test) ;;
    C28 | C29) args=(--features web --bin sim) ;;
    C30) args=(--features textfirst --bin sim) ;;
    *) args=(--bin sim) ;;
esac
if ! cargo build --offline --quiet "${args[@]}" >"$log" 2>&1; then
    cat "$log" >&2
    echo "check error: the simulator does not build against the repository" >&2
    exit 2
fi
if [ "$1" = C21 ] && ! cc -O1 -shared -fPIC -o target/debug/libvsim.so shim/vsim.c; then
    echo "check error: the system call stub does not build" >&2
    exit 2
fi
if [ "$1" = C29 ] && ! (cd ../pyhost && cargo build --offline --quiet) >"$log" 2>&1; then
    cat "$log" >&2
    echo "check error: the Python module does not build" >&2
    exit 2
fi
exec "$root/sim/target/debug/sim" check "$1"
