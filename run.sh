#!/bin/sh
# run.sh <package> <property> <quick|thorough>: rebuilds the check from the current tree and runs it.
# Exit 0: the property held. Exit 1: VIOLATION line(s) printed. Exit 2: no answer.
cd /verif/mc || exit 2
export RUSTUP_TOOLCHAIN=1.87.0 CARGO_NET_OFFLINE=true
log=$(cargo build --offline --quiet -p "$1" 2>&1) || {
    printf '%s\n' "$log" | tail -40
    echo "ENGINE-ERROR build of $1 failed"
    exit 2
}
case "$3" in
    quick) cap=800 ;;
    *) cap=7200 ;;
esac
timeout -k 5 "$cap" "/verif/mc/target/debug/$1" "$2" "$3"
rc=$?
case $rc in
    0 | 1) exit $rc ;;
esac
echo "ENGINE-ERROR $1 ended with status $rc"
exit 2
