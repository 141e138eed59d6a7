#!/bin/bash
# usage: check.sh PROPERTY   (VERIF_SEED, VERIF_TIER from the environment)
# Builds the harness, and for C21..C26 and C30 the command line tools, from /repo's working tree; runs the
# check. Exit 0: held; 1 with a VIOLATION line: broken; anything else: the check could not decide.
id=${1:?usage: check.sh PROPERTY}
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
. "$here/env.sh"
log=$here/target/build-$id.log
mkdir -p "$here/target"
build() {
    if ! "$@" >"$log" 2>&1; then
        tail -n 40 "$log" >&2
        echo "ERROR: the build failed: $*" >&2
        exit 2
    fi
}
build cargo build --release --offline --manifest-path "$here/harness/Cargo.toml" --target-dir "$here/target/harness"
case $id in
C21 | C22 | C23 | C24 | C25 | C26 | C30 | C32)
    build cargo build --release --offline --manifest-path /repo/Cargo.toml --target-dir "$here/target/repo" \
        -p fpcalc -p compare \
        --config 'profile.release.package.fpcalc.overflow-checks=true' \
        --config 'profile.release.package.compare.overflow-checks=true' \
        --config 'profile.release.package.rusty-chromaprint.overflow-checks=true' \
        --config 'profile.release.package.fpcalc.debug-assertions=true' \
        --config 'profile.release.package.rusty-chromaprint.debug-assertions=true'
    export VH_BIN=$here/target/repo/release
    VH_SCRATCH=$(mktemp -d "${TMPDIR:-/tmp}/vh-XXXXXX") || exit 2
    export VH_SCRATCH
    trap 'rm -rf "$VH_SCRATCH"' EXIT
    ;;
esac
[ -n "$VERIF_BUILD_ONLY" ] && exit 0
limit=840
[ "${VERIF_TIER:-quick}" = thorough ] && limit=14400
timeout -k 10 "$limit" "$here/target/harness/release/vh" check "$id"
rc=$?
case $rc in
0 | 1) exit $rc ;;
*)
    echo "ERROR: the check ended with $rc" >&2
    exit 2
    ;;
esac
