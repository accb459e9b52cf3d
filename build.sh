#!/bin/bash
# Builds the checkers against /repo's current working tree.  usage: build.sh [bin ...]
set -u
. /verif/env.sh
mkdir -p /verif/.cache /verif/out /verif/evidence
exec 9>/verif/.cache/lock
flock 9
cd /verif/harness || exit 2
h=$( (cd /repo && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
if [ "$(cat /verif/.cache/repo.hash 2>/dev/null)" != "$h" ]; then
    # cargo compares time stamps, which say nothing about a tree that was copied or checked out
    rm -f /verif/.cache/repo.hash
    cargo clean --offline -q -p magicblock-delegation-program 2>/dev/null
fi
bins=()
for b in "$@"; do bins+=(--bin "$b"); done
if ! cargo build --offline "${bins[@]}" >/verif/.cache/build.log 2>&1; then
    tail -40 /verif/.cache/build.log
    echo "BUILD-FAILED (see /verif/.cache/build.log)"
    exit 2
fi
echo "$h" >/verif/.cache/repo.hash
