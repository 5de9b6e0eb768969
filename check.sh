#!/bin/bash
# check.sh PROPERTY [quick|thorough]: build from /repo, explore, report. Exit 0 held, 1 violation, 2 no verdict.
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"; seed="${VERIF_SEED:-1}"
case "$tier" in quick|thorough) ;; *) echo "no such tier: $tier" >&2; exit 2;; esac
log="$(mktemp)"
if ! "$here/build.sh" >"$log" 2>&1; then cat "$log" >&2; rm -f "$log"; echo "the simulator does not build against /repo" >&2; exit 2; fi
rm -f "$log"
exec "$here/target/debug/ellsim" check "$prop" "$tier" "$seed" "$here"
