#!/bin/bash
# check.sh PROPERTY [TIER]: verify one property against /repo's working tree.
# Exit 0: every obligation discharged. Exit 1: VIOLATION line printed.
cd "$(dirname "$0")/.." || exit 2
id=$1
tier=${2:-${VERIF_TIER:-quick}}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
bash scripts/build.sh >/dev/null 2>/tmp/ninepv-build.$$ || { cat /tmp/ninepv-build.$$ >&2; rm -f /tmp/ninepv-build.$$; exit 2; }
rm -f /tmp/ninepv-build.$$
exec bin/ninepv check -verif "$PWD" -repo "${NV_REPO:-/repo}" -prop "$id" -tier "$tier" -seed "${VERIF_SEED:-1}"
