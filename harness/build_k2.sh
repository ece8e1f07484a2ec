#!/usr/bin/env bash
# Brings /opt/k2-build up to date with /repo's working tree (same options and
# targets as /opt/vp/build.sh, whose configuration step is only repeated when
# ninja asks for it).  Serialised with a lock; quiet unless it fails.
set -uo pipefail
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root LC_ALL=C.UTF-8 CCACHE_DIR=/opt/k2-ccache CCACHE_MAXSIZE=5G
export PYTHONDONTWRITEBYTECODE=1
log=$(mktemp)
trap 'rm -f "$log"' EXIT
exec 9>/opt/k2-build/.verif.lock || exit 2
flock 9
if [ -f /opt/k2-build/build.ninja ] && /usr/bin/cmake --build /opt/k2-build -j "$(nproc)" \
     --target fsa k2_log context k2_torch k2_torch_api _k2 >"$log" 2>&1; then
  exit 0
fi
K2_NATIVE_ONLY=1 bash /opt/vp/build.sh >"$log" 2>&1 9>&- && exit 0
tail -40 "$log" >&2
exit 2
