#!/usr/bin/env bash
# Brings the k2 build up to date and checks that the tools are there.
set -e
cd "$(dirname "$0")"
bash build_k2.sh
java -version >/dev/null 2>&1
PYTHONPATH=/repo/k2/python:/opt/k2-build/lib PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import k2, _k2'
for f in ../spec/*.tla; do :; done
echo setup ok
