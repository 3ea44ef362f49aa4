#!/bin/sh
# Nothing is compiled: checks that the tools the framework runs on are there and parses the specification.
cd "$(dirname "$0")" || exit 2
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -c "import torch, torch_struct" || exit 1
d=$(mktemp -d) || exit 1
cd spec || exit 1
printf '{"op":"script","st":"probe"}\n' > "$d/probe.ndjson"
TRACE="$d/probe.ndjson" timeout 300 tlc -workers 1 -noGenerateSpecTE -metadir "$d/md" -config Trace.cfg Trace.tla > "$d/log" 2>&1
grep -q 'REJECT 1 probe' "$d/log"; rc=$?
[ $rc = 0 ] || cat "$d/log"
rm -rf "$d"
exit $rc
