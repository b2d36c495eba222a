#!/bin/bash
# summary of the violations recorded in a replay file
grep -aE '^\[(outcome|call|response|order|panic|error|log|stuck|start|leak|[a-z ]+)\]' "${1:-/verif/work/replay/C01.txt}" | sed -E 's/0x[0-9a-f]+/0x/g; s/p[0-9]+r[0-9]+/ID/g' | cut -c1-${2:-200} | sort | uniq -c | sort -rn | head -${3:-40}
