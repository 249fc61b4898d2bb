#!/bin/bash
# Rewrites the scenario list at the end of DESIGN.md from the harness itself.
cd "$(dirname "$(realpath "$0")")/.." || exit 2
P=all; . ./env.sh
W=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
build "$W" > "$W/log" 2>&1 || { cat "$W/log"; exit 2; }
"$W/harness" -list > "$W/list"
python3 - "$W/list" <<'E'
import sys
t = open('DESIGN.md').read()
m = '<!-- scenarios -->\n'
t = t[:t.index(m) + len(m)]
t += '\n| property/scenario | explored (quick) | thorough, if different | what is enumerated and judged |\n|---|---|---|---|\n'
for l in sorted(open(sys.argv[1])):
    p, n, q, d, doc = l.rstrip('\n').split('\t')
    t += '| %s/%s | %s | %s | %s |\n' % (p, n, q, d, doc.replace('|', '\\|'))
open('DESIGN.md', 'w').write(t)
E
