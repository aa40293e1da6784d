#!/bin/bash
# Assembles DESIGN.md; the table of planted bugs comes from seeded/ (and /tmp logs of plant runs when present).
cd "$(dirname "$0")/.." || exit 2
{
cat tools/design_head.md tools/design_props.md tools/design_tail.md
echo "## Planted bugs"
echo
echo "Each was written from a property and the code; all compile and pass the 340 tests. The last column says what the quick check of the property answered when it was planted or after it was strengthened."
echo
echo "| bug | what it breaks | needs | caught |"
echo "|---|---|---|---|"
python3 - <<'P'
import json,glob,os
r=json.load(open('tools/caught.json')) if os.path.exists('tools/caught.json') else {}
for m in sorted(glob.glob('seeded/*/meta.json')):
    d=json.load(open(m)); i=m.split('/')[1]
    print('| %s | %s | %s | %s |'%(i,d['what_it_breaks'],d['needs'],r.get(i,'?')))
P
} > DESIGN.md
