#!/bin/sh
# DESIGN.md = tools/design_head.md + the table of planted bugs generated from seeded/*/meta.json
cd "$(dirname "$0")/.." || exit 1
n=$(ls seeded | wc -l)
sed "s/%NB%/$n/" tools/design_head.md > DESIGN.md
python3 tools/gen_design_table.py >> DESIGN.md
