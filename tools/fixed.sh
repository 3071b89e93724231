#!/bin/sh
# fixed.sh <property> <what failed>: record HEAD of /repo as the repair of a defect
C=$(git -C /repo log -1 --format=%h)
P=$1 W=$2 C=$C python3 -c '
import json,os
p,w,c=os.environ["P"],os.environ["W"],os.environ["C"]
open("/verif/known_findings.jsonl","a").write(json.dumps({"status":"fixed","property":p,"commit":c,"line":f"fixed: property={p} {c} {w}"})+"\n")'
