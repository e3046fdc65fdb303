#!/bin/sh
# every module on the current tree; prints what is reported
cd "$(dirname "$0")/.." || exit 1
python3 -c 'import sys; sys.path.insert(0,"engine"); import prog; prog.load()' 2>&1 | tail -5 | cut -c1-300
for m in ${*:-$(python3 -c 'import sys; sys.path.insert(0,"engine"); import props; print(*props.MODULES)')}; do echo $m; done |
  xargs -P 8 -I{} sh -c 'python3 engine/run1.py {} 2>&1 | grep -v "sites [0-9]* *$" | cut -c1-${W:-240} | head -${N:-12} | sed "s/^/{}: /"'
