#!/bin/bash
# wt.sh: (re)create the scratch copy /tmp/wt with own build
rm -rf /tmp/wt /tmp/wtb
git clone -q /repo /tmp/wt
cp -a /repo/_build /tmp/wt/_build
cd /tmp/wt/_build && rm -rf vp-run && grep -rlI "/repo" --include=CMakeCache.txt --include=build.ninja --include='*.cmake' . | xargs sed -i 's|/repo|/tmp/wt|g'
sed -i 's|/repo|/tmp/wt|g' /tmp/wt/_build/hxhim.pc 2>/dev/null
