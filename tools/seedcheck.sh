#!/bin/bash
# seedcheck.sh ID [notests] : builds, tests and demonstrates a planted bug in /repo's tree (applied and undone)
d=/verif/seeded/$1
cd /repo; [ -z "$(git status --porcelain)" ] || { echo dirty; exit 2; }
if [ "$3" != skipclean ]; then bash /opt/vp/build.sh >/dev/null 2>&1; bash $d/demo.sh >/tmp/w/demo0.log 2>&1; echo "$1 demo on clean: $?"; fi
git apply $d/patch.diff || exit 3
if [ "$2" = notests ]; then bash /opt/vp/build.sh > /tmp/w/sb.log 2>&1 || echo BUILD FAILS; else bash /opt/vp/test.sh /tmp/w/st.json >/dev/null 2>&1; python3 /verif/tools/stable.py /tmp/w/st.json; fi
bash $d/demo.sh >/tmp/w/demo1.log 2>&1; echo "$1 demo with patch: $? $(tail -1 /tmp/w/demo1.log | cut -c1-120)"
git checkout -q -- .
