#!/bin/bash
# trybug.sh BUG [ID]: apply a planted bug to /repo, run the stable tests and its check, undo.
b=$1; d=/verif/seeded/$b
id=${2:-$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' $d/meta.json)}
cd /repo; [ -z "$(git status --porcelain)" ] || { echo dirty; exit 9; }
bash $d/demo.sh >/tmp/demo.log 2>&1; echo "demo clean rc=$?"
git apply $d/patch.diff || exit 9
bash /opt/vp/build.sh >/tmp/build.log 2>&1; echo "build rc=$?"
bash /opt/vp/test.sh /tmp/o.json 2>/dev/null | tail -1
bash $d/demo.sh >/tmp/demo.log 2>&1; echo "demo bug rc=$?"
( cd /verif && ./check.sh $id ); echo "check rc=$?"
git checkout -- .
