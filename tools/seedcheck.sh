#!/bin/bash
# Validate planted bugs in a scratch copy mounted over /repo in a private mount namespace.
#   tools/seedcheck.sh ID...      (development tool; no check uses it)
SCR=/tmp/seedrepo
mkdir -p $SCR/repo
sync_copy() { rsync -a --delete /repo/ $SCR/repo/ 2>/dev/null || { rm -rf /tmp/seedrepo/repo; cp -a /repo $SCR/repo; }; }
[ -e $SCR/repo/build ] || sync_copy
# bring the sources of HEAD (build products stay, SCons rebuilds what differs)
cd $SCR/repo && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD 2>/dev/null
for id in "$@"; do
  d=/verif/seeded/$id
  cd $SCR/repo && git checkout -q -f . 
  unshare -m bash -c "
    mount --bind $SCR/repo /repo; cd /repo
    if [ ! -e $SCR/clean.$(git -C /repo rev-parse HEAD) ]; then bash /opt/vp/build.sh > $SCR/build0.log 2>&1 && touch $SCR/clean.$(git -C /repo rev-parse HEAD); fi
    if [ -z \"\$SKIPCLEAN\" ]; then bash /opt/vp/build.sh > $SCR/build0.log 2>&1; rm -rf /tmp/seeddemo; cp -a $d /tmp/seeddemo; timeout 300 bash /tmp/seeddemo/demo.sh > $SCR/$id.clean.log 2>&1; echo \"$id demo on clean: \$? (want 0)\"; fi
    git apply $d/patch.diff || { echo '$id DOES NOT APPLY'; exit 1; }
    bash /opt/vp/build.sh > $SCR/$id.build.log 2>&1 || { echo '$id BUILD FAILED'; tail -5 $SCR/$id.build.log; exit 1; }
    rm -rf /tmp/seeddemo; cp -a $d /tmp/seeddemo; timeout 300 bash /tmp/seeddemo/demo.sh > $SCR/$id.demo.log 2>&1; echo \"$id demo with patch: \$? (want nonzero)\"
    if [ -z \"\$NOTEST\" ]; then
    bash /opt/vp/test.sh $SCR/$id.json > $SCR/$id.test.log 2>&1
    python3 -c \"
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('$SCR/$id.json'))['passed'])
print('$id tests lost:', len(b-o), sorted(b-o)[:5])\"
    fi
    git checkout -q -f .
  "
done
