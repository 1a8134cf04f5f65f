#!/bin/bash
# seedtest.sh ID [nocheck]: confirm a planted bug in a scratch copy of /repo,
# and run the check of its property (and others given in $ALSO) against it.
id=$1; S=/verif/seeded/$id; D=/tmp/w/seed/$id.$$
mkdir -p /tmp/w/seed; cp -a /repo "$D"; cp -a "$S" "$D.demo"; rm -f "$D.demo"/*.diff "$D.demo"/meta.json
say() { echo "$id: $*"; }
cd "$D" && bash "$D.demo/demo.sh" >/dev/null 2>&1 && say "demo ok on the unchanged tree" || say "PROBLEM demo fails on the unchanged tree"
git -C "$D" apply "$S/patch.diff" || { say "PROBLEM patch"; exit 1; }
base=$(git -C /repo rev-list --max-parents=0 HEAD | tail -1); base=d90497a
# Only lines of the original repository may be changed
git -C "$D" diff -U0 | grep -E '^-[^-]' | sed 's/^-//' | while IFS= read -r l; do
  git -C /repo grep -qF -- "$l" $base -- torchmps || say "NOTE not an original line: $l"; done
bash "$D.demo/demo.sh" >/tmp/w/seed/$id.log 2>&1 && say "PROBLEM demo passes with the patch" || say "demo fails with the patch: $(tail -1 /tmp/w/seed/$id.log | cut -c1-150)"
sed "s#/repo#$D#g" /opt/vp/test.sh > "$D.test.sh"
if [ -z "$NOTEST" ]; then bash "$D.test.sh" "$D.json" 2>/dev/null | tail -1 | sed "s/^/$id: /"; fi
if [ "$2" != nocheck ]; then
for p in $(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])") $ALSO; do
  TM_REPO=$D bash /verif/check.sh $p quick > "$D.out" 2>&1; say "$p rc $? $(grep -m1 -E 'clause|exception|MACH' $D.out | cut -c1-160)"
done; fi
rm -rf "/tmp/w/seed/$id.$$" "/tmp/w/seed/$id.$$.demo"; rm -f "$D.test.sh" "$D.json" "$D.out"
