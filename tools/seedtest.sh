#!/bin/bash
# seedtest.sh ID...: confirms each planted bug in a scratch copy of /repo that is mounted over /repo in a private namespace:
# demo on the unchanged tree, patch, build, stable tests, demo, then the check of its property. Results in /tmp/seedres/ID.
mkdir -p /tmp/seedres
one() {
  id=$1; S=/verif/seeded/$id; T=/tmp/seedcp_$id; R=/tmp/seedres/$id
  rm -rf "$T"; cp -a /repo "$T"
  prop=$(python3 -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")
  unshare -rm bash -c "
    mount --bind $T /repo; cd /repo
    D=\$(mktemp -d); cp $S/* \$D; rm -f \$D/*.diff \$D/meta.json
    if [ -z \"$NOBASE\" ]; then timeout 300 bash \$D/demo.sh > $R.demo0 2>&1; echo demo-unchanged \$?; fi
    git apply $S/patch.diff || { echo APPLY-FAILED; exit; }
    bash /opt/vp/build.sh > $R.build 2>&1; echo build \$?
    bash /opt/vp/test.sh $R.json > $R.test 2>&1
    python3 -c \"import json;d=json.load(open('$R.json'));b=json.load(open('/opt/vp/BASELINE.json'))['stable'];print('tests missing:',[x for x in b if x not in str(d.get('passed',d))],'failed', d.get('failed'))\"
    timeout 300 bash \$D/demo.sh > $R.demo1 2>&1; echo demo-patched \$?
    rm -rf \$D
    cd /verif; timeout 900 python3 check.py $prop > $R.check 2>&1; echo check $prop \$?; grep VIOLATION $R.check | head -3
  " > $R 2>&1
  rm -rf "$T"; echo "== $id"; cat $R
}
export -f one
printf '%s\n' "$@" | xargs -P ${J:-3} -I{} bash -c 'one {}'
