#!/bin/bash
# seedtest.sh ID...: confirm planted bugs in a scratch copy: demo passes unpatched, patch builds, demo fails, stable tests pass, check catches
# NOTEST=1 skips the unit tests, NOCHECK=1 skips our check
for id in "$@"; do
  S=/verif/seeded/$id
  rm -rf /tmp/scs; cp -a /repo /tmp/scs
  cp -n /verif/tools/seedlib/mini.py /verif/tools/seedlib/demo.sh $S/ 2>/dev/null
  unshare -m bash -c "
    mount --bind /tmp/scs /repo; cd /repo
    bash /opt/vp/build.sh >/tmp/sb.log 2>&1 || { echo '$id: BASE BUILD FAILED'; exit 1; }
    cp -r $S /tmp/seeddemo.$id; cd /repo; timeout 300 bash /tmp/seeddemo.$id/demo.sh >/tmp/sd0.log 2>&1; a=\$?
    git apply $S/patch.diff || { echo '$id: DOES NOT APPLY'; exit 1; }
    bash /opt/vp/build.sh >/tmp/sb.log 2>&1 || { tail -20 /tmp/sb.log; echo '$id: BUILD FAILED'; exit 1; }
    timeout 300 bash /tmp/seeddemo.$id/demo.sh >/tmp/sd1.log 2>&1; b=\$?
    rm -rf /tmp/seeddemo.$id
    echo \"$id: demo unpatched rc=\$a patched rc=\$b: \$(tail -1 /tmp/sd0.log | cut -c1-100) / \$(tail -1 /tmp/sd1.log | cut -c1-200)\"
    if [ -z \"$NOTEST\" ]; then bash /opt/vp/test.sh /tmp/st.json >/tmp/st.log 2>&1; echo \"$id: \$(tail -1 /tmp/st.log)\";
      python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/st.json'))
bl=set(b['stable'])
print('   stable tests lost:', sorted(bl-set(t['passed']))[:5])
P
    fi
  "
  if [ -z "$NOCHECK" ]; then
    for p in ${CHECKS:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'].lower())")}; do
      (cd /verif; [ -f checks/$p.py ] && VERIF_REPO=/tmp/scs timeout 900 python3 checks/$p.py quick 2>/dev/null | cut -c1-260 | grep -v '^  ' | sed -n '1p;$p' | sed "s/^/   $id $p: /"; true)
    done
  fi
  rm -rf /tmp/scs
done
