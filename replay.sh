#!/bin/bash
# replay.sh REPLAY.json: run the recorded failing input again against the current sources
f=$1; here=$(cd "$(dirname "$0")" && pwd)
kind=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['kind'])" $f)
if [ $kind != input ]; then python3 -c "import json,sys;print(json.dumps(json.load(open(sys.argv[1])),indent=1))" $f; exit 1; fi
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
read h s < <(python3 -c "import json,sys;r=json.load(open(sys.argv[1]));open(sys.argv[2]+'/dict','w').write('\n'.join(r['dict']));print(r['harness'],r['seed'])" $f $d)
bash $here/native/build.sh $d $h && $d/$h replay $s $d/dict
