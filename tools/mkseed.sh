#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "breaks" : take /repo's uncommitted change as seeded/ID/patch.diff (then undo it), with demo.cpp from stdin
ID=$1; S=/verif/seeded/$ID; mkdir -p $S
git -C /repo diff > $S/patch.diff; [ -s $S/patch.diff ] || { echo "no change"; exit 1; }
git -C /repo checkout -q -- .
cat > $S/demo.cpp
cat > $S/demo.sh <<'D'
#!/bin/bash
# exit 0: behaves as it should; nonzero: broken
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -w -frounding-math -ffunction-sections -fdata-sections -I/repo/source "$D/demo.cpp" -o "$T/demo" /repo/_build/libariadne-kernel.a /repo/_build/libariadne-core.so -Wl,--gc-sections -Wl,--allow-multiple-definition -Wl,-rpath,/repo/_build -lmpfr -lgmp -lpthread -ldl || exit 0
timeout 100 "$T/demo"
D
python3 - "$@" <<'P'
import json,sys
_,i,p,n,b=sys.argv[:5]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open("/verif/seeded/%s/meta.json"%i,"w"),indent=1)
P
