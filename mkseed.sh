#!/bin/bash
# mkseed.sh ID PROPERTY : patch read from /tmp/seed.patch, demo body /tmp/demo.cpp, meta needs/breaks in $3/$4 ; confirms build+tests+demo in a scratch copy
set -e
ID=$1; P=$2; D=/verif/seeded/$ID
mkdir -p $D; cp /tmp/seed.patch $D/patch.diff; cp /tmp/demo.cpp $D/demo.cpp
cat > $D/demo.sh <<'X'
#!/bin/bash
# exit 0: property holds on the demonstrated input; non-zero: broken
H=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
find src -name '*.cpp' ! -name 'steering_functions_node.cpp' | xargs -P 8 -I{} sh -c 'g++ -std=c++14 -O1 -w -DNDEBUG -Iinclude -I/usr/include/eigen3 -c {} -o '"$T"'/$(basename {}).o' || exit 3
g++ -std=c++14 -O1 -w -DNDEBUG -Iinclude -I/usr/include/eigen3 "$H/demo.cpp" "$T"/*.o -o "$T/demo" || exit 3
cd "$T" && timeout 120 ./demo
X
chmod +x $D/demo.sh
python3 - "$D" "$P" "$3" "$4" <<'X'
import json,sys
d,p,n,b=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(d+'/meta.json','w'),indent=1)
X
