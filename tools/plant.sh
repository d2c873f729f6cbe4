#!/bin/bash
# plant.sh ID PROPERTY EDIT.py DEMO.cpp "needs" "what it breaks": makes seeded/ID and checks it.
# EDIT.py runs in a scratch copy of /repo. Environment RUST=1: the demo needs RustFFI.cpp.
set -e
id=$1; prop=$2; edit=$(realpath "$3"); demo=$(realpath "$4"); needs=$5; what=$6
here=$(cd "$(dirname "$0")/.." && pwd)
w=/tmp/plant.$$; mkdir -p $w; trap 'rm -rf /tmp/plant.'$$ EXIT
git -C /repo worktree list >/dev/null
git clone -q /repo $w/r
(cd $w/r && python3 "$edit")
s=$here/seeded/$id; mkdir -p $s
git -C $w/r diff > $s/patch.diff
[ -s $s/patch.diff ] || { echo "empty patch"; exit 1; }
cp "$demo" $s/demo.cpp
rm -rf $s/sleipnir; cp -r $here/tools/mini/sleipnir $s/sleipnir; cp $here/tools/mini/probe.hpp $s/
[ -z "$RUST" ] || { rm -rf $s/trajoptlib $s/rust; cp -r $here/tools/mini/rust/. $s/; }
cat > $s/demo.sh <<'D'
#!/bin/bash
# run with cwd = the repository
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
src=$(find src -name '*.cpp' ! -name RustFFI.cpp)
[ ! -d "$d/trajoptlib" ] || src="$src src/RustFFI.cpp"
i=0
pids=""
for f in "$d/demo.cpp" $src; do
  i=$((i + 1))
  g++ -std=c++20 -O0 -w -pthread -I"$d" -Iinclude -Isrc -c "$f" -o "$t/$i.o" & pids="$pids $!"
done
for p in $pids; do wait $p || exit 3; done
g++ -pthread "$t"/*.o -o "$t/demo" && timeout 120 "$t/demo"
D
python3 - "$s" "$prop" "$needs" "$what" <<'P'
import json,sys
json.dump({'property':sys.argv[2],'needs':sys.argv[3],'what_it_breaks':sys.argv[4]},open(sys.argv[1]+'/meta.json','w'),indent=1)
P
cd $w/r
git checkout -q -- .
bash $s/demo.sh || { echo "DEMO FAILS ON UNCHANGED TREE"; exit 1; }
git apply $s/patch.diff
if bash $s/demo.sh; then echo "DEMO PASSES ON CHANGED TREE"; exit 1; fi
echo "demo ok; check:"
cd $here
TJ_REPO=$w/r python3 check.py $prop | tail -${TAIL:-6}
