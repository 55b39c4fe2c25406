#!/bin/bash
# tools/plant.sh ID [--no-check]: confirms a planted bug in a scratch copy of /repo and runs its property's check on it.
# The copy (/tmp/plant) is kept between runs so that builds are incremental; remove it when done.
id=$1
here=$(cd "$(dirname "$0")/.." && pwd)
S=/tmp/plant
bug=$here/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$bug/meta.json'))['property'])")
if [ ! -d $S/.git ]; then git clone -q /repo $S || exit 1; fi
git -C $S checkout -q -- . && git -C $S fetch -q && git -C $S reset -q --hard origin/HEAD
build() {
  CC=/usr/bin/gcc CXX=/usr/bin/g++ cmake -S $S/runtime -B $S/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_PROJECT_TOP_LEVEL_INCLUDES=/opt/vp/cmake/googletest.cmake -DZSERIO_CPP17_RUNTIME_SQLITE_ROOT=/opt/vp/cmake/sqlite3 > $S.cfg.log 2>&1 || { echo cfg-failed; return 1; }
  ninja -C $S/_build -j8 ZserioCpp17Runtime ZserioCpp17RuntimeAnyTestLib ZserioCpp17RuntimeTest > $S.build.log 2>&1 || { grep -m5 error $S.build.log; return 1; }
}
tmp=$(mktemp -d)
mkdir $tmp/d; cp $bug/* $tmp/d/; rm -f $tmp/d/*.diff $tmp/d/meta.json
trap 'rm -rf "$tmp"; git -C $S checkout -q -- .' EXIT
build || { echo "$id BASE-BUILD-FAILED"; exit 1; }
(cd $S && timeout 300 bash $tmp/d/demo.sh > $S.demo0.log 2>&1); d0=$?
git -C $S apply $bug/patch.diff || { echo "$id PATCH-DOES-NOT-APPLY"; exit 1; }
build || { echo "$id BUILD-FAILED"; exit 1; }
rm -rf $tmp/r; mkdir $tmp/r
(cd $tmp/r && timeout 300 $S/_build/runtime_test/ZserioCpp17RuntimeTest > $S.test.log 2>&1); t=$?
(cd $S && timeout 300 bash $tmp/d/demo.sh > $S.demo1.log 2>&1); d1=$?
c=-
if [ "$2" != --no-check ]; then
  (cd $here && timeout 900 python3 check.py $prop --repo $S > $S.check.log 2>&1); c=$?
fi
echo "$id property=$prop demo-clean=$d0 tests=$t demo-bug=$d1 check=$c $(grep -a -m1 -o 'scenario [a-z0-9A-Z-]*, .*key .*' $S.check.log | cut -c1-200)"
