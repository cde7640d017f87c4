#!/bin/bash
# tools/tryseed.sh ID [notests]: confirms a planted bug in a scratch copy, then runs its property's check on that copy.
id=$1; d=/verif/seeded/$id; w=$(mktemp -d /tmp/try-XXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; rm -rf "$w/repo/_build"; cd "$w/repo"
bash $d/demo.sh >"$w/d0" 2>&1; r0=$?
git apply $d/patch.diff || { echo "$id PATCH DOES NOT APPLY"; exit 1; }
bash $d/demo.sh >"$w/d1" 2>&1; r1=$?
t=skipped
if [ "$2" != notests ]; then
  cmake -S . -B _b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DCMAKE_CXX_COMPILE_OBJECT='<CMAKE_CXX_COMPILER> <DEFINES> <INCLUDES> <FLAGS> -Wno-error -o <OBJECT> -c <SOURCE>' -DBN_BUILD_TESTS=ON >/dev/null 2>&1
  gcc -O1 -shared -fPIC -o "$w/fixtime.so" /opt/vp/fixtime.c    # the tests draw random numbers seeded with the time; the baseline fixes it
  ninja -C _b >"$w/b" 2>&1 && LD_PRELOAD="$w/fixtime.so" ctest --test-dir _b -j8 --timeout 300 >"$w/t" 2>&1 && t=pass || t=FAIL
  rm -rf _b
fi
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /verif; BN_REPO="$w/repo" VERIF_SEED=1 bin/check $p quick >"$w/c" 2>&1; rc=$?
echo "$id property=$p demo_clean=$r0 demo_bug=$r1 tests=$t check_rc=$rc $(grep -c VIOLATION "$w/c")"
[ $r0 = 0 ] || head -5 "$w/d0"
[ $r1 = 0 ] && cat "$w/d1"
[ $rc = 1 ] || tail -5 "$w/c"
[ $t = FAIL ] && tail -q -n 15 "$w/t" "$w/b"
exit 0
