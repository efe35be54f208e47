#!/bin/bash
# Links demo.c with the objects of the daemon just built and runs it in a scratch directory.
d=$(cd "$(dirname "$0")" && pwd)
S=/repo/_build/src/src
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
chmod 755 "$T"
trap 'rm -rf "$T"' EXIT
cd "$S" || exit 9
objcopy --redefine-sym main=nbspd_main main.o "$T/main_.o" || exit 9
link=$(make -s -n -B nbspd 2>/dev/null | grep -e ' -o nbspd ' | tail -1)
args=${link#* -o nbspd }
args=$(echo " $args " | sed "s| main.o | $T/main_.o |")
gcc -g -w -DDEBUG -iquote "$S" -iquote "$d" -I/usr/include/tcl8.6 -o "$T/demo" "$d/demo.c" @WRAP@ $args || exit 9
cd "$T" || exit 9
timeout 120 "$T/demo" "$T"
rc=$?
echo "demo: exit $rc"
exit $rc
