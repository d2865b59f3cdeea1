# usage: group.sh <main.cpp> [flags...] ; run in the repository
set -eu
kit=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
m=$1; shift
w=$(mktemp -d /tmp/seeddemo.XXXXXX)
trap 'rm -rf "$w"' EXIT
g++ -w -std=c++17 -O1 -I"$repo/c" -I"$kit" "$@" "$m" "$repo/c/naf.cpp" "$repo/c/misc.cpp" "$repo/c/splitparstr.cpp" -lgmp -pthread -o "$w/main"
rc=0
cd "$w"
timeout 120 ./main || rc=$?
exit $rc
