# usage: field.sh <asm|c> <prime> <main.cpp> ; run in the repository; builds the generated field Fr and runs main
set -eu
kit=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d /tmp/seeddemo.XXXXXX)
trap 'rm -rf "$w"' EXIT
node "$kit/gen.js" "$repo" "$2" Fr "$w"
cp "$3" "$w/main.cpp"
cd "$w"
if [ "$1" = asm ]; then
  nasm -felf64 fr.asm -o frasm.o
  g++ -w -std=c++17 -O1 -DUSE_ASM -DARCH_X86_64 -no-pie -z noexecstack -I"$w" -I"$repo/c" main.cpp fr.cpp frasm.o -lgmp -o main
else
  g++ -w -std=c++17 -O1 -I"$w" -I"$repo/c" main.cpp fr.cpp fr_generic.cpp fr_raw_generic.cpp -lgmp -o main
fi
rc=0
timeout 120 ./main || rc=$?
exit $rc
