#!/bin/bash
# mkdemo.sh ID [gcc flags] < demo.c : write demo.sh and demo.c of a planted change
D=/verif/seeded/$1; shift
mkdir -p "$D"; cat > "$D/demo.c"
cat > "$D/demo.sh" <<X
#!/bin/bash
# run with cwd = the repository: exit 0 if the property holds
here=\$(cd "\$(dirname "\$0")" && pwd)
repo=\$PWD
d=\$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf -- "\$d"' EXIT
src=
for f in bits blake2b internal io nodes proof store tree util; do
  src="\$src \$repo/src/\$f.c"
done
gcc -O1 -g -w -DURKEL_DEBUG -DURKEL_TLS=__thread -D_GNU_SOURCE \\
  -I"\$repo/include" -I"\$repo/src" $* -o "\$d/demo" "\$here/demo.c" \$src \\
  -lpthread || exit 2
cd "\$d" || exit 2
timeout 120 ./demo
X
