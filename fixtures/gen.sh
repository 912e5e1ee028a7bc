#!/bin/bash
# Authoring time only: compiles FILE.cc the way the repository's compile-add-blocks.sh does (clang 14, the addEmptyBlocks pass)
# and rewrites the text for the LLVM 11 parser of llvmlite 0.39.  The results are committed.
set -e
cd "$(dirname "$0")"
for b in "$@"; do
  t=$(mktemp -d)
  clang++-14 -O0 -fno-discard-value-names -fno-exceptions -S -emit-llvm $b.cc -o $t/a.ll
  opt-14 -enable-new-pm=0 -load /repo/llvm-pass/build/addEmptyBlocks/libAddEmptyBlocksPass.so -addEmptyBlock -lowerinvoke --unreachableblockelim -instnamer -S $t/a.ll > $t/b.ll 2> $t/log
  opt-14 -enable-new-pm=0 -analyze -loops $t/b.ll > $b.loops
  sed -E 's/sret\([^)]*\)/sret/; s/ noundef//g; s/mustprogress //; s/nofree //; s/, !llvm.loop ![0-9]+//; /^!/d; /^attributes/d; s/ #[0-9]+( \{)?$/\1/; s/source_filename.*//; /ModuleID/d' $t/b.ll > $b.ll
  rm -rf $t
done
python3 - <<'P'
import re,subprocess,json,glob
d={n: subprocess.run(['c++filt','-n',n],stdout=subprocess.PIPE).stdout.decode().strip() for f in glob.glob('*.ll') for n in set(re.findall(r'@(_Z\w+)', open(f).read()))}
open('names.json','w').write("{\n"+",\n".join('"%s": "%s"'%(k,d[k]) for k in sorted(d))+"\n}\n")
P
