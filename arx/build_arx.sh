#!/bin/bash
# (re)build the extractor if needed; prints nothing on success
cd "$(dirname "$0")" || exit 3
mkdir -p ../build
h=$(sha1sum extract.cpp | cut -c1-16)
bin=../build/arx-$h
[ -x $bin ] && exit 0
exec 9>../build/.lock; flock 9
[ -x $bin ] && exit 0
L=/usr/lib/llvm-18
/usr/bin/clang++ -O1 -w -std=c++17 -fno-rtti -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  extract.cpp -o $bin.tmp.$$ -L$L/lib -l:libclang-cpp.so.18.1 -l:libLLVM-18.so || { rm -f $bin.tmp.$$; exit 3; }
mv $bin.tmp.$$ $bin
