#!/bin/bash
# build.sh OUTDIR: the real code with AddressSanitizer plus the refuter
O=$1; H=$(dirname "$(readlink -f "$0")"); R=${WVC_REPO:-/repo}
mkdir -p $O/ro
INC="-I$O -I$O/wdns -I$R -I$R/wdns -include config.h -include $O/wdns/wdns.h -include $R/wdns/wdns-private.h"
CF="-g1 -O1 -w -D_GNU_SOURCE -fsanitize=address -fno-omit-frame-pointer -fno-common"
{
  while read n p; do echo "clang $CF $INC -c $p -o $O/ro/lib_$n.o"; done < $O/sources.txt
  for f in $H/*.cpp; do echo "clang++ -std=c++17 $CF -I$H -I$O/wdns -I$O -c $f -o $O/ro/$(basename $f .cpp).o"; done
  # access to the internal helpers; if their declarations changed, the tests that use them are not built
  for f in $H/shim_*.c; do b=$(basename $f .c); echo "clang $CF -Werror=implicit-function-declaration -Werror=int-conversion -Werror=incompatible-pointer-types $INC -c $f -o $O/ro/$b.o || clang -c -DNOSHIM $f -o $O/ro/$b.o"; done
} | xargs -P 8 -d '\n' -I{} sh -c "{} || exit 255" || exit 1
clang++ -fsanitize=address $O/ro/*.o -o $O/refuter && exit 0
# some internal function is gone: link with empty shims
for f in $H/shim_*.c; do clang -c -DNOSHIM $f -o $O/ro/$(basename $f .c).o; done
clang++ -fsanitize=address $O/ro/*.o -o $O/refuter
