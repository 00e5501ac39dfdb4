# sourced by demo.sh, cwd = repository root; D = folder of the demo, W = scratch
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
R=$PWD; L=$R/.build-waf-default/src
CF="-std=gnu11 -fblocks -funsigned-char -fno-strict-aliasing -fwrapv -march=x86-64-v2 -w -g -O1 -D_GNU_SOURCE -DHAS_LIBCOMMON_REPOSITORY=0 -D__gcc_has_no_ifunc -U_FORTIFY_SOURCE -I$R -I$R/src/compat -I/usr/include/libxml2 -I/usr/include/valgrind -DHAVE_OPENSSL=1 -DHAVE_ZLIB=1 -DHAVE_LIBXML=1"
LIBS="$L/liblibcommon.a $L/liblibcommon-iop.a $L/liblibcommon-minimal.a -lxml2 -lz -lssl -lcrypto -ldl -lm -lpthread -lrt -lutil"
cc1() { clang -x c $CF "$@"; }
