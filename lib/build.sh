# Sourced.  build_lib DIR: configure and build libdfp from /repo's working tree
# in DIR (outside /repo).  Extra flags for the library in LIB_CFLAGS.
REPO=${REPO:-/repo}
build_lib () {
  mkdir -p "$1" && cd "$1" || return 2
  export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C
  unset MAKEFLAGS MAKELEVEL
  CC=gcc CXX=g++ AWK=gawk CFLAGS="-O2 -g0 ${LIB_CFLAGS:-}" CXXFLAGS="-O2 -g0" "$REPO/configure" >configure.log 2>&1 || { tail -20 configure.log; return 2; }
  # The file is absent from this copy of the repository (see /opt/vp/build.sh);
  # its functions come from libgcc.
  [ -e "$REPO/libbid/bid_binarydecimal.c" ] || : > bid_binarydecimal.c
  make -j"$(nproc)" shared >make.log 2>&1 || make shared >>make.log 2>&1 || { grep -a -m5 -i 'error' make.log; tail -5 make.log; return 2; }
  [ -e libdfp.so.1 ] || { echo "no libdfp.so.1"; return 2; }
}
# prog SRC.cpp|c OUT: compile one check program against the library in $LIBDIR
SHIMFLAGS="-std=gnu11 -O1 -fno-builtin -frounding-math -D__STDC_WANT_DEC_FP__=1 -D__STDC_WANT_IEC_60559_DFP_EXT__=1"
compile_prog () { # name objdir
  gcc $SHIMFLAGS -isystem "$REPO/dfp" -c "$ROOT/src/shim.c" -o "$2/shim.o" &
  local p1=$! p2=
  if [ "$1" = stream ]; then
    g++ -std=gnu++17 -O1 -frounding-math ${CXSAN:-} -D__STDC_WANT_DEC_FP__=1 -isystem "$REPO/dfp" -c "$ROOT/src/cxshim.cpp" -o "$2/extra.o" &
    p2=$!
  fi
  if [ -e "$ROOT/src/$1_c.c" ]; then
    gcc $SHIMFLAGS -isystem "$REPO/dfp" -c "$ROOT/src/$1_c.c" -o "$2/extra.o" || return 2
  fi
  g++ -std=gnu++17 -O2 -w -c "$ROOT/src/$1.cpp" -o "$2/$1.o" || return 2
  wait $p1 || return 2
  [ -z "$p2" ] || wait $p2 || return 2
}
link_prog () {
  local x=
  [ ! -e "$2/extra.o" ] || x=$2/extra.o
  g++ ${LINKSAN:-} -o "$2/$1" "$2/$1.o" "$2/shim.o" $x -L"$3" -ldfp -Wl,-rpath,"$3" -ldl -pthread || return 2
}
