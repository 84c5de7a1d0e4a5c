#!/bin/bash
# build.sh OUTDIR PARTS...   compiles /repo's current sources with the harness
# PARTS: names of translation units; "src:x" is /repo/src/x.cpp, "h:x" is harness/x.cpp
# The result is OUTDIR/core (or $EXE).
set -e
here=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
. /opt/vp/env.sh
out=$1; shift
mkdir -p "$out"
INC="-I$REPO/include -isystem $PREFIX/include -isystem $PREFIX/include/eigen3 -I$here"
DEF="-DNDEBUG -DBOOST_MPL_LIMIT_LIST_SIZE=30 -DBOOST_MPL_LIMIT_VECTOR_SIZE=30 -DCOAL_BACKWARD_COMPATIBILITY_WITH_HPP_FCL -DPINOCCHIO_ENABLE_COMPATIBILITY_WITH_VERSION_2 -DPINOCCHIO_ENABLE_TEMPLATE_INSTANTIATION -DPINOCCHIO_WITH_HPP_FCL -DPINOCCHIO_WITH_URDFDOM -DMIM_SOLVERS_WITH_PROXQP $XDEF"
objs=(); pids=()
# sources that did not exist when this was written
new=$(cd "$REPO/src" && find . -name '*.cpp' | sed 's|^./||;s|.cpp$||' | grep -vxE 'kkt|ddp|fddp|sqp|csqp|csqp_proxqp|main|utils/callbacks' | sed 's/^/src:/' || true)
for p in "$@" $new; do
  case $p in
    src:*) f=$REPO/src/${p#src:}.cpp; n=${p#src:}; o=$out/src_${n//\//_}.o;;
    h:*) f=$here/${p#h:}.cpp; o=$out/h_${p#h:}.o;;
  esac
  g++ -std=gnu++17 -O1 -w -fPIC $DEF $XFLAGS $INC -c "$f" -o "$o" & pids+=($!)
  objs+=("$o")
done
for p in "${pids[@]}"; do wait "$p" || { echo "compilation failed" >&2; exit 3; }; done
g++ -o "$out/${EXE:-core}" "${objs[@]}" $XFLAGS -L$PREFIX/lib -lcrocoddyl -Wl,-rpath,$PREFIX/lib -Wl,-rpath-link,$PREFIX/lib
