#!/bin/bash
# buildpy.sh OUTDIR   the Python module of /repo's current sources, the test problems for Python, and main_py
set -e
here=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
. /opt/vp/env.sh
out=$1
mkdir -p "$out/mim_solvers"
SUF=$(python -c 'import sysconfig; print(sysconfig.get_config_var("EXT_SUFFIX"))')
PYINC="-isystem $(python -c 'import numpy; print(numpy.get_include())') -isystem $(python -c 'import sysconfig; print(sysconfig.get_paths()["include"])')"
INC="-I$REPO/include -I$REPO/bindings -isystem $PREFIX/include -isystem $PREFIX/include/eigen3 -isystem $PREFIX/include/urdfdom -isystem $PREFIX/include/urdfdom_headers -I$here"
DEF="-DNDEBUG -DBOOST_MPL_LIMIT_LIST_SIZE=30 -DBOOST_MPL_LIMIT_VECTOR_SIZE=30 -DCOAL_BACKWARD_COMPATIBILITY_WITH_HPP_FCL -DPINOCCHIO_ENABLE_COMPATIBILITY_WITH_VERSION_2 -DPINOCCHIO_ENABLE_TEMPLATE_INSTANTIATION -DPINOCCHIO_WITH_HPP_FCL -DPINOCCHIO_WITH_URDFDOM -DMIM_SOLVERS_WITH_PROXQP"
pids=()
cc() { g++ -std=gnu++17 -O1 -w -fPIC $DEF $INC $3 -c "$1" -o "$out/$2.o" & pids+=($!); }
b=(); s=()
if [ -n "$ONLYEXT" ]; then
  cc "$here/vhext.cpp" vhext "$PYINC"
  wait "${pids[0]}" || { echo "compilation failed" >&2; exit 3; }
  g++ -shared -o "$out/vhext$SUF" "$out/vhext.o" -leigenpy -lboost_python312 -L$PREFIX/lib -lcrocoddyl -Wl,-rpath,$PREFIX/lib -Wl,-rpath-link,$PREFIX/lib
  exit
fi
for f in $(find "$REPO/bindings" -name '*.cpp'); do n=b_$(basename "$f" .cpp); cc "$f" $n "$PYINC"; b+=("$out/$n.o"); done
cc "$here/vhext.cpp" vhext "$PYINC"
cc "$here/main_py.cpp" main_py
for f in $(find "$REPO/src" -name '*.cpp' ! -name main.cpp); do n=s_$(basename "$f" .cpp); cc "$f" $n; s+=("$out/$n.o"); done
for p in "${pids[@]}"; do wait "$p" || { echo "compilation failed" >&2; exit 3; }; done
L="-L$PREFIX/lib -lcrocoddyl -Wl,-rpath,$PREFIX/lib -Wl,-rpath-link,$PREFIX/lib"
g++ -shared -o "$out/mim_solvers/mim_solvers_pywrap$SUF" "${b[@]}" "${s[@]}" -leigenpy -lboost_python312 $L &
g++ -shared -o "$out/vhext$SUF" "$out/vhext.o" -leigenpy -lboost_python312 $L &
g++ -o "$out/py" "$out/main_py.o" "${s[@]}" $L
wait
cp "$REPO/bindings/mim_solvers/__init__.py" "$out/mim_solvers/"
