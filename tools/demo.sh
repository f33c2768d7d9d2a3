#!/bin/bash
# cwd: /repo after the build. Exit 0 if the property holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh 2>/dev/null
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_pml=ob1 OMPI_MCA_btl=self,vader OMPI_MCA_plm=isolated OMP_NUM_THREADS=1
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
cp "$here"/*.xml "$here"/*.py "$w" 2>/dev/null
g++ -std=c++17 -O0 -I"$repo/src" -I"$repo/_build/src" -I"$here" "$here/demo.cpp" -o "$w/demo" -L"$repo/_build" -lprecice -Wl,-rpath,"$repo/_build" || exit 2
cd "$w" || exit 2
timeout 200 ./demo
