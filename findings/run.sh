#!/bin/bash
# run.sh NAME [extra flags]: builds and runs a replay against /repo's build (bash /opt/vp/build.sh first)
R=${GAPP_REPO:-/repo}; B=$(mktemp -d); trap 'rm -rf "$B"' EXIT
g++ -std=c++20 -O1 -g -w -D_GLIBCXX_ASSERTIONS -DGAPP_BUILD_STATIC "${@:2}" -I"$R/src" "$(dirname "$0")/$1.cpp" ${GAPP_LIB:-$R/_build/libgapp.a} -ltbb -lpthread -o "$B/x" 2>"$B/err" || g++ -std=c++20 -O1 -g -w -D_GLIBCXX_ASSERTIONS -DGAPP_BUILD_STATIC "${@:2}" -I"$R/src" "$(dirname "$0")/$1.cpp" ${GAPP_LIB:-$R/_build/libgapp.a} -lpthread -o "$B/x" || exit 3
timeout ${T:-60} "$B/x"; echo "exit $?"
