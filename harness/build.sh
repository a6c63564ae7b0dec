#!/bin/bash
# build.sh SOURCE OUT [FLAGS...]   compiles a harness against $VREPO (default /repo)
set -e
R=${VREPO:-/repo}; H=$(cd "$(dirname "$0")" && pwd)
g++ -std=c++17 -g1 -O1 -fopenmp -include cstdint -DCPP -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer -w -fpermissive -I"$R" -I"$H" -I"$R/GTgraph/sprng2.0-lite/include" "${@:3}" -o "$2" "$1"
