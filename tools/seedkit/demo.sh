#!/bin/bash
# Builds the library from the sources in the current directory and runs the
# demonstration program beside this script. Exit 0: behaves as promised.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
scratch=$(mktemp -d /tmp/skdemo.XXXXXX) || exit 99
trap 'rm -rf "$scratch"' EXIT
PWAL=1
[ -f "$here/nolog" ] && PWAL=0
F="-std=c++17 -O0 -g0 -w -pthread -I$here/stubs -I$repo/include -I$repo/src -I$repo/src/include -I$repo/third_party
 -DSHIRAKAMI_LINUX -DINDEX_YAKUSHIMA -DYAKUSHIMA_EPOCH_TIME=40 -DKVS_MAX_PARALLEL_THREADS=300
 -DYAKUSHIMA_MAX_PARALLEL_SESSIONS=300 -DPARAM_EPOCH_TIME=0 -DPARAM_RETRY_READ=0 -DPARAM_SNAPSHOT_EPOCH=25
 -DPARAM_CHECKPOINT_REST_EPOCH=40 -DPARAM_PWAL_LOG_GCOMMIT_THRESHOLD=1000 -DPARAM_CPR_DIFF_SET_RESERVE_NUM=0"
if [ $PWAL = 1 ]; then
  F="$F -DPWAL -DHAVE_LIMESTONE_CONFIG_CTOR_NONE=1 -DHAVE_LIMESTONE_CONFIG_SET_DATA_LOCATION_STDFSPATH=1
 -DHAVE_LIMESTONE_DATASTORE_CREATE_CHANNEL_NONE=1"
fi
F="$F $(cat "$here/cxxflags" 2>/dev/null)"
F=$(echo $F)
list=$(find "$repo/src" -name '*.cpp' | sort)
[ $PWAL = 0 ] && list=$(echo "$list" | grep -v '/datastore/limestone/')
export F scratch repo
(echo "$list"; echo "$here/demo.cpp") | xargs -P"$(nproc)" -I{} bash -c '
  o=$(echo "{}" | tr / _); g++ $F -c "{}" -o "$scratch/$o.o" || exit 255' || { echo "demo does not build"; exit 98; }
g++ -pthread "$scratch"/*.o -o "$scratch/demo" -lglog -ltbb -lboost_filesystem -latomic || { echo "demo does not link"; exit 98; }
cd "$scratch" || exit 99
GLOG_minloglevel=3 timeout -k 5 120 "$scratch/demo" "$scratch/log"
rc=$?
[ $rc = 0 ] && echo "demo: behaves as promised" || echo "demo: failed ($rc)"
exit $rc
