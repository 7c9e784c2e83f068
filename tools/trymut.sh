#!/bin/bash
# trymut.sh PATCH|-- [IDs...]: run the checks against a scratch copy of /repo with PATCH applied (for development)
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
P=$1; shift
N=${SLOT:-0}
D=/tmp/mut$N
mkdir -p $D/build
rm -rf /tmp/mut$N/repo
mkdir -p $D/repo
(cd /repo && git ls-files -z | xargs -0 cp --parents -t $D/repo)
[ "$P" = -- ] || (cd $D/repo && patch -s -p1 < "$P")
[ -n "$SCRIPT" ] && (cd $D/repo && bash -e -c "$SCRIPT")
[ -d $D/build/driver ] || cp -a $V/build/driver $V/build/target $D/build/ 
REPO=$D/repo BUILD_DIR=$D/build EVIDENCE_DIR=$D/evidence STRICT=$STRICT python3 $V/check.py "$@"
