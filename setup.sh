#!/bin/bash
# Build the facts driver and the dependencies of the analysed crate (the checks do so themselves when they are missing).
set -e
cd "$(dirname "$0")"
rm -f build/facts-*/stamp
FACTS_THREADS=1 FACTS_SKIP=src/parse/ bash analysis/extract.sh build/facts-words
[ -x build/driver/debug/factdump ]
