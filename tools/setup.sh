#!/bin/bash
# Nothing has to be kept: every check builds what it needs.  This only shows
# that the tools are there and the specification is well-formed.
set -e
cd "$(dirname "$0")/../spec"
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
for m in *.tla; do
	java -Djava.io.tmpdir="$T" -cp $CP tla2sany.SANY -error-codes "$m" > "$T/out" 2>&1 || {
		cat "$T/out"
		exit 1
	}
done
make -s -j8 -f ../harness/Makefile OUT="$T/build" "$T/build/term"
