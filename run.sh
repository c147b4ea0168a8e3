#!/bin/bash
# run.sh setup | check <property> | replay <file> | selftest <property>
# Builds the tools from /verif and runs the driver; see DESIGN.md.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
bin=$(mktemp -d /tmp/aqlsim-bin-XXXXXX) || exit 2
trap 'rm -rf "${bin:?}"' EXIT
(cd "$here/tools/instr" && go build -o "$bin/instr" .) || exit 2
(cd "$here/tools/driver" && go build -o "$bin/driver" .) || exit 2
if [ "${1:-}" = check ] && [ -n "${3:-}" ]; then export VERIF_TIER=$3; fi
VERIF_DIR=$here VERIF_INSTR=$bin/instr "$bin/driver" "$@"
exit $?
