#!/bin/bash
# Builds the harnesses from the committed files and type-checks the specification.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
bash "$here/tools/build.sh" harness
bash "$here/tools/build.sh" harness-gov
cd "$here/spec" && for f in ntt_mbt quoter gov; do quint typecheck $f.qnt; done
