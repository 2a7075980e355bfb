#!/bin/bash
# Nothing to compile ahead: checks bundle /repo on each run. Verify the tools are there.
cd "$(dirname "$0")" || exit 1
node -e "import(\"/opt/veriftools/node/node_modules/fast-check/lib/fast-check.js\").then(m=>console.log(\"fast-check\", m.__version))"
