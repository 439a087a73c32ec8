#!/bin/bash
# Builds what the checks need from the committed files and /repo's working tree, offline.
cd "$(dirname "$0")" || exit 1
node lib/build.js harness cli && node -e "require(\"./lib/clirun\").prepare(); require(\"./lib/clock\").prepare()"
