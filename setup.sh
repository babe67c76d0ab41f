#!/bin/bash
# Nothing is kept between runs: every check builds what it needs itself.
set -e
cd "$(dirname "$0")"
command -v gcc g++ make gawk >/dev/null
bash -n check.sh lib/build.sh
python3 -m json.tool MANIFEST.json >/dev/null
