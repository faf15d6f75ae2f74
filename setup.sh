#!/bin/bash
# builds the extractor and the harness once (every check rebuilds what it needs from /repo's current tree)
cd "$(dirname "$0")" || exit 1
. vlib/env.sh
(cd verus/extractor && cargo build --release --offline --quiet) || exit 1
verus --version || exit 1
exit 0
