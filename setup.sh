#!/bin/bash
# builds the extractor and the replay program; offline
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
(cd tool && cargo build --offline)
(cd replay && cargo build --offline)
python3 -c "import check; e = check.os.makedirs(check.WORK, exist_ok=True) or check.build_py(); print(e or \"\", end=\"\")"
