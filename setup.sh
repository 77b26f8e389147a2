#!/bin/bash
# builds the drivers and the TLC override from the committed files, and model checks the quick tier's configurations
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, "tools")
import aob
import models
aob.build_override()
aob.build_harness()
aob.build_wasm()
aob.build_ts()
models.all_tables(list(models.MODELS))
models.depth_table("quick")
models.world_table("quick")
P
