#!/bin/bash
# Builds the executors and the Java overrides from the committed files (offline).
cd "$(dirname "$0")" && exec python3 -c '
import common as C
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(4) as ex:
    for f in [ex.submit(C.build_harness, False), ex.submit(C.build_harness, True), ex.submit(C.build_python), ex.submit(C.build_spec)]:
        f.result()
print("ok")'
