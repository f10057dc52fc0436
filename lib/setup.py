import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vutil import *

for crate in sorted(os.listdir(os.path.join(VERIF, "harness"))):
    if os.path.exists(os.path.join(VERIF, "harness", crate, "Cargo.toml")) and not crate.startswith("_"):
        print("building", crate, flush=True)
        cargo_build(crate, timeout=1500)

import check_derive
print("building the generated definitions", flush=True)
check_derive.build(1, 6, 14)
