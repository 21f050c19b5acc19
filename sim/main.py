"""Command line entry point: installs the seams, then imports uberjob, then runs a property check."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

if "SIM_SRC" in os.environ:   # (development only: run against a scratch copy's src directory)
    sys.path.insert(0, os.environ["SIM_SRC"])

import networkx  # noqa: E402,F401  (third-party code is imported before the seams, with its normal bytecode cache)
import concurrent.futures  # noqa: E402,F401
import concurrent.futures.thread  # noqa: E402,F401

from sim import fsim, kernel  # noqa: E402

kernel.install()
fsim.install()
# uberjob is always compiled from the current sources
sys.pycache_prefix = "/nonexistent/ujsim-pycache"

import uberjob  # noqa: E402
import uberjob.graph  # noqa: E402
import uberjob.progress  # noqa: E402
import uberjob.stores  # noqa: E402

SRC = os.environ.get("SIM_SRC", "/repo/src") + "/uberjob"
if not os.path.abspath(uberjob.__file__).startswith(SRC + "/"):
    sys.exit(f"uberjob was imported from {uberjob.__file__}, not from {SRC}")

from sim import fw  # noqa: E402

kernel.patch_node_hash(uberjob.graph.Node)
fw.SRC = SRC
kernel.instrument(kernel.collect_codes(SRC))

if __name__ == "__main__":
    sys.exit(fw.main(sys.argv[1:]))
