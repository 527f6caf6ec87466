"""setup_cmd: checks that the toolchain and the offline sources the checks need are there."""
import os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
import check
e = check.env_170()
e["CARGO_TARGET_DIR"] = os.path.join(here, "target", "check")
r = subprocess.run(["cargo", "metadata", "--offline", "--format-version", "1"], cwd=os.path.join(here, "harness"), env=e, stdout=subprocess.DEVNULL)
sys.exit(1 if r.returncode else 0)
