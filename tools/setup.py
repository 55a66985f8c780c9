"""setup_cmd: verifies the toolchain and compiles the engine (every check rebuilds what it needs from /repo)."""
import os, sys, subprocess
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "mc"))
import build
subprocess.check_call(["gcc", "--version"], stdout=subprocess.DEVNULL)
print(build.build("h_sort"))
