"""Checks that the tools the checks need are there (nothing has to be built)."""
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
for cmd in (["java", "-version"], ["/opt/venv/bin/python", "-c", "import numpy, scipy, tqdm"]):
    subprocess.run(cmd, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
if not os.path.exists("/opt/veriftools/tla/tla2tools.jar"):
    sys.exit("TLC is missing")
print("ok")
