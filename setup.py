"""Prepares /verif in a fresh sandbox: nothing to install, only the scratch folders and a tool check."""
import os, shutil, subprocess, sys
R = os.path.dirname(os.path.abspath(__file__))
for d in ("build", "evidence"):
    os.makedirs(os.path.join(R, d), exist_ok=True)
for t in ("java", "g++", "python3"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
subprocess.run(["java", "-version"], check=True, stderr=subprocess.DEVNULL)
