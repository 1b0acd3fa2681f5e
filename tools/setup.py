"""Checks that the tools the framework needs are there (each check builds what it needs itself)."""
import shutil, subprocess, sys
for t in ("clang++", "python3"):
    if not shutil.which(t): sys.exit("missing " + t)
r = subprocess.run(["clang++", "-fsanitize=address,undefined", "-x", "c++", "-", "-o", "/dev/null"], input="int main(){}", text=True)
sys.exit(r.returncode)
