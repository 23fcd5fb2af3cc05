# Nothing to install: every check builds what it needs. This verifies that the toolchain is there.
import shutil, sys
missing = [t for t in ("g++", "python3") if not shutil.which(t)]
print("toolchain:", "missing " + str(missing) if missing else "ok")
sys.exit(1 if missing else 0)
