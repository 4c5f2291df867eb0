"""setup_cmd: checks that everything the checks need is there. All builds happen in the checks themselves."""
import shutil
import sys

missing = [t for t in ("java", "javac", "g++", "clang++", "python3") if not shutil.which(t)]
print("missing: %s" % missing if missing else "ok")
sys.exit(1 if missing else 0)
