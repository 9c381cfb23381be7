"""setup_cmd: builds what the checks share, so that the first check does not pay for it."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
print(build.stdlib())
print(build.compiler())
