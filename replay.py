"""replay.py FILE: runs a recorded counterexample on /repo's unmodified code."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(5000)
from sx import harness  # pylint: disable=wrong-import-position

if sys.argv[1] == "--batch":
  harness.replay_batch(sys.argv[2])
  sys.exit(0)
status, msg = harness.replay_file(sys.argv[1])
print("REPLAY %s %s" % (status, " ".join(msg.split())[:1500]))
sys.exit(1 if status == "violated" else 0)
