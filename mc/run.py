import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness

if __name__ == "__main__":
    rc = harness.main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
