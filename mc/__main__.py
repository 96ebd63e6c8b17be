import sys
from . import core
if sys.argv[1] == "replay":
    sys.exit(core.replay(sys.argv[2]))
sys.exit(core.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None))
