import sys
from mc import core
if __name__ == "__main__":
    sys.exit(core.main())
