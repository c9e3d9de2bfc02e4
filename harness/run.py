"""Entry point: python3 -m harness.run C01 [--tier T] [--seed N] [--part P --index I]."""
import sys
from harness import core

if __name__ == '__main__':
  sys.exit(core.main(sys.argv[1:]))
