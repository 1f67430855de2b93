"""Entry point of all checks: run.py <property> [--replay FILE] [--tier T] [--seed N]."""
import sys
from vlib import core

if __name__ == '__main__':
    sys.exit(core.main(sys.argv[1:]))
