#!/usr/bin/env python3
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lastatic.core import main
from lastatic.checks import REGISTRY

if __name__ == '__main__':
    sys.exit(main(REGISTRY, sys.argv[1:]))
