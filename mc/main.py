"""Entry point: python -m mc.main C01 [quick|thorough] [--replay file]."""
import importlib
import sys

from mc import core

if __name__ == '__main__':
    core.setup_paths()
    sys.exit(core.main(importlib.import_module('mc.' + sys.argv[1].lower()), sys.argv[2:]))
