"""Nothing has to be built; verifies that the tools are there."""
import shutil
import sys

if shutil.which('clang') is None:
    print('clang not found')
    sys.exit(1)
print('ok')
