"""Verifies that the analysis front end works; there is nothing to build."""
import shutil
import subprocess
import sys
for tool in ('clang++',):
    if not shutil.which(tool):
        sys.exit('missing tool: ' + tool)
print(subprocess.run(['clang++', '--version'], capture_output=True, text=True).stdout.splitlines()[0])
