"""Setup: nothing to build; checks that the tools the checks need are there."""
import shutil, subprocess, sys
assert shutil.which('tlc') and shutil.which('java'), 'TLC missing'
subprocess.check_call(['/opt/venv/bin/python', '-c', 'import numpy'])
print('ok')
