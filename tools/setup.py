"""Nothing to build: check that the machinery can start."""
import os
import subprocess
import sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
os.makedirs(os.path.join(here, 'replays'), exist_ok=True)
sys.exit(subprocess.call([sys.executable, os.path.join(here, 'run.py'), '--self-test']))
