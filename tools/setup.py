#!/usr/bin/env python3
"""Setup: checks that the interpreter and the repository are usable. Nothing is built or installed."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
sys.exit(subprocess.run([py, "-c", "import sys; sys.path.insert(0, %r); from simfora import controller; controller.boot(); print('simulator ready')" % HERE], env=env).returncode)
