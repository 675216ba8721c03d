"""setup_cmd: nothing to build (pure Python); verify that the simulator loads pyzx from /repo."""
import os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(H, 'evidence'), exist_ok=True)
os.makedirs(os.path.join(H, 'replays'), exist_ok=True)
py = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
sys.exit(subprocess.call([py, '-W', 'ignore', '-c', 'import sys; sys.path.insert(0, %r); from dst import seams; print(seams.load().__file__)' % H], env=env))
