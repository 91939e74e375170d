"""Builds the libraries and harnesses in advance (each check also builds what it needs by itself)."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from registry import CHECKS
from concurrent.futures import ThreadPoolExecutor
t = time.time()
todo = sorted({(j['harness'], j.get('config', 'std')) for c in CHECKS.values() for j in c['jobs'] if not j.get('thorough_only')})
for cfg in sorted({c for _, c in todo}):
    build.library(cfg)
with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
    list(ex.map(lambda x: build.harness(*x), todo))
print('built %d harnesses in %.1f s' % (len(todo), time.time() - t))
