"""Builds the THIR dump driver (offline)."""
import os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa import dump
dump.build_driver()
from sa import decomp
decomp.refdump()
os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
print('driver built')
