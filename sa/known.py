"""The committed list of known findings (known-findings.txt)."""
import os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(prop):
    """open findings of a property: {key: description}"""
    out = {}
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'open: property=(\S+) key=\[(.*?)\] (.*)$', l.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out
