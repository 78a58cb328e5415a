"""Findings that are recorded rather than repaired (known_findings.txt)."""
import os
from cm import VERIF

FILE = os.path.join(VERIF, "known_findings.txt")


def entries():
    try:
        with open(FILE) as f:
            return [l.strip() for l in f if l.strip() and not l.startswith("#") and not l.startswith("fixed:")]
    except OSError:
        return []


def match(prop, part, data):
    """The entry that describes this failure, if any: `property=<id> part=<part> key=<key> <text>`."""
    key = data.get("key") if isinstance(data, dict) else None
    if key is None:
        return None
    for e in entries():
        f = dict(w.split("=", 1) for w in e.split() if "=" in w)
        if f.get("property") == prop and f.get("part") == part and f.get("key") == key:
            return e.split(" ", 1)[1]
    return None
