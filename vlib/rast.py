"""Syntax trees of the R sources (R's own parser; nothing is evaluated)."""
import json, os, subprocess, tempfile, glob
from .build import REPO

TOOL = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tool", "rast.R")
_memo = {}


class RError(Exception):
    pass


def rfiles():
    return sorted(glob.glob(os.path.join(REPO, "Rpackage", "R", "*.R")))


def top():
    """[{file, l, e}] of all top-level expressions"""
    if "top" not in _memo:
        with tempfile.TemporaryDirectory() as d:
            out = os.path.join(d, "r.json")
            r = subprocess.run(["Rscript", "--vanilla", TOOL, out] + rfiles(), capture_output=True, text=True, timeout=300)
            if r.returncode != 0:
                raise RError("R could not parse the sources: " + r.stderr[-400:])
            _memo["top"] = json.load(open(out))
    return _memo["top"]


def rfunctions():
    """name -> {file, l, formals, body}"""
    if "fun" not in _memo:
        out = {}
        for t in top():
            e = t["e"]
            if e["k"] == "call" and e["fn"] in ("<-", "=") and e["a"][1]["v"]["k"] == "fun":
                n = e["a"][0]["v"]
                name = n.get("n") or n.get("v")
                fn = e["a"][1]["v"]
                out[name] = {"file": t["file"], "l": t["l"], "formals": fn["formals"], "body": fn["body"]}
        _memo["fun"] = out
    return _memo["fun"]


def rwalk(e):
    yield e
    if e["k"] == "call":
        if "h" in e:
            yield from rwalk(e["h"])
        for a in e["a"]:
            yield from rwalk(a["v"])
    elif e["k"] == "fun":
        for f in e["formals"]:
            yield from rwalk(f["v"])
        yield from rwalk(e["body"])


def rcalls(e):
    for x in rwalk(e):
        if x["k"] == "call":
            yield x
