"""Executes operation histories on the real code and records what it did.

usage: python3 -m vlib.driver INFILE OUTFILE

INFILE: one JSON object per line,
   {"id":.., "adapter": "module:Class", "ops":[...]}           a given history
   {"id":.., "adapter":.., "gen":{...}, "seed":n, "n":k}        a random one
OUTFILE: "S <id>" before a history starts, "R <json>" when it is recorded.
"""
import sys
sys.dont_write_bytecode = True
import importlib
import io
import json
import os
import random
import resource
import signal
import contextlib

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.path.insert(1, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import warnings

from vlib import enc


OMITTED = object()


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


OP_SECONDS = 3.0
MAX_HANGS = 10          # calls that never return are a violation in every check:
hangs = 0               # enough of them, and the remaining histories are left out


@contextlib.contextmanager
def limit(sec=OP_SECONDS):
    signal.setitimer(signal.ITIMER_REAL, sec, 0.2)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def call(fn, *a):
    """fn(*a) as a tagged result; warnings go into the list that comes back."""
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            with limit():
                r = fn(*a)
        except Hang:
            global hangs
            hangs += 1
            return enc.res("hang"), []
        except Exception as e:
            return enc.res("exc", s=enc.exc_name(e)), [w.category.__name__ for w in ws]
        return r, [w.category.__name__ for w in ws]


class Favourite:
    """A question of a random history that is asked again after the changes."""

    DULL = {"contains", "data", "kids", "is_leaf", "one_child", "is_empty"}

    def __init__(self, ad, rng):
        self.asks = getattr(ad, "ASKS", ())
        self.ad, self.op, self.changed = ad, None, False
        self.often = rng.choice([0, .15, .4])

    def again(self, rng):
        op = self.op
        if op is None or not self.changed or rng.random() > self.often:
            return None
        o = self.ad.o.get(op["o"])
        if o is None or op["op"] == "get" and op["i"] >= len(o):
            return None
        return op

    def seen(self, op, rng):
        if op["op"] not in self.asks:
            self.changed = True
        else:
            self.changed = False
            if (self.op is None or rng.random() < .1) and (op["op"] not in self.DULL or rng.random() < .3):
                self.op = dict(op)


def run_history(job):
    mod, cls = job["adapter"].split(":")
    ad = getattr(importlib.import_module(mod), cls)(job.get("cfg") or {})
    rng = random.Random(job.get("seed", 0))
    random.seed(job.get("seed", 0))
    given = job.get("ops")
    last, trunc = {}, None
    n = len(given) if given is not None else job["n"]
    ev = []
    fav = Favourite(ad, rng)
    for i in range(n):
        if given is not None:
            op = dict(ad.DEFAULT)
            op.update(given[i])
        else:
            op = dict(ad.DEFAULT)
            o = fav.again(rng)
            if o is None:
                o, _ = call(ad.rand_op, rng, job["gen"], i, n)
            if o is None:
                break
            if "tag" in o:              # the generator itself failed
                trunc = "%s %s" % (o["tag"], o["s"])
                ev.append({"op": {"op": "generate"}, "post": {},
                           "res": enc.res("broken", s=trunc)})
                break
            op.update(o)
            fav.seen(op, rng)
        r, ws = call(ad.do, op)
        # compact form: only what differs from the defaults, and only the
        # objects whose observed state differs from the last observation
        rec = {"op": {k: v for k, v in op.items() if v != ad.DEFAULT.get(k, OMITTED)},
               "res": {k: v for k, v in r.items() if v != enc.NONE[k]}}
        rec["op"]["op"] = op["op"]
        if ws:
            rec["warn"] = ws[0]
        p, _ = call(ad.project, op)
        if p.get("tag") not in ("hang", "exc"):
            rec["post"] = {k: v for k, v in p.items() if last.get(k) != v}
            gone = [k for k in last if k not in p]
            if gone:
                rec["gone"] = gone
            last = p
        ev.append(rec)
        if r.get("tag") == "hang" or p.get("tag") in ("hang", "exc"):
            rec["post"] = {}
            rec["res"] = enc.res("broken", s="%s/%s:%s" % (r["tag"], p.get("tag", "ok"), p.get("s", "")))
            break
    h = {"id": job["id"], "ev": ev}
    if trunc:
        h["trunc"] = trunc
    return h


def main():
    signal.signal(signal.SIGALRM, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    with open(sys.argv[1]) as f, open(sys.argv[2], "w") as out:
        for line in f:
            job = json.loads(line)
            out.write("S %s\n" % job["id"])
            out.flush()
            sink = io.StringIO()
            with contextlib.redirect_stdout(sink):
                h = run_history(job)
            out.write("R " + json.dumps(h, separators=(",", ":")) + "\n")
            if hangs >= MAX_HANGS:
                break
        out.write("DONE\n")


if __name__ == "__main__":
    main()
