"""Does the trace validation notice? Records real histories, falsifies one
thing in one event of each (an answer, a warning, a piece of the observed
state), and counts how many of the falsified histories are rejected at that
event. Not part of any check.

usage: selftest.py ID [ID..]      (default: one property per specification)
"""
import copy
import json
import os
import random
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import checks
from vlib import core

DEFAULT = ["L01", "L02", "L03", "L07", "Q01", "Q04", "A02", "R02", "S02", "P02", "B01", "H01", "T01", "T02", "W01", "W02",
           "X01", "X05", "V01", "V02", "N01", "N02", "I01", "I02", "I03", "I04"]


def spots(v, path=()):
    """All places in a JSON value."""
    yield path
    if isinstance(v, dict):
        for k in v:
            yield from spots(v[k], path + (k,))
    elif isinstance(v, list):
        for i in range(len(v)):
            yield from spots(v[i], path + (i,))


def falsify(v, rng):
    """A copy of v with one thing changed, or None."""
    v = copy.deepcopy(v)
    ps = [p for p in spots(v) if p]
    rng.shuffle(ps)
    for p in ps:
        if p[-1] in ("p", "t", "f", "it"):
            continue
        u = v
        for k in p[:-1]:
            u = u[k]
        x = u[p[-1]]
        if isinstance(x, bool):
            u[p[-1]] = not x
        elif isinstance(x, int):
            u[p[-1]] = x + rng.choice([1, -1, 4])
        elif isinstance(x, str):
            u[p[-1]] = x + "x"
        elif isinstance(x, list) and x:
            if rng.random() < .5:
                x.pop(rng.randrange(len(x)))
            else:
                x.append(copy.deepcopy(x[0]))
        else:
            continue
        return v, p
    return None, None


def main():
    for pid in sys.argv[1:] or DEFAULT:
        c = checks.load(pid)
        tmp = tempfile.mkdtemp(prefix="vself.")
        try:
            stats = {"states": 0, "transitions": 0, "mc": [], "spec_histories": 0, "random_histories": 0}
            jobs = core.gather(c, "quick", 1, stats)
            rng = random.Random(5)
            jobs = rng.sample(jobs, min(len(jobs), 250))
            recs, _ = core.execute(jobs, tmp)
            out, what = {}, {}
            for h in recs.values():
                h["ev"] = h["ev"][:40]
                for part in ("res", "post", "warn"):
                    ls = [i for i, e in enumerate(h["ev"]) if i and (e.get(part) if part != "warn" else True)]
                    if not ls:
                        continue
                    m = copy.deepcopy(h)
                    l = rng.choice(ls)
                    e = m["ev"][l]
                    p = part
                    if part == "warn":
                        if "warn" in e:
                            del e["warn"]
                        else:
                            e["warn"] = "UserWarning"
                    else:
                        e[part], p = falsify(e[part], rng)
                        if e[part] is None:
                            continue
                    m["id"] = h["id"] + "/" + part
                    out[m["id"]] = m
                    what[m["id"]] = (part, l + 1, p, h["ev"][l])
            bad = {}
            try:
                found, _ = core.validate(c, out, tmp)
            except core.MachineryError as e:
                print(pid, "TLC refused the falsified traces outright:", str(e)[-300:])
                continue
            for hid, l, cl in found:
                bad.setdefault((hid, l), []).extend(x for x in cl if x[0] != "~")
            tot, hit, missed = {}, {}, []
            for hid, (part, l, p, e) in what.items():
                tot[part] = tot.get(part, 0) + 1
                if bad.get((hid, l)) or bad.get((hid, l + 1)):
                    hit[part] = hit.get(part, 0) + 1
                else:
                    missed.append((part, p, {"op": core.slim(e["op"]), "res": e["res"]}))
            print(pid, {k: "%d/%d" % (hit.get(k, 0), tot[k]) for k in tot})
            rng.shuffle(missed)
            for m in missed[:int(os.environ.get("SHOW", "3"))]:
                print("    unnoticed:", json.dumps(m)[:300])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
