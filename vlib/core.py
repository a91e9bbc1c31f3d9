"""The pipeline every check goes through:

1. TLC explores the specification exhaustively within small constants, checks
   its invariants and prints, for every transition, the operations leading to it.
2. Those operation sequences, and random histories with larger values, are
   executed on the real code (vlib.driver) and recorded with their results and
   with the projected state of every live object.
3. TLC checks every recorded event against the specification's own operators
   (the *Trace modules); each failing clause is named.
"""
import importlib
import json
import os
import random
import subprocess
import sys
import tempfile
import time
import shutil
import zlib
from concurrent.futures import ThreadPoolExecutor

from vlib import tlc
from vlib.tlc import MachineryError

HERE = tlc.HERE
OUT = os.environ.get("VERIF_OUT", HERE)      # where evidence and replays go
NPROC = 8
JVMS = 5


class Mc:
    """One exhaustive TLC run. emit: its transitions become histories."""

    def __init__(self, module, cfg, emit=None, adapter=None, acfg=None, thorough_only=False,
                 limit=None, quick_only=False):
        self.module, self.cfg, self.emit = module, cfg, emit
        self.adapter, self.acfg = adapter, acfg
        self.thorough_only, self.limit, self.quick_only = thorough_only, limit, quick_only


class Rand:
    """A family of random histories: `count` of length n under profile gen."""

    def __init__(self, adapter, gen, count, n, acfg=None):
        self.adapter, self.gen, self.count, self.n, self.acfg = adapter, gen, count, n, acfg


class Check:
    def __init__(self, pid, trace_module, mcs, rands, owns, given=(), trace_cfg="",
                 assumptions=(), thorough=8):
        self.pid, self.trace_module, self.mcs, self.rands = pid, trace_module, mcs, rands
        self.owns, self.given, self.trace_cfg = owns, given, trace_cfg
        self.assumptions, self.thorough = list(assumptions), thorough


def histories_from_states(states, asks=()):
    """states: what the specification printed for each of its states, namely
    {pre: the operations leading to it, loops: those that keep it, steps: those
    that leave it, tails: operation sequences to be tried from it}. All the
    state-preserving operations of a state make one history; every other
    transition, and every tail, makes one. On the way to a transition some of
    the questions that states on the way answer are asked, and again behind it."""
    out = []
    text = lambda v: json.dumps(v, sort_keys=True)
    known = {text(s["pre"]): sorted((o for o in s["loops"] if o["op"] in asks), key=text) for s in states} if asks else {}

    ways = sum(len(s["steps"]) + len(s.get("tails", ())) for s in states)
    many = max(1, min(8, 20000 // max(ways, 1)))

    def asked(pre, *ops):
        rng = random.Random(zlib.crc32((text(pre) + text(ops)).encode()))
        h, again = pre + list(ops), []
        for j in sorted({len(pre), len(pre) - 1, len(pre) - rng.randint(0, 3)}, reverse=True):
            qs = known.get(text(pre[:j])) if j > 0 else None
            if qs:
                some = rng.sample(qs, min(many if j == len(pre) else 1, len(qs)))
                h[j:j] = some
                again += some
        return h + again[::-1]

    for s in states:
        pre = s["pre"]
        order = lambda ops: sorted(ops, key=lambda o: json.dumps(o, sort_keys=True))
        if s["loops"]:
            out.append(pre + order(s["loops"]))
        out += [asked(pre, o) for o in order(s["steps"])]
        out += [asked(pre, *t) if asks else pre + t for t in order(s.get("tails", []))]
    return out


def execute(jobs, tmp):
    """Runs the jobs on the real code in parallel; returns recorded histories
    and the ids of those during which the interpreter died."""
    chunks = [jobs[i::NPROC] for i in range(NPROC)]
    procs = []
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    for i, c in enumerate(chunks):
        if c:
            procs.append(start(c, tmp, "c%d" % i, env))
    recs, dead = {}, []
    while procs:
        c, inp, outp, p, name = procs.pop(0)
        err = p.communicate()[1]
        started, done, finished = None, set(), False
        with open(outp) as f:
            for line in f:
                if line.startswith("S "):
                    started = line[2:].strip()
                elif line.startswith("R "):
                    h = json.loads(line[2:])
                    recs[h["id"]] = h
                    done.add(h["id"])
                elif line.startswith("DONE"):
                    finished = True
        if finished:
            continue
        if started is None or started in done or len(name) > 40:
            raise MachineryError("driver failed: " + err.decode()[-2000:])
        if b"Error" in err and b"MemoryError" not in err:
            raise MachineryError("driver failed: " + err.decode()[-2000:])
        dead.append(started)
        rest = [j for j in c if j["id"] not in done and j["id"] != started]
        if rest:
            procs.append(start(rest, tmp, name + "x", env))
    return recs, dead


def start(c, tmp, name, env):
    inp, outp = os.path.join(tmp, name + ".in"), os.path.join(tmp, name + ".out")
    with open(inp, "w") as f:
        for j in c:
            f.write(json.dumps(j) + "\n")
    p = subprocess.Popen([sys.executable, "-m", "vlib.driver", inp, outp], cwd=HERE,
                         env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    return c, inp, outp, p, name


def validate(check, recs, tmp):
    """TLC reads the recorded histories and returns the failing clauses:
    [(history id, event index from 1, [clauses])]."""
    if not recs:
        return [], 0
    order = sorted(recs.values(), key=lambda h: -len(h["ev"]))
    parts = [order[i::JVMS] for i in range(JVMS)]
    with ThreadPoolExecutor(JVMS) as ex:
        outs = list(ex.map(lambda a: validate_part(check, a[1], tmp, a[0]),
                           [q for q in enumerate(parts) if q[1]]))
    return sum((o[0] for o in outs), []), sum(o[1] for o in outs)


def validate_part(check, order, tmp, i):
    """One TLC run over the histories in `order`. An observation no operator of
    the specification can make sense of (a number where a list belongs) stops
    TLC; the event is then reported as "unreadable", cut off together with what
    follows it in its history, and the rest is validated again."""
    f = os.path.join(tmp, "trace%d.ndjson" % i)
    cfg = ("SPECIFICATION Spec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
           + check.trace_cfg)
    bad = []
    while True:
        with open(f, "w") as o:
            for h in order:
                o.write(json.dumps(h, separators=(",", ":")) + "\n")
        r = tlc.run(check.trace_module, cfg, env={"TRACE": f}, workers=2, mem="5g")
        if r.ok:
            break
        at = tlc.stopped_at(r.out)
        if not at or not at[0] <= len(order) or not at[1] <= len(order[at[0] - 1]["ev"]):
            raise MachineryError("trace validation failed to run:\n" + tlc.excerpt(r.out))
        h = order[at[0] - 1]
        bad.append((h["id"], at[1], ["unreadable"]))
        if len(bad) == 3:
            return bad, 0
        order = list(order)
        order[at[0] - 1] = dict(h, ev=h["ev"][:at[1] - 1])
    want = sum(len(h["ev"]) + 1 for h in order)
    if r.distinct != want:
        raise MachineryError("TLC consumed %d of %d trace states" % (r.distinct, want))
    bad += [(order[b["h"] - 1]["id"], b["l"], b["c"]) for b in tlc.marked(r.out, "BAD")]
    return bad, r.distinct


def known_findings(pid):
    """{key: text} of the recorded (unrepaired) findings of a property."""
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: property=%s " % pid):
                key = line.split("key=", 1)[1].split()[0]
                out[key] = line.strip()
    return out


def gather(check, tier, seed, stats):
    jobs = []
    for mi, mc in enumerate(check.mcs):
        if mc.thorough_only and tier != "thorough":
            continue
        if mc.quick_only and tier == "thorough":
            continue
        r = tlc.run(mc.module, mc.cfg, workers=1 if mc.emit else NPROC, mem="12g")
        if not r.ok:
            raise MachineryError("the specification %s fails its own check:\n%s"
                                 % (mc.module, tlc.excerpt(r.out)))
        stats["states"] += r.distinct
        stats["transitions"] += r.generated
        stats["mc"].append({"module": mc.module, "states": r.distinct,
                            "transitions": r.generated, "depth": r.depth})
        if mc.emit:
            states = list(tlc.marked(r.out, "STATE"))
            if len(states) != r.distinct:
                raise MachineryError("%s printed %d of %d states"
                                     % (mc.module, len(states), r.distinct))
            m, a = mc.adapter.split(":")
            hs = histories_from_states(states, getattr(getattr(importlib.import_module(m), a), "ASKS", ()))
            if mc.limit and tier != "thorough" and len(hs) > mc.limit:

                hs = random.Random(seed).sample(hs, mc.limit)
            stats["spec_histories"] += len(hs)
            for i, ops in enumerate(hs):
                jobs.append({"id": "%s.m%d.%d" % (check.pid, mi, i), "adapter": mc.adapter,
                             "cfg": mc.acfg, "ops": ops})
    for ri, g in enumerate(check.given):
        for i, ops in enumerate(g["histories"]):
            jobs.append({"id": "%s.g%d.%d" % (check.pid, ri, i), "adapter": g["adapter"],
                         "cfg": g.get("cfg"), "ops": ops})
    for ri, rn in enumerate(check.rands):
        count = rn.count * (check.thorough if tier == "thorough" else 1)
        stats["random_histories"] += count
        for i in range(count):
            jobs.append({"id": "%s.r%d.%d" % (check.pid, ri, i), "adapter": rn.adapter,
                         "cfg": rn.acfg, "gen": rn.gen,
                         "seed": seed * 1000003 + ri * 100019 + i, "n": rn.n})
    return jobs


def run_check(check, tier, seed):
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vrun.")
    stats = {"states": 0, "transitions": 0, "mc": [], "spec_histories": 0,
             "random_histories": 0}
    try:
        jobs = gather(check, tier, seed, stats)
        t1 = time.time()
        recs, dead = execute(jobs, tmp)
        t2 = time.time()
        bad, nstates = validate(check, recs, tmp)
        t3 = time.time()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    byid = {j["id"]: j for j in jobs}
    known = known_findings(check.pid)
    viol, seen = [], set()
    for hid in dead:
        viol.append((byid[hid], None, 0, ["crash"]))
    for hid, l, cl in sorted(bad, key=lambda b: (b[1], b[0])):
        mine = sorted(c for c in cl if (check.owns(c) or c == "unreadable") and c[0] != "~")
        if mine:
            viol.append((byid[hid], recs[hid], l, mine))
    nev = sum(len(h["ev"]) for h in recs.values())
    cov = {
        "states": stats["states"] + nstates,
        "transitions": stats["transitions"] + nev,
        "traces_validated_against_impl": len(recs),
        "events_validated": nev,
        "spec_model_checking": stats["mc"],
        "histories_generated_by_the_spec": stats["spec_histories"],
        "random_histories": stats["random_histories"],
        "operations": opcount(recs),
        "samples": samples(recs),
        "seconds": {"model_checking": round(t1 - t0, 1), "execution": round(t2 - t1, 1),
                    "trace_validation": round(t3 - t2, 1)},
        "notes": {c: sum(c in cl for _, _, cl in bad) for c in {c for _, _, cl in bad for c in cl if c[0] == "~"}},
        "histories_cut_short_by_the_generator": sum("trunc" in h for h in recs.values()),
        "foreign_clauses": len([b for b in bad if b[2][0][0] != "~"]) - len([v for v in viol if v[1]]),
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    real = []
    for job, rec, l, cl in viol:
        k = key_of(rec, l, cl)
        if k in known:
            if k not in seen:
                print("KNOWN-FINDING: property=%s %s" % (check.pid, known[k]))
            seen.add(k)
        else:
            real.append((job, rec, l, cl))
    with open(os.path.join(OUT, "evidence", check.pid + ".json"), "w") as f:
        json.dump({"property": check.pid, "tier": tier, "seed": seed,
                   "level": "model_checking", "coverage": cov,
                   "assumptions": check.assumptions,
                   "wall_s": round(time.time() - t0, 2), "violations": len(real)}, f, indent=1)
        f.write("\n")
    if not real:
        print("OK property=%s states=%d traces=%d events=%d wall=%.1fs"
              % (check.pid, cov["states"], len(recs), nev, time.time() - t0))
        return 0
    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    shown = set()
    for job, rec, l, cl in real:
        k = key_of(rec, l, cl)
        if k in shown:
            continue
        shown.add(k)
        if len(shown) > 5:
            break
        path = os.path.join(OUT, "replays", "%s-%d.json" % (check.pid, len(shown)))
        ops = [e["op"] for e in rec["ev"][:l]] if rec else job.get("ops")
        with open(path, "w") as f:
            json.dump({"property": check.pid, "adapter": job["adapter"], "cfg": job.get("cfg"),
                       "ops": ops, "job": job, "failing_event": l, "clauses": cl,
                       "event": rec["ev"][l - 1] if rec else None}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (check.pid, path))
        print("  clauses %s at event %d of %s: %s" % (cl, l, job["id"],
              json.dumps(rec["ev"][l - 1]["op"])[:600] if rec else "interpreter died"))
    return 1


def key_of(rec, l, cl):
    op = rec["ev"][l - 1]["op"].get("op", "?") if rec else "crash"
    return "%s/%s" % (op, "+".join(cl))


def opcount(recs):
    c = {}
    for h in recs.values():
        for e in h["ev"]:
            k = e["op"].get("op", "?")
            c[k] = c.get(k, 0) + 1
    return c


def samples(recs):
    out = []
    for h in list(recs.values())[:1] + list(recs.values())[-1:]:
        out.append({"id": h["id"], "ops": [slim(e["op"]) for e in h["ev"][:12]],
                    "results": [e["res"] for e in h["ev"][:12]]})
    return out


def slim(op):
    return {k: v for k, v in op.items() if v not in ("", 0, [], None)}
