"""Running TLC on the modules in /verif/spec."""
import json
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


class Result:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        self.ok = "Model checking completed. No error has been found." in out
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0


def run(module, cfg_text, env=None, workers=8, mem="6g", timeout=800, extra=(),
        modules=None, coverage=False):
    """Runs TLC on `module` with the given configuration in a scratch copy."""
    d = tempfile.mkdtemp(prefix="vtlc.")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        for name, text in (modules or {}).items():
            with open(os.path.join(d, name + ".tla"), "w") as f:
                f.write(text)
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write(cfg_text)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseParallelGC", "-cp", CP,
               "tlc2.TLC", "-config", "run.cfg", "-workers", str(workers),
               "-deadlock", "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta")]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd += list(extra) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on %s" % module)
        return Result(p.stdout + p.stderr, p.returncode)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def stopped_at(out):
    """(h, l): the trace and the event in it that TLC could not evaluate."""
    if "Error:" not in out or "The behavior up to this point is:" not in out or "OutOfMemory" in out:
        return None
    st = out.split("The behavior up to this point is:")[-1].split("\nError:")[0]
    h, l = re.findall(r"^/\\ h = (\d+)$", st, re.M), re.findall(r"^/\\ l = (\d+)$", st, re.M)
    return (int(h[-1]), int(l[-1])) if h and l else None


def marked(out, mark):
    """The JSON payloads of the lines PrintT(mark \\o " " \\o ToJson(..)) wrote."""
    pre = '"' + mark + " "
    for line in out.splitlines():
        if line.startswith(pre) and line.endswith('"'):
            yield json.loads(json.loads(line)[len(mark) + 1:])


def excerpt(out):
    """What TLC said about its failure, without the trace."""
    i = out.find("Error")
    return out[i:i + 1500] + "\n...\n" + out[-1000:] if i >= 0 else out[-3000:]
