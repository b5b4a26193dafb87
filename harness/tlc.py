"""Running TLC, and reading what it says."""
import os
import re
import shutil
import subprocess
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLA = "/opt/veriftools/tla"
JAR = f"{TLA}/tla2tools.jar"
COMM = f"{TLA}/CommunityModules-deps.jar"


class Broken(Exception):
    """The machinery, not the code under test, failed."""


def build():
    """Compile the fast number operators if they are missing or stale."""
    src, out = f"{ROOT}/java/Fix.java", f"{ROOT}/build"
    cls = f"{out}/Fix.class"
    if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src):
        return
    os.makedirs(out, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=out)
    r = subprocess.run(["javac", "-cp", JAR, "-d", tmp, src], capture_output=True, text=True)
    if r.returncode:
        raise Broken("javac: " + r.stderr)
    for f in os.listdir(tmp):
        os.replace(f"{tmp}/{f}", f"{out}/{f}")
    os.rmdir(tmp)


def run(module, config, env=None, workers=1, heap="3g", timeout=800, work=None, simulate=None):
    """config: text of the .cfg.  Returns the output lines; raises Broken unless TLC finished without error."""
    d = tempfile.mkdtemp(dir=work)
    try:
        cfg = f"{d}/{module}.cfg"
        with open(cfg, "w") as f:
            f.write(config)
        gc = ["-XX:+UseSerialGC"] if workers == 1 else ["-XX:+UseParallelGC", f"-XX:ParallelGCThreads={min(workers, 4)}"]
        cmd = ["java", *gc, f"-Xmx{heap}", "-Xss64m", "-XX:TieredStopAtLevel=4", "-cp", f"{ROOT}/build:{JAR}:{COMM}",
               "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-fp", "0", "-metadir", f"{d}/meta",
               "-config", cfg]
        if simulate:
            cmd += simulate
        cmd.append(f"{ROOT}/spec/{module}.tla")
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=d,
                           env=dict(os.environ, **(env or {})))
        lines = r.stdout.splitlines()
        if r.returncode != 0 or not any("No error has been found" in l or "states checked" in l for l in lines):
            tail = [l for l in lines if not l.startswith(("Parsing", "Semantic", "Linting", "Loading", '"SCN', "<<"))]
            raise Broken(f"TLC {module}: exit {r.returncode}\n" + "\n".join(tail[-40:]) + r.stderr[-2000:])
        return lines
    finally:
        shutil.rmtree(d, ignore_errors=True)


def counts(lines):
    for l in reversed(lines):
        m = re.match(r"(\d+) states generated, (\d+) distinct states", l)
        if m:
            return int(m.group(1)), int(m.group(2))
    return 0, 0


def scenarios(lines):
    import json
    out = []
    for l in lines:
        if l.startswith('"SCN '):
            out.append(json.loads(json.loads(l)[4:]))
    return sorted(out, key=lambda x: json.dumps(x, sort_keys=True))


VERDICT = re.compile(r'^<<"(OK|FAIL)", (\d+), "([^"]*)", (-?\d+), (-?\d+)>>$')


def verdicts(lines):
    """[(ok, event, clause, magnitude, allowed)], number of events judged (None: not finished)"""
    out, done = [], None
    for l in lines:
        m = VERDICT.match(l)
        if m:
            out.append((m.group(1) == "OK", int(m.group(2)) - 1, m.group(3), int(m.group(4)), int(m.group(5))))
        elif l.startswith('<<"DONE", '):
            done = int(l[10:-2])
    return out, done
