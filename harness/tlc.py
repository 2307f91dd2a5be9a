"""Running TLC and reading what it prints."""
import json, os, re, shutil, subprocess, tempfile, time

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    """The model checker itself failed (machinery error, not a verdict)."""


def start(module, cfg, workdir, workers=1, env=None, xmx="2g", extra=()):
    md = tempfile.mkdtemp(prefix="md", dir=workdir)
    cmd = ["java", "-Xmx" + xmx, "-Xss16m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-Djava.io.tmpdir=" + md, "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    out = open(os.path.join(md, "out.txt"), "w+")
    p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, cwd=md, env=e)
    return {"p": p, "out": out, "md": md, "t0": time.time(), "module": module, "cfg": cfg}


def finish(h, timeout=800):
    """Returns dict(ok, states, distinct, lines, violated, text)."""
    try:
        h["p"].wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        h["p"].kill()
        h["p"].wait()
        raise TLCError("TLC timed out on %s/%s" % (h["module"], h["cfg"]))
    h["out"].flush()
    h["out"].seek(0)
    lines, text = [], []
    for line in h["out"]:
        if line.startswith('"') and len(line) > 2:
            try:
                lines.append(json.loads(line))
                continue
            except ValueError:
                pass
        if not re.match(r"(Semantic|Linting|Parsing)", line):
            text.append(line)
    h["out"].close()
    shutil.rmtree(h["md"], ignore_errors=True)
    text = "".join(text)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", text.replace(",", ""))
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
    gen, dist = (int(x.replace(",", "")) for x in m.groups()) if m else (0, 0)
    ok = "Model checking completed. No error has been found." in text
    if not ok and "Finished in" in text and "-simulate" in text:
        ok = True
    return {"ok": ok, "states": dist, "transitions": gen, "lines": lines, "text": text,
            "wall": time.time() - h["t0"], "cfg": h["cfg"], "module": h["module"]}


def run(module, cfg, workdir, **kw):
    to = kw.pop("timeout", 800)
    return finish(start(module, cfg, workdir, **kw), timeout=to)
