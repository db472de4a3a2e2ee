"""Running TLC."""
import os
import re
import shutil
import subprocess
import tempfile
import time

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


class Run:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        self.complete = "Model checking completed. No error has been found." in out


def start(module, cfg=None, env=None, workers=1, heap="2500m", simulate=None):
    d = tempfile.mkdtemp(prefix="tlc-")
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xss256m",
           "-Xmx" + heap, "-cp", CP, "-Djava.io.tmpdir=" + d, "tlc2.TLC", "-workers", str(workers),
           "-metadir", d, "-noGenerateSpecTE",
           "-config", (cfg or module + ".cfg"), module + ".tla"]
    if simulate:
        cmd[-3:-3] = simulate
    out = open(os.path.join(d, "out"), "wb")
    p = subprocess.Popen(cmd, cwd=SPEC, env={**os.environ, **(env or {})}, stdout=out,
                         stderr=subprocess.STDOUT)
    return p, d


def finish(handle, timeout=850, allow_violation=False, simulate=False):
    p, d = handle
    try:
        rc = p.wait(timeout)
        with open(os.path.join(d, "out"), encoding="utf8", errors="replace") as f:
            text = f.read()
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        raise TLCError("TLC timed out")
    finally:
        if p.poll() is None:
            p.kill()
        shutil.rmtree(d, ignore_errors=True)
    r = Run(text, rc)
    if simulate and "Error:" not in text and "Finished in" in text:
        r.complete = True
    if not r.complete and not allow_violation:
        i = text.find("Error:")
        e = TLCError("TLC failed (rc %s):\n%s\n...\n%s" % (rc, text[max(i, 0):][:1500], text[-1500:]))
        e.run = r
        raise e
    return r


def run(module, cfg=None, env=None, workers=8, heap="8g", timeout=850, simulate=None,
        allow_violation=False):
    return finish(start(module, cfg, env, workers, heap, simulate), timeout, allow_violation, bool(simulate))


def judge(paths, counts, timeout=850):
    """Run the trace specification over several event logs at once.  An event it cannot evaluate is
    left out (and reported as an error) so that the others are still judged.
    Returns ({shard: [(event index, [clauses])]}, states, transitions, errors)."""
    t0 = time.time()
    todo = [(i, p, n, 0) for i, (p, n) in enumerate(zip(paths, counts)) if n]
    res, states, trans, errors = {i: [] for i, _, _, _ in todo}, 0, 0, []
    skipped = dict.fromkeys(res, 0)
    while todo:
        hs = [(x, start("Trace", env={"TRACE_FILE": x[1]})) for x in todo]
        todo = []
        for (i, p, n, off), h in hs:
            try:
                r = finish(h, max(5, timeout - (time.time() - t0)))
                if r.distinct != n + 1:
                    errors.append("trace of %d events, TLC saw %d states" % (n, r.distinct))
            except TLCError as e:
                errors.append(str(e))
                r = getattr(e, "run", None)
                at = [int(x) for x in re.findall(r"^(?:/\\ )?step = (\d+)", r.out, re.M)] if r else []
                skipped[i] += 1
                if at and at[-1] < n and skipped[i] <= 4:
                    rest = open(p).read().split("\n")[at[-1] + 1:]
                    q = p + "." + str(skipped[i])
                    with open(q, "w") as f:
                        f.write("\n".join(rest))
                    if n - at[-1] - 1 > 0:
                        todo.append((i, q, n - at[-1] - 1, off + at[-1] + 1))
            if r is None:
                continue
            states += r.distinct
            trans += r.generated
            got = [(int(a) - 1 + off, sorted(re.findall(r'"([^"]+)"', b))) for a, b in
                   re.findall(r'<<\s*"VIOL",\s*(\d+),\s*\{([^}]*)\}\s*>>', r.out)]
            if r.out.count('"VIOL"') != len(got):
                errors.append("unparsed violation line")
            res[i] += got
    return res, states, trans, errors
