"""Running TLC: model checking, behaviour generation, trace validation."""
import json, os, re, shutil, subprocess, tempfile, time
from . import build as B

SPECS = os.path.join(B.VERIF, "specs")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


def run(module, cfg, env=None, workers=8, timeout=700, args=(), heap="4g"):
    d = tempfile.mkdtemp(prefix="tlc.", dir=B.cache_root())
    try:
        c = os.path.join(d, "M.cfg")
        with open(c, "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4",
               "-Djava.io.tmpdir=" + d, "-DTLA-Library=" + SPECS, "-cp", CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-config", c, *args, os.path.join(SPECS, module + ".tla")]
        t = time.time()
        p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout, p.stderr, time.time() - t
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _stats(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


def check(module, constants, invariants=(), properties=(), spec="Spec", workers=8, timeout=700,
          symmetry="", constraint="", view="", extra=""):
    """Exhaustive model checking of the specification. -> dict(states, transitions, wall)"""
    cfg = "SPECIFICATION %s\nCONSTANTS %s\n" % (spec, constants)
    if invariants:
        cfg += "INVARIANTS " + " ".join(invariants) + "\n"
    if properties:
        cfg += "PROPERTIES " + " ".join(properties) + "\n"
    if constraint:
        cfg += "CONSTRAINT " + constraint + "\n"
    if view:
        cfg += "VIEW " + view + "\n"
    cfg += extra + "\nCHECK_DEADLOCK FALSE\n"
    rc, out, err, w = run(module, cfg, workers=workers, timeout=timeout)
    if rc != 0 or "No error has been found" not in out:
        raise TlcError("model %s: the specification itself fails (rc %d)\n%s" % (module, rc, out[-4000:] + err[-1000:]))
    g, d = _stats(out)
    return dict(module=module, constants=constants, states=d, transitions=g, wall=round(w, 1),
                invariants=list(invariants) + list(properties))


def _unq(s):
    # TLC prints strings with \" and \\ escapes
    return json.loads('"' + s.replace("\t", "\\t") + '"') if "\\" in s else s


def generate(module, constants, num, depth, seed, spec="Spec", timeout=300, extra="", prefix="PROG ", simulate=True,
             workers=1, invariants=()):
    """Behaviours of the specification printed by the model as  "PROG <json>" lines."""
    cfg = "SPECIFICATION %s\nCONSTANTS %s\n%s\nCHECK_DEADLOCK FALSE\n" % (spec, constants, extra)
    if invariants:
        cfg += "INVARIANTS " + " ".join(invariants) + "\n"
    args = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)] if simulate else []
    rc, out, err, w = run(module, cfg, workers=workers, timeout=timeout, args=args)
    if rc != 0:
        raise TlcError("generation %s rc %d\n%s" % (module, rc, out[-3000:] + err[-1000:]))
    res, seen = [], set()
    for line in out.splitlines():
        if line.startswith('"' + prefix):
            t = _unq(line[1 + len(prefix):-1])
            if t not in seen:
                seen.add(t)
                res.append(json.loads(t))
    return res


def validate(module, init, step, hists, workers=8, timeout=800, consts="", chunk_events=400000):
    """Check recorded histories against a trace specification.

    hists: list of {"id","cfg","ev"}.  -> (bads, stats); bads: (history index, event no, [clauses]);
    stats["left"]: histories that at some event leave what the specification speaks about."""
    bads, tot_g, tot_d, wall, left = [], 0, 0, 0.0, 0
    chunks, cur, n = [], [], 0
    for k, h in enumerate(hists):
        cur.append(k)
        n += len(h["ev"])
        if n >= chunk_events:
            chunks.append(cur)
            cur, n = [], 0
    if cur:
        chunks.append(cur)
    while chunks:
        ch = chunks.pop(0)
        d = tempfile.mkdtemp(prefix="val.", dir=B.cache_root())
        try:
            tf = os.path.join(d, "trace.ndjson")
            with open(tf, "w") as f:
                for k in ch:
                    f.write(json.dumps(hists[k], separators=(",", ":")) + "\n")
            cfg = ("SPECIFICATION TraceSpec\nCONSTANTS\n TInit <- %s\n TStep <- %s\n%s\nCHECK_DEADLOCK FALSE\n"
                   % (init, step, consts))
            rc, out, err, w = run(module, cfg, env={"TRACE": tf}, workers=workers, timeout=timeout)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if rc != 0 or "No error has been found" not in out:
            # an event for which no step of the specification can even be evaluated is not a behaviour either
            at = re.findall(r"^/\\ tr_h = (\d+)\n/\\ tr_i = (\d+)", out, re.M)
            if not at or "unexpected exception" not in out and "evaluating" not in out or len(bads) > 40:
                raise TlcError("validation %s rc %d\n%s" % (module, rc, out[-5000:] + err[-1500:]))
            h, i = map(int, at[-1])
            bads.append((ch[h - 1], i + 1, ["*:an event that no step of the specification can be about"]))
            wall += w
            if len(ch) > 1:
                if len(bads) < 4:
                    chunks.insert(0, ch[:h - 1] + ch[h:])
                else:       # found enough
                    bads += _printed(ch, out)
            continue
        g, dd = _stats(out)
        tot_g += g
        tot_d += dd
        wall += w
        left += len(re.findall(r'^"OUT"$', out, re.M))
        got = _printed(ch, out)
        if not got:
            want = sum(len(hists[k]["ev"]) + 1 for k in ch)
            if dd != want:
                raise TlcError("validation %s: %d states, expected %d\n%s" % (module, dd, want, out[-2000:]))
        bads += got
    return bads, dict(states=tot_d, transitions=tot_g, wall=round(wall, 1), left=left)


def _printed(ch, out):
    return [(ch[int(m.group(1)) - 1], int(m.group(2)), json.loads(_unq(m.group(3))))
            for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>', out)]
