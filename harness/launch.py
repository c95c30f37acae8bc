"""Launches drivers (single processes or mpirun) over programs; survives crashes and hangs of the code under test."""
import concurrent.futures as cf
import json, os, shutil, signal, subprocess, tempfile, time
from . import build as B

HERE = os.path.dirname(os.path.abspath(__file__))


def _pids_cpu(pgid):
    return 0


def _launch(driver, pf, out, n, first, src, part, stall, extra_env):
    env = B.env()
    env["PYTHONPATH"] = src + ":" + os.path.dirname(HERE) + ":" + HERE
    env["TMPDIR"] = out
    env["R4V_SCRATCH"] = out
    if part is not None:
        env["R4V_PART"] = str(part)
    env.update(extra_env or {})
    cmd = [B.PY, os.path.join(HERE, driver), pf, out, str(first)]
    if n > 1:
        cmd = ["mpirun.openmpi", "--oversubscribe", "-n", str(n)] + cmd
    err = open(os.path.join(out, "err.%s" % (part if part is not None else "mpi")), "ab")
    p = subprocess.Popen(cmd, cwd=out, env=env, stdout=err, stderr=err, start_new_session=True)
    tag = str(part) if part is not None else "0"
    jf = os.path.join(out, "jour." + tag)
    last, lastt = -1, time.time()
    hang = False
    while True:
        try:
            p.wait(timeout=0.05)
            break
        except subprocess.TimeoutExpired:
            pass
        s = os.path.getsize(jf) if os.path.exists(jf) else 0
        if s != last:
            last, lastt = s, time.time()
        elif time.time() - lastt > stall:
            hang = True
            break
    try:
        os.killpg(p.pid, signal.SIGTERM if hang and n > 1 else signal.SIGKILL)
    except ProcessLookupError:
        pass
    if hang:
        try:
            p.wait(timeout=5)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
    err.close()
    return p.returncode, hang


def _journal(out, tag):
    """index of the program that was running, or None if finished"""
    cur, end = None, False
    try:
        with open(os.path.join(out, "jour." + tag)) as f:
            for l in f:
                if l.startswith("B "):
                    cur, end = int(l[2:]), False
                elif l.startswith("E"):
                    end = True
    except OSError:
        pass
    return cur, end


def _run_set(driver, progs, n, src, part, stall, max_fail, extra_env, any_rc=False):
    """Run progs with n ranks; -> list over progs of list over ranks of record (or None), failures"""
    out = tempfile.mkdtemp(prefix="drv.", dir=B.cache_root())
    try:
        pf = os.path.join(out, "programs")
        with open(pf, "w") as f:
            for p in progs:
                f.write(json.dumps(p, separators=(",", ":")) + "\n")
        tags = [str(part)] if part is not None else [str(r) for r in range(n)]
        first, fails = 0, {}
        while first < len(progs):
            for t in tags:      # journals of earlier launches would mislead
                try:
                    os.unlink(os.path.join(out, "jour." + t))
                except OSError:
                    pass
            rc, hang = _launch(driver, pf, out, n, first, src, part, stall, extra_env)
            js = [_journal(out, t) for t in tags]
            if all(e for _, e in js) and (any_rc or (rc == 0 and not hang)):
                break
            started = [c for c, e in js if c is not None]
            if not started:
                with open(os.path.join(out, "err.%s" % (part if part is not None else "mpi")), errors="replace") as f:
                    msg = f.read()[-1500:]
                fails[first] = "the program cannot start: " + msg.strip().splitlines()[-1][:200] if msg.strip() else "cannot start"
                break
            open_ = [c for c, e in js if not e]
            bad = min(c if c is not None else first for c in open_) if open_ else None
            if bad is None or None in open_:
                # every program done, yet a bad exit (crash at interpreter exit)
                if rc != 0 and not hang:
                    fails[max(started)] = "exit status %s after the last program" % rc
                break
            with open(os.path.join(out, "err.%s" % (part if part is not None else "mpi")), errors="replace") as f:
                msg = f.read()[-4000:]
            why = "hang" if hang else "process died (%s)" % rc
            fails[bad] = why
            if len(fails) >= max_fail:
                break
            first = bad + 1
        res = [[None] * len(tags) for _ in progs]
        for k, t in enumerate(tags):
            try:
                with open(os.path.join(out, "out." + t)) as f:
                    for l in f:
                        try:
                            d = json.loads(l)
                        except ValueError:
                            continue
                        res[d["h"]][k] = d
            except OSError:
                pass
        msg = ""
        if fails or any(r is not None and not r["ok"] for rr in res for r in rr):
            try:
                with open(os.path.join(out, "err.%s" % (part if part is not None else "mpi")), errors="replace") as f:
                    msg = f.read()[-3000:]
            except OSError:
                pass
        return res, fails, msg
    finally:
        shutil.rmtree(out, ignore_errors=True)


def run(driver, progs, src, n=1, procs=8, stall=60, max_fail=3, extra_env=None, any_rc=False):
    """Run every program; -> list of dict(ranks=[record|None], fail=str|None, err=str) aligned with progs."""
    if not progs:
        return []
    if n == 1:
        k = min(procs, max(1, len(progs)))
        parts = [list(range(i, len(progs), k)) for i in range(k)]
    else:
        par = max(1, min(procs // n, 4))
        k = min(par, len(progs))
        parts = [list(range(i, len(progs), k)) for i in range(k)]
    res = [None] * len(progs)

    def one(i):
        idx = parts[i]
        r, fails, msg = _run_set(driver, [progs[j] for j in idx], n, src, i if n == 1 else None, stall, max_fail, extra_env, any_rc)
        return idx, r, fails, msg

    with cf.ThreadPoolExecutor(len(parts)) as ex:
        for idx, r, fails, msg in ex.map(one, range(len(parts))):
            for q, j in enumerate(idx):
                fail = fails.get(q)
                ranks = r[q]
                if fail is None or fail.startswith("process died"):
                    w = [x["why"] for x in ranks if x is not None and not x["ok"]]
                    if w:
                        fail = w[0]
                res[j] = dict(ranks=ranks, fail=fail, err=msg if fail else "")
    return res


def twins(driver, progs, src, envs, **kw):
    """Run every program once in each environment; the ranks of the runs come one after another."""
    rs = [run(driver, progs, src, extra_env=e, **kw) for e in envs]
    out = []
    for k in range(len(progs)):
        f = [r[k] for r in rs]
        out.append(dict(ranks=sum((x["ranks"] for x in f), []), fail=next((x["fail"] for x in f if x["fail"]), None),
                        err="".join(x["err"] for x in f)))
    return out
