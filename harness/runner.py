"""Drives worker processes (the real yupp) over a list of jobs."""
import json, os, subprocess, threading, sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("YUPP_REPO", "/repo")


def env(extra=None):
    e = dict(os.environ)
    e.update(LC_ALL="C.UTF-8", LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", YUPP_REPO=REPO)
    e.pop("PYTHONPATH", None)
    e.update(extra or {})
    return e


class WorkerError(Exception):
    pass


def run_jobs(jobs, workers=8, tmp=None, timeout=20, batch=25, warm=True):
    """Answers in the order of the jobs. A job with "iso" has a process of its own."""
    for i, j in enumerate(jobs):
        j["id"] = i
        j.setdefault("timeout", timeout)
    batches = [[j] for j in jobs if j.get("iso") or batch == 1]
    rest = [j for j in jobs if not (j.get("iso") or batch == 1)]
    batches += [rest[k:k + batch] for k in range(0, len(rest), batch)]
    res = [None] * len(jobs)
    it = iter(batches)
    lock = threading.Lock()
    errs = []
    hangs = [0]
    nw = min(workers, max(1, len(batches)))
    warm = warm and len(jobs) > 200

    shim = any(cmd[0] == "crash" for j in jobs for cmd in j["cmds"])
    if shim:
        lib = os.path.join(tmp, "shim.so")
        if not os.path.exists(lib):
            subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", lib, os.path.join(HERE, "shim", "shim.c"), "-ldl"], check=True, capture_output=True)

    def drive():
        e = {"YUPP_WARM": "1" if warm else "0"}
        if shim:
            e["LD_PRELOAD"] = lib
        if tmp:
            e["YUPP_TMP"] = tmp
        p = subprocess.Popen([PY, os.path.join(HERE, "worker.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, env=env(e), cwd="/")
        killer = threading.Timer(60, p.kill)
        killer.start()
        try:
            line = p.stdout.readline()
            killer.cancel()
            if line != b"ready\n":
                raise WorkerError("yupp cannot be imported or run: " + p.stderr.read().decode("utf8", "replace")[-1500:])
            while True:
                with lock:
                    b = next(it, None)
                if b is None:
                    break
                if hangs[0] > 16:
                    for j in b:
                        j["timeout"] = min(j["timeout"], 3)
                p.stdin.write((json.dumps(b) + "\n").encode())
                p.stdin.flush()
                for _ in b:
                    line = p.stdout.readline()
                    if not line:
                        raise WorkerError("worker died")
                    a = json.loads(line)
                    res[a["id"]] = a
                    hangs[0] += bool(a.get("hang"))
        finally:
            killer.cancel()
            try:
                p.stdin.close()
            except OSError:
                pass
            p.wait()

    def safe():
        try:
            drive()
        except Exception as e:
            errs.append(e)

    ths = [threading.Thread(target=safe) for _ in range(nw)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if errs:
        raise errs[0]
    return res
