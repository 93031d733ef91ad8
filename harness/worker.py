"""Runs yupp from a source tree on jobs read from stdin, one batch per line; one JSON answer per job.

batch:  [job, ...]                 the jobs of a batch share one process, forked for the batch; a batch of one is isolated
job:    {"id", "files": [[name, text, read_only, time], ...], "mkdirs": [...], "cmds": [[kind, arg, ...], ...], "timeout": s}
answer: {"id", "obs": [...]}  or  {"id", "hang": true}  or  {"id", "died": status}
Every job has its own empty scratch directory, which is its working directory.
Times are logical: a file changed by command number j (from 0) gets the time 1000 + j.
"""
import sys, os, json, shutil, signal, stat, subprocess, tempfile, time, re, select

REPO = os.environ.get("YUPP_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
EPOCH = 1000000000
REC = re.compile(r"^(?:\[yupp\]# )*\* (DEBUG|INFO|WARNING|ERROR|CRITICAL) \* ", re.M)
# an error with what it says up to its empty line, or a line of its own; a failed operation is two lines
WHOLE = re.compile(r"^((?:\[yupp\]# )*)\* (?:ERROR \* \n(?:.*?)\n\n|ERROR \* .*?\n|CRITICAL \* \n[^\n]*\n)", re.M | re.S)
LOC = re.compile(r'\n  (?:File|Macro) "')


def when(t):
    """logical times are a quarter of a second apart"""
    return EPOCH + t * 0.25


def text_of(p):
    with open(p, "rb") as h:
        b = h.read()
    try:
        s = b.decode("utf8")
        return s if not s.startswith("<BIN>") else s
    except UnicodeDecodeError:
        return "<BIN>" + b.hex()


def bytes_of(t):
    return bytes.fromhex(t[5:]) if t.startswith("<BIN>") else t.encode("utf8")


def tree(now=None):
    res = []
    for d, dirs, fs in os.walk("."):
        dirs.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            try:
                st = os.lstat(p)
                if now is not None and st.st_mtime > EPOCH + 10 ** 8:
                    os.utime(p, (when(now), when(now)))
                res.append([os.path.relpath(p, "."), text_of(p), (st.st_mode & 0o222) == 0])
            except OSError as e:
                res.append([os.path.relpath(p, "."), "<BIN>" + type(e).__name__, False])
    return res


def put(name, text, ro=False, t=None):
    d = os.path.dirname(name)
    if d:
        os.makedirs(d, exist_ok=True)
    if os.path.exists(name):
        os.chmod(name, 0o644)
    with open(name, "wb") as h:
        h.write(bytes_of(text))
    if ro:
        os.chmod(name, 0o400)
    if t is not None:
        os.utime(name, (when(t), when(t)))


def records(out):
    """log records of an output: [(level, text)]"""
    m = list(REC.finditer(out))
    return [(a.group(1), out[a.end(): (m[k + 1].start() if k + 1 < len(m) else len(out))]) for k, a in enumerate(m)]


def option(args, names, default):
    v = default
    for k, a in enumerate(args):
        for n in names:
            if a == n and k + 1 < len(args):
                v = args[k + 1]
            elif a.startswith(n + "="):
                v = a[len(n) + 1:]
    return v


def map_of(name, text):
    """a map of an output, ok is False if it is not one"""
    m = {"n": name, "ok": False, "files": [], "browse": [], "offset": []}
    try:
        j = json.loads(text)
        ints = lambda q, n: [[int(x) for x in e] for e in q if len(e) == n]
        v = {"files": [str(x) for x in j["files"]], "browse": ints(j["browse"], 3), "offset": ints(j["offset"], 2)}
        ok = len(v["browse"]) == len(j["browse"]) and len(v["offset"]) == len(j["offset"]) and all(abs(x) < 10 ** 9 for q in v["browse"] + v["offset"] for x in q)
        return dict(m, ok=True, **v) if ok else m
    except (ValueError, KeyError, TypeError):
        return m


def main_process(entry, args, r):
    """the tool as a process of its own, started in one of its ways"""
    top = tempfile.mkdtemp(prefix="yum-", dir=os.environ.get("YUPP_TMP"))
    try:
        os.symlink(REPO, os.path.join(top, "yupp"))
        how, path = {"pp": (["-m", "pp"], REPO), "yup": (["-m", "pp.yup"], REPO), "pkg": (["-m", "yupp"], top),
                     "script": (["-c", "import sys; from yupp.__main__ import main; sys.exit(main())"], top)}[entry]
        p = subprocess.run([sys.executable] + how + list(args), env=dict(os.environ, PYTHONPATH=path, PYTHONHASHSEED=str(len(args))), timeout=60)
        if p.returncode == 2:
            r["exc"] = "SystemExit"
        elif p.returncode not in (0, 4, 8, 12, 16):
            r["exc"] = "status"
        return p.returncode
    finally:
        shutil.rmtree(top, ignore_errors=True)


TRACE = re.compile(r'^  File "([^"]*)", line (\d+)(.*)$', re.M)


def traceback_of(err):
    """a traceback, the files without their directories"""
    k = err.rfind("Traceback (most recent call last):")
    return TRACE.sub(lambda m: '  File "%s", line %s%s' % (os.path.basename(m[1]), m[2], m[3]), err[k:]) if k >= 0 else ""


def package():
    """the package yupp, which registers the encoding"""
    import importlib.util
    if "yupp" not in sys.modules:
        for n, m in list(sys.modules.items()):
            if n == "pp" or n.startswith("pp."):
                sys.modules["yupp." + n] = m
        spec = importlib.util.spec_from_file_location("yupp", os.path.join(REPO, "__init__.py"), submodule_search_locations=[REPO])
        m = importlib.util.module_from_spec(spec)
        sys.modules["yupp"] = m
        spec.loader.exec_module(m)


def codec(kind, args, r):
    """what a name stands for, or a source read in an encoding"""
    import codecs, io
    package()
    if kind == "lookup":
        try:
            i = codecs.lookup(args[0])
        except LookupError:
            return
        r["name"] = i.name
        if isinstance(i.encode("a")[0], bytes):
            q = [i.encode("a\xe9", "replace")[0].hex(), i.incrementalencoder("replace").encode("a\xe9", True).hex()]
            r["data"] = q[0] if q[0] == q[1] else str(q)
        return
    fn, enc, how = args
    sys.argv[0] = fn
    if how == "stream":
        with codecs.open(fn, encoding=enc) as h:
            r["data"] = h.read()
    elif how == "io":
        with io.open(fn, encoding=enc, newline="") as h:
            r["data"] = h.read()
    else:
        with open(fn, "rb") as h:
            b = h.read()
        if how == "whole":
            r["data"] = codecs.lookup(enc).decode(b)[0]
        else:
            # an interpreter goes on at the end of the line of the declaration
            at = n = 0
            for l in b.splitlines(True)[:2]:
                at, n = at + len(l), n + 1
                if re.match(rb"^[ \t\f]*#.*?coding[:=][ \t]*[-\w.]+", l):
                    break
            b = b[at - 1:]
            d = codecs.lookup(enc).incrementaldecoder()
            r["data"] = "".join([d.decode(b[k:k + 100]) for k in range(0, len(b), 100)] + [d.decode(b"", True)])
    from yupp.pylib import yutraceback
    f = yutraceback.substitution.files.get(os.path.realpath(fn))
    if f:
        r["name"], r["shrink"] = os.path.relpath(f[0], os.path.realpath(".")), f[1]


def python(fn, r):
    """a source run by the interpreter, which knows the encoding"""
    top = tempfile.mkdtemp(prefix="yup-", dir=os.environ.get("YUPP_TMP"))
    try:
        os.symlink(REPO, os.path.join(top, "yupp"))
        with open(os.path.join(top, "sitecustomize.py"), "w") as h:
            h.write("import yupp\n")
        p = subprocess.run([sys.executable, fn], env=dict(os.environ, PYTHONPATH=top), timeout=60, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
        r["rc"], r["data"] = p.returncode, p.stdout.decode("utf8", "replace")
        err = p.stderr.decode("utf8", "replace")
        r["rest"] = traceback_of(err)
        r["out"] = r["data"] + err
        r["ok"] = told(r["out"])
    finally:
        shutil.rmtree(top, ignore_errors=True)


def told(out):
    return "Error" in out or any(lv in ("ERROR", "CRITICAL") for lv, _ in records(out))


MODES = {"count": 1, "kill": 2, "tear": 3, "nospace": 4, "denied": 4, "io": 4}
ERRNO = {"nospace": 28, "denied": 13, "io": 5}
SHIM = None


def crashed(yup, mode, k, kind, args, r):
    """a command stopped at its k-th operation on files, or with that operation failing, in a process of its own"""
    import ctypes
    global SHIM
    SHIM = SHIM or ctypes.CDLL(os.environ["LD_PRELOAD"])
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            a = {"exc": "", "rc": 0}
            SHIM.yu_arm(MODES[mode], ctypes.c_long(int(k)), ERRNO.get(mode, 0))
            try:
                if kind == "cli":
                    rc = yup.cli(list(args))
                    a["rc"] = rc if isinstance(rc, int) else -1
                else:
                    q = yup.proc_file(args[0])
                    a["rc"] = 0 if q[0] else 4
            except SystemExit as e:
                a["exc"] = "SystemExit"
            except BaseException as e:
                a["exc"] = type(e).__name__
            a["n"] = [SHIM.yu_changes(), SHIM.yu_all()]
            SHIM.yu_arm(0, ctypes.c_long(0), 0)
            os.write(wr, json.dumps(a).encode())
            os._exit(0)
        finally:
            os._exit(1)
    os.close(wr)
    b = b""
    while True:
        x = os.read(rd, 65536)
        if not x:
            break
        b += x
    os.close(rd)
    _, st = os.waitpid(pid, 0)
    a = json.loads(b) if b else {"exc": "killed" if os.WIFSIGNALED(st) and os.WTERMSIG(st) == 9 else "died", "rc": -1, "n": [0, 0]}
    r.update(rc=a["rc"], exc=a["exc"], count=a["n"])


def run_cmds(yup, job, log):
    res = []
    for d in job.get("mkdirs", []):
        os.makedirs(d, exist_ok=True)
    for f in job.get("files", []):
        put(*f)
    for j, cmd in enumerate(job["cmds"]):
        kind, args = cmd[0], cmd[1:]
        now = 1000 + j
        r = {}
        res.append(r)
        if kind == "write":
            put(args[0], args[1], False, now)
            continue
        if kind == "rm":
            if os.path.exists(args[0]):
                os.chmod(args[0], 0o644)
                os.remove(args[0])
            continue
        if kind == "touch":
            if os.path.exists(args[0]):
                os.utime(args[0], (when(args[1]), when(args[1])))
            continue
        r.update({"rc": 0, "exc": "", "out": "", "tree": [], "lv": 1, "errs": 0, "locs": [], "cmp": False, "rest": "",
                  "ok": False, "name": "", "data": "", "shrink": 0, "maps": []})
        fd = os.open(log, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
        os.dup2(fd, 1)
        os.close(fd)
        fd = os.open(log + ".err", os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
        os.dup2(fd, 2)
        os.close(fd)
        inp = ""
        iscli = kind == "cli"
        if kind == "repl":
            inp, args = args[0], args[1:]
            iscli = True
        if kind == "main":
            entry, args = args[0], args[1:]
            iscli = True
        ifd = os.open(log + ".in", os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
        os.write(ifd, inp.encode("utf8"))
        os.lseek(ifd, 0, 0)
        os.dup2(ifd, 0)
        os.close(ifd)
        old = sys.stdin
        sys.stdin = open(0, "r", closefd=False)
        try:
            if kind == "main":
                r["rc"] = main_process(entry, args, r)
            elif kind in ("lookup", "codec"):
                codec(kind, args, r)
            elif kind == "python":
                python(args[0], r)
            elif kind == "crash":
                crashed(yup, args[0], args[1], args[2], args[3:], r)
            elif iscli:
                rc = yup.cli(list(args))
                r["rc"] = rc if isinstance(rc, int) else -1
            elif kind == "proc_file":
                q = yup.proc_file(args[0])
                r["ok"], r["name"] = bool(q[0]), str(q[1] or "")
            elif kind == "proc_stream":
                from io import StringIO
                try:
                    with open(args[0], "rb") as h:
                        text = h.read().decode("utf8")
                except (OSError, UnicodeError):
                    text = None  # nothing to give to it
                q = (False, "", "", 0) if text is None else yup.proc_stream(StringIO(text), args[0])
                r["ok"], r["data"], r["name"], r["shrink"] = bool(q[0]), str(q[1] or ""), str(q[2] or ""), q[3] if isinstance(q[3], int) else -1
            else:
                raise ValueError(kind)
        except SystemExit as e:
            r["exc"] = "SystemExit"
            r["rc"] = e.code if isinstance(e.code, int) else -1
        except BaseException as e:
            r["exc"] = type(e).__name__
            r["msg"] = str(e)[:300]
        finally:
            sys.stdin = old
        try:
            sys.stdout.flush()
            sys.stderr.flush()
        except Exception:
            pass
        if kind != "python":
            with open(log, "rb") as h:
                r["out"] = h.read().decode("utf8", "replace")
        if kind == "codec":
            with open(log + ".err", "rb") as h:
                r["out"] += h.read().decode("utf8", "replace")
            r["ok"] = told(r["out"])
        rec = records(r["out"])
        r["errs"] = sum(1 for lv, _ in rec if lv in ("ERROR", "CRITICAL"))
        for lv, t in rec:
            m = LOC.search(t) if lv == "ERROR" else None
            if m and not t.startswith("unable to translate"):
                r["locs"].append(t[m.start():].split("\n\n")[0].rstrip("\n"))
        if iscli:
            lv, tb = option(args, ["-l", "--log"], "1"), option(args, ["-b", "--traceback"], "1")
            r["lv"] = int(lv) if lv.isdigit() and tb == "0" else 9
            r["cmp"] = ("-q" in args or "--quiet" in args) and all(lv in ("ERROR", "CRITICAL") for lv, _ in rec) and option(args, ["-t", "--trace"], "0") == "0"
        else:
            r["lv"] = 9
        if kind != "python":
            r["rest"] = WHOLE.sub(lambda m: m[1], r["out"]) if r["cmp"] else ""
        if not r["cmp"] and len(r["out"]) > 4000 and not job.get("keep"):
            r["out"] = r["out"][:4000]
        r["tree"] = tree(now)
        r["maps"] = [map_of(n, t) for n, t, _ in r["tree"] if n.endswith(".json")]
    return res


WARM = ["($set f \\x.\\y:2.[a ($x) ($y)])($f 1)($f 1 3)\n($range 3 \\i.[($i),])\n", "($macro m (a b) ($a)+($b))($m 1 2){1+2*3}($ 'x' ? 1 | 'y')\n",
        "($import stdlib)\n($set l (1 2 3))($for l \\p.] ($p)\n [ )\n", "text ($! c) ($add 1 {2+3})($upper (`q))($let z 5 [($z)])($undef 1)\n"]


def warm(yup, base):
    d = os.path.join(base, "warm")
    os.mkdir(d)
    os.chdir(d)
    log = os.path.join(base, "warmlog")
    for k in range(40):
        for n, t in enumerate(WARM):
            run_cmds(yup, {"files": [["w%d.c.yu" % n, t]], "cmds": [["cli", "-q", "w%d.c.yu" % n]]}, log)
    os.chdir("/")
    shutil.rmtree(d, ignore_errors=True)


def child(yup, base, jobs, path):
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    with open(path, "a", encoding="utf8") as h:
        for job in jobs:
            scratch = os.path.join(base, "j%d" % job["id"])
            os.mkdir(scratch)
            os.chdir(scratch)
            a = {"id": job["id"], "obs": run_cmds(yup, job, os.path.join(base, "log"))}
            os.chdir(base)
            h.write(json.dumps(a) + "\n")
            h.flush()
            shutil.rmtree(scratch, ignore_errors=True)


def main():
    import pp.yup as yup
    out = os.fdopen(os.dup(1), "w", encoding="utf8")
    src = os.fdopen(os.dup(0), "r", encoding="utf8")
    base = tempfile.mkdtemp(prefix="yuw-", dir=os.environ.get("YUPP_TMP"))
    try:
        if os.environ.get("YUPP_WARM") == "1":
            warm(yup, base)
        out.write("ready\n")
        out.flush()
        for line in src:
            jobs = json.loads(line)
            path = os.path.join(base, "answers")
            while jobs:
                if os.path.exists(path):
                    os.remove(path)
                open(path, "w").close()
                pid = os.fork()
                if pid == 0:
                    try:
                        child(yup, base, jobs, path)
                        os._exit(0)
                    finally:
                        os._exit(1)
                size, last = 0, time.time()
                status = None
                nap = 0.0005
                limit = max(j.get("timeout", 20) for j in jobs)
                while True:
                    p, st = os.waitpid(pid, os.WNOHANG)
                    if p:
                        status = st
                        break
                    n = os.path.getsize(path)
                    if n != size:
                        size, last = n, time.time()
                    elif time.time() - last > limit:
                        os.kill(pid, signal.SIGKILL)
                        os.waitpid(pid, 0)
                        break
                    time.sleep(nap)
                    nap = min(nap * 1.5, 0.01)
                done = 0
                with open(path, encoding="utf8") as h:
                    for l in h:
                        if l.endswith("\n"):
                            out.write(l)
                            done += 1
                if done < len(jobs):
                    j = jobs[done]
                    out.write(json.dumps({"id": j["id"], "hang": True} if status is None else {"id": j["id"], "died": status}) + "\n")
                    done += 1
                out.flush()
                jobs = jobs[done:]
                for d in os.listdir(base):
                    if d.startswith("j"):
                        shutil.rmtree(os.path.join(base, d), ignore_errors=True)
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    main()
