"""Launcher of simulated scripts: a warm interpreter, forked once per run, with the simulated system-call layer loaded.

Reads one JSON request per line on fd 0 and answers with one JSON line on fd 3."""
import argparse, atexit, collections, contextlib, ctypes, dataclasses, errno, filecmp, fcntl, fnmatch, functools, glob, graphlib, hashlib, io, itertools, json, logging, os, pathlib, platform, random, re, resource, shlex, shutil, signal, stat, string, subprocess, sys, tempfile, textwrap, time, traceback, typing, warnings  # noqa: E401,F401 (warm)
import encodings.utf_8, encodings.latin_1, encodings.ascii  # noqa: E401,F401
import errno as _e  # noqa: F401

subprocess._USE_VFORK = False
subprocess._USE_POSIX_SPAWN = False
LIB = ctypes.CDLL(None)
CODES = {}
platform.system()


def code_of(path, argv0):
    if path not in CODES:
        with open(path, "rb") as f:
            CODES[path] = compile(f.read(), argv0, "exec")
    return CODES[path]




def warm():
    p = argparse.ArgumentParser(description="x")
    p.add_argument("-a", "--aa", type=str, choices=["x", "y"], default="x", help="h")
    p.add_argument("-b", "--bb", action="store_true", help="h")
    sp = p.add_subparsers(dest="c")
    q = sp.add_parser("agg", help="h")
    q.add_argument("h", nargs="+", help="h")
    q.add_argument("o", help="h")
    q.add_argument("--ip", nargs="*", default=[], help="h")
    p.parse_known_args(["-a", "x", "agg", "1", "2", "3", "--ip", "z", "-DX=1", "--qq"])
    for f in (p, q):
        f.format_usage()
        f.format_help()
    with contextlib.suppress(BaseException), contextlib.redirect_stderr(io.StringIO()):
        p.parse_args(["--zz"])
    try:
        try:
            open("/nonexistent/x")
        except OSError as e:
            raise RuntimeError("x") from e
    except RuntimeError:
        traceback.format_exc()
    for x in (r"\s*#\s*include\s*\"([^\"]+)\"", r"#pragma\s+once", r"// ===== Start of (.+) =====", r"// ===== End of (.+) ====="):
        re.match(x, "y")
        re.match(x, "y", re.IGNORECASE)
    shlex.quote("a b")
    d = tempfile.mkdtemp()
    shutil.rmtree(d)
    subprocess.call("true", shell=True)


warm()
import gc  # noqa: E402
gc.collect()
gc.freeze()

req_in = os.fdopen(os.dup(0), "r")
resp = os.fdopen(3, "w")
os.close(0)
os.open("/dev/null", os.O_RDONLY)
NULL = 0
for line in req_in:
    q = json.loads(line)
    code = code_of(q["code"], q["argv"][0]) if q["kind"] == "py" else None
    pid = os.fork()
    if pid == 0:
        break
    hang = False

    def alarm(*a):
        global hang
        hang = True
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            os.kill(pid, signal.SIGKILL)
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(q.get("wall", 100))
    _, st = os.waitpid(pid, 0)
    signal.alarm(0)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    code_ = os.waitstatus_to_exitcode(st)
    resp.write(json.dumps({"status": code_, "hang": hang or code_ in (-signal.SIGXCPU,)}) + "\n")
    resp.flush()
else:
    os._exit(0)

# ---- the simulated process ----
os.setpgid(0, 0)
resp.close()
req_in.close()
resource.setrlimit(resource.RLIMIT_CPU, (q.get("cpu", 8), q.get("cpu", 8) + 2))
resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 24, 1 << 24))
resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
out = os.open(q["out"], os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
err = os.open(q["err"], os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
log = os.open(q["log"], os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
os.dup2(out, 1)
os.dup2(err, 2)
os.dup2(log, 250, inheritable=True)
for f in (out, err, log):
    os.close(f)
os.environ.clear()
os.environ.update(q["env"])
os.umask(0o022)
signal.signal(signal.SIGINT, signal.default_int_handler)
if q["kind"] == "cmd":
    os.chdir(q["root"] + q["cwd"])
    signal.signal(signal.SIGPIPE, signal.SIG_DFL)
    os.execve(q["exe"], q["argv"], dict(q["env"]))
random.seed(q["seed"])
os.chdir(q["root"] + q["cwd"])
sys.argv = q["argv"]
sys.path[0:0] = [q.get("quiet", "/sim/scripts")]
sys.flags  # noqa: B018
m = type(sys)("__main__")
m.__dict__.update(__file__=q["argv"][0], __builtins__=__builtins__)
sys.modules["__main__"] = m
LIB.simio_start(q["root"].encode(), q.get("quiet", "/sim/scripts").encode(), 250, q["faults"].encode(), ctypes.c_ulong(q["seed"]))
# what the interpreter does around a script and at exit, without tearing down the warm modules
rc, killed = 0, False
try:
    exec(code, m.__dict__)
except SystemExit as e:
    rc = e.code
    if rc is None:
        rc = 0
    elif not isinstance(rc, int):
        print(rc, file=sys.stderr)
        rc = 1
    del e
except KeyboardInterrupt:
    sys.excepthook(*sys.exc_info())
    killed = True
except BaseException:
    sys.excepthook(*sys.exc_info())
    rc = 1
for step in (atexit._run_exitfuncs, sys.stdout.flush, sys.stderr.flush, m.__dict__.clear, gc.collect, sys.stdout.flush):
    try:
        step()
    except BaseException:
        rc = 120
if killed:
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    os.kill(os.getpid(), signal.SIGINT)
os._exit(rc & 0xff)
