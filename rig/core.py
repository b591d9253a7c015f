"""Runs rsh in scratch directories, collects what the probes saw, and spreads cases over worker processes."""
import collections, ctypes, json, multiprocessing, multiprocessing.connection, os, random, select, shutil, signal, stat, subprocess, sys, tempfile, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

VERIF = build.VERIF
EVID = os.path.join(VERIF, "evidence")
NOBODY = 65534
NAMES = ("pr pa pb pc pd pe pf pg rc die put pute prt pv pcwd gen cat xor sink cnt head wfd rfd slp meet stp hold pfd sync lnk sln del ren mkd slf "
         "bare_é x.y-z for_ @at +plus ,c %p ^h ~t /").replace("/", "").split()
libc = ctypes.CDLL(None, use_errno=True)


class Inconclusive(Exception):
    """the case could not be judged (harness trouble, not a verdict)"""


def kids_of(pid):
    out = []
    try:
        for t in os.listdir(f"/proc/{pid}/task"):
            with open(f"/proc/{pid}/task/{t}/children") as f:
                out += [int(x) for x in f.read().split()]
    except (FileNotFoundError, ProcessLookupError, PermissionError):
        pass
    return out


def descendants(pid):
    seen, todo = [], [pid]
    while todo:
        for k in kids_of(todo.pop()):
            if k not in seen:
                seen.append(k)
                todo.append(k)
    return seen


def pstat(pid):
    """(state, ppid, pgrp) of a process, or None"""
    try:
        with open(f"/proc/{pid}/stat") as f:
            s = f.read()
        f = s[s.rindex(")") + 2:].split()
        return f[0], int(f[1]), int(f[2])
    except (FileNotFoundError, ProcessLookupError):
        return None


def reap_all(deadline=5.0):
    """ends every descendant of this (subreaper) process; returns how many there were"""
    n = 0
    end = time.monotonic() + deadline
    while True:
        ds = descendants(os.getpid())
        if not ds:
            return n
        for d in ds:
            n += 1
            try:
                os.kill(d, signal.SIGKILL)
                os.kill(d, signal.SIGCONT)
            except (ProcessLookupError, PermissionError):
                pass
        t = time.monotonic()
        while time.monotonic() - t < 0.5:
            try:
                p, _ = os.waitpid(-1, os.WNOHANG)
            except ChildProcessError:
                return n
            if p == 0:
                if not descendants(os.getpid()):
                    break
                time.sleep(0.001)
        if time.monotonic() > end:
            return n


class Ctx:
    """what a worker gives to a check: the binaries and a scratch directory of its own"""

    def __init__(self, bindir, scratch, tier, seed):
        self.bindir, self.scratch, self.tier, self.seed = bindir, scratch, tier, seed
        self.rsh = os.path.join(bindir, "rsh")
        self.shim = os.path.join(bindir, "shim.so")
        self.n = 0
        self.extra = {}                # variables (settings of the shim, of a sanitizer) for every shell that is started
        self.stats = collections.Counter()
        self.probe = os.path.join(scratch, "probe")
        shutil.copy2(os.path.join(bindir, "probe"), self.probe)

    def box(self, names=NAMES):
        self.n += 1
        return Box(self, os.path.join(self.scratch, f"c{self.n}"), names)


class Box:
    """the scratch directory of a case: home/.plog home/bin/* home/ctl home/w (directory the shell starts in)"""

    def __init__(self, ctx, home, names):
        self.ctx, self.home = ctx, home
        os.mkdir(home)
        for d in ("bin", "ctl", "w"):
            os.mkdir(f"{home}/{d}")
        self.bin, self.w, self.ctl, self.log = f"{home}/bin", f"{home}/w", f"{home}/ctl", f"{home}/.plog"
        open(self.log, "w").close()
        for n in names:
            os.link(ctx.probe, f"{self.bin}/{n}")
        self.procs = []

    def link(self, path):
        """puts a probe at the given path (relative to home)"""
        p = f"{self.home}/{path}"
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.lexists(p):
            os.link(self.ctx.probe, p)

    def env(self, **kw):
        e = {"PATH": self.bin, "HOME": self.w}
        e.update(kw)
        return {k: v for k, v in e.items() if v is not None}

    def events(self):
        return parse_log(self.log)

    def control(self, name, text):
        tmp = f"{self.ctl}/.{name}.tmp"
        with open(tmp, "w") as f:
            f.write(text)
        os.rename(tmp, f"{self.ctl}/{name}")

    def close(self):
        reap_all()
        for root, dirs, _ in os.walk(self.home):
            for d in dirs:
                try:
                    if not os.path.islink(f"{root}/{d}"):
                        os.chmod(f"{root}/{d}", 0o755)
                except OSError:
                    pass
        shutil.rmtree(self.home, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def parse_log(path):
    out = []
    for _ in range(100):
        with open(path, "rb") as f:
            data = f.read()
        if not data or data.endswith(b"\n"):
            break
        time.sleep(.01)            # somebody is in the middle of writing a line
    for l in data[:data.rfind(b"\n") + 1].split(b"\n"):
        if l:
            try:
                out.append(json.loads(l.decode("latin-1")))
            except ValueError:
                raise Inconclusive("a line of the log is incomplete")
    return out


def b2s(s):
    """the strings of the log are bytes in disguise"""
    return s.encode("latin-1").decode("utf-8", "surrogateescape")


def s2b(s):
    """a string the way it is in the log"""
    return s.encode("utf-8", "surrogateescape").decode("latin-1")


class Result:
    pass


def wait_pid(proc, timeout):
    """True if the process has ended within the time"""
    if proc.returncode is not None:
        return True
    try:
        fd = os.pidfd_open(proc.pid)
    except ProcessLookupError:
        return True
    try:
        p = select.poll()
        p.register(fd, select.POLLIN)
        return bool(p.poll(timeout * 1000))
    finally:
        os.close(fd)


TIMEOUT = 25


def instrumented(box, env, preload=None):
    env = dict(env, **(preload or {}), **box.ctx.extra)
    if any(k.startswith("SHIM_") for k in env):
        env["LD_PRELOAD"] = box.ctx.shim
    return env


def run(box, argv, stdin=b"", env=None, cwd=None, timeout=None, exe=None, preload=None, argv0=None, fds=()):
    """Runs rsh to its end. stdout and stderr go to files home/out and home/err, or to the descriptors in fds."""
    timeout = timeout or TIMEOUT
    env = box.env() if env is None else dict(env)
    env = instrumented(box, env, preload)
    out = open(f"{box.home}/out", "ab")
    err = open(f"{box.home}/err", "ab")
    rfd = wfd = None
    if stdin is None:
        rfd = os.open("/dev/null", os.O_RDONLY)
    else:
        rfd, wfd = os.pipe()
        if len(stdin) > 60000:
            libc.fcntl(wfd, 1031, 1 << 20)
        if len(stdin) > 1000000:
            raise Inconclusive("input too long")
    r = Result()
    r.stdin = os.readlink(f"/proc/self/fd/{rfd}")
    try:
        p = subprocess.Popen([argv0 or "rsh"] + list(argv), executable=exe or box.ctx.rsh, stdin=rfd,
                             stdout=dict(fds).get(1, out), stderr=dict(fds).get(2, err), env=env, cwd=cwd or box.w, start_new_session=True)
    finally:
        os.close(rfd)
        out.close()
        err.close()
    r.pid = p.pid
    if wfd is not None:
        try:
            os.write(wfd, stdin)
        except BrokenPipeError:
            pass
        os.close(wfd)
    r.hang = not wait_pid(p, timeout)
    if r.hang:
        r.where = hang_info(p.pid)
        p.kill()
    p.wait()
    r.rc = p.returncode
    with open(f"{box.home}/out", "rb") as f:
        r.out = f.read()
    with open(f"{box.home}/err", "rb") as f:
        r.err = f.read()
    r.events = box.events()
    r.panic = b"panicked at" in r.err or b"RUST_BACKTRACE" in r.err or b"AddressSanitizer" in r.err
    return r


def hang_info(pid):
    s = ""
    for d in [pid] + descendants(pid):
        try:
            with open(f"/proc/{d}/wchan") as f:
                w = f.read()
            with open(f"/proc/{d}/cmdline") as f:
                c = f.read().replace("\0", " ")[:80]
            s += f"[{d} {pstat(d)} {w} {c}] "
        except OSError:
            pass
    return s


def files_of(d, skip=("history.txt",)):
    """path -> contents of the files below a directory"""
    out = {}
    for root, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            rel = os.path.relpath(p, d)
            if f in skip:
                continue
            st = os.lstat(p)
            if stat.S_ISREG(st.st_mode):
                try:
                    with open(p, "rb") as fh:
                        out[rel] = fh.read()
                except PermissionError:
                    try:
                        os.chmod(p, st.st_mode | 0o400)
                        with open(p, "rb") as fh:
                            out[rel] = fh.read()
                        os.chmod(p, st.st_mode & 0o7777)
                    except PermissionError:
                        out[rel] = None
            elif stat.S_ISLNK(st.st_mode):
                out[rel] = os.readlink(p)
    return out


class Outcome:
    def __init__(self, key="", nontrivial=True, sample=None):
        self.key, self.nontrivial, self.sample = key, nontrivial, sample
        self.violations = []      # (what, details)
        self.inconclusive = None

    def fail(self, what, **details):
        self.violations.append((what, details))


def _seeded(check, seed, i):
    return random.Random(f"{seed}/{check.id}/{i}")


def _one(check, ctx, i):
    rng = _seeded(check, ctx.seed, i)
    try:
        return check.case(rng, i, ctx)
    except Inconclusive as e:
        o = Outcome(nontrivial=False)
        o.inconclusive = str(e)
        return o


def _worker(check, bindir, scratch, tier, seed, todo, deadline, pipe):
    try:
        if os.getuid() == 0:
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
        libc.prctl(36, 1, 0, 0, 0)
        os.umask(0o022)
        os.chdir(scratch)
        ctx = Ctx(bindir, scratch, tier, seed)
        ctx.fails = 0
        for i in todo:
            if time.time() > deadline or ctx.fails >= 2:
                break
            try:
                o = _one(check, ctx, i)
                if o.violations:
                    # once more: what does not happen again is not reported as a violation
                    again = 0
                    for k in range(check.retries):
                        o2 = _one(check, ctx, i)
                        if o2.violations:
                            again = k + 1
                            o = o2
                            break
                    if again:
                        ctx.fails += 1
                    else:
                        o.inconclusive = f"not reproduced: {o.violations[0]}" if os.environ.get("RIG_DEBUG") else f"not reproduced: {o.violations[0][0]}"
                        o.violations = []
                pipe.send(("case", i, o.key, o.nontrivial, o.sample, o.violations, o.inconclusive))
            except Exception:
                pipe.send(("error", i, traceback.format_exc()))
                reap_all()
        pipe.send(("stats", dict(ctx.stats)))
    except BaseException:
        try:
            pipe.send(("error", -1, traceback.format_exc()))
        except OSError:
            pass
    finally:
        pipe.close()
        os._exit(0)


class Check:
    id = "C00"
    level = "exploration"
    technique = "runtime monitoring: probe event logs of generated programs against a reference model"
    note = ("Every execution of the workload is judged completely (no sampling of the observations) against an independent reference model of the specified language; "
            "the workload is random, so nothing is claimed about programs outside what was generated. Trusts the probe, the model and /proc.")
    quick_n, thorough_n = 400, 8000
    quick_s, thorough_s = 100, 1500
    workers = 8
    retries = 3
    asan = False
    assumptions = ["the probe program and the Linux kernel report argv, environment, descriptors and signal state truthfully",
                   "file system, fork and exec work as usual in the scratch directory"]

    def case(self, rng, i, ctx):
        raise NotImplementedError

    def rule(self):
        return ""

    def total(self, tier):
        return self.quick_n if tier == "quick" else self.thorough_n

    def finish(self, agg):
        """may add violations or facts that only the whole run shows"""


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:") and f"property={pid} " in l + " ":
                out.append(l)
    return out


def execute(check, tier, seed, only=None, n=None, verbose=False):
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    evfile = os.path.join(EVID, f"{check.id}.json")
    top = tempfile.mkdtemp(prefix="rshv-", dir="/tmp")
    os.chmod(top, 0o755)
    rc = 0
    try:
        try:
            build.build(f"{top}/bin", asan=check.asan and (tier == "thorough" or check.asan == "always"))
        except build.BuildError as e:
            print("BUILD-FAILED", e)
            return 2
        tb = time.time() - t0
        os.chmod(f"{top}/bin", 0o755)
        total = n or check.total(tier)
        todo = list(range(total)) if only is None else list(only)
        deadline = time.time() + (check.quick_s if tier == "quick" else check.thorough_s)
        W = min(check.workers, len(todo))
        pipes, procs = [], []
        for w in range(W):
            sc = f"{top}/w{w}"
            os.mkdir(sc, 0o755)
            if os.getuid() == 0:
                os.chown(sc, NOBODY, NOBODY)
            a, b = multiprocessing.Pipe(False)
            pid = os.fork()
            if pid == 0:
                for x in pipes:
                    x.close()
                a.close()
                os.setsid()
                _worker(check, f"{top}/bin", sc, tier, seed, todo[w::W], deadline, b)
            b.close()
            pipes.append(a)
            procs.append(pid)
        agg = {"n": 0, "keys": set(), "samples": [], "viol": [], "inc": [], "err": [], "stats": collections.Counter()}
        left = set(pipes)
        hard = deadline + 200
        while left:
            ready = multiprocessing.connection.wait(list(left), timeout=5)
            if time.time() > hard:
                agg["err"].append("workers overdue")
                break
            for p in ready:
                try:
                    m = p.recv()
                except EOFError:
                    left.discard(p)
                    continue
                if m[0] == "stats":
                    agg["stats"].update(m[1])
                elif m[0] == "error":
                    agg["err"].append(m[2])
                else:
                    _, i, key, nontriv, sample, viol, inc = m
                    agg["n"] += 1
                    if inc:
                        agg["inc"].append((i, inc))
                    elif nontriv:
                        agg["keys"].add(key)
                        if sample and len(agg["samples"]) < 4:
                            agg["samples"].append(sample)
                    for v in viol:
                        agg["viol"].append((i, v))
                    if verbose:
                        print(i, key, viol, inc)
        for pid in procs:
            try:
                os.killpg(pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            os.waitpid(pid, 0)
        check.finish(agg)
        rc = report(check, tier, seed, agg, evfile, t0, tb)
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return rc


def report(check, tier, seed, agg, evfile, t0, tb):
    known = known_findings(check.id)
    viol, seen = [], []
    for i, (what, details) in agg["viol"]:
        hit = [k for k in known if k.split(" key=", 1)[-1].split(" ")[0] == details.get("key", "\0")]
        if hit:
            if hit[0] not in seen:
                seen.append(hit[0])
                print("KNOWN-FINDING: " + hit[0].split(" ", 1)[1])
        else:
            viol.append((i, what, details))
    ev = {
        "property": check.id, "tier": tier, "seed": seed, "level": check.level,
        "coverage": {"evaluations": agg["n"], "distinct_nontrivial": len(agg["keys"]), "rule": check.rule(),
                     "samples": agg["samples"] or ["(none)"], "observed": dict(sorted(agg["stats"].items())),
                     "inconclusive": len(agg["inc"]), "inconclusive_examples": [f"case {i}: {m}" for i, m in agg["inc"][:5]],
                     "harness_errors": len(agg["err"])},
        "assumptions": check.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    ev["coverage"].update(agg.get("extra", {}))
    tmp = evfile + f".{os.getpid()}"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.rename(tmp, evfile)
    print(f"{check.id} tier={tier} seed={seed}: {agg['n']} cases, {len(agg['keys'])} distinct, {len(agg['inc'])} inconclusive, "
          f"{len(agg['err'])} errors, build {tb:.1f}s, total {time.time() - t0:.1f}s; observed {dict(agg['stats'])}")
    for i, m in agg["inc"][:3]:
        print(f"  inconclusive case {i}: {m}")
    if viol:
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        i, what, details = viol[0]
        path = os.path.join(d, f"{check.id}.json")
        with open(path, "w") as f:
            json.dump({"property": check.id, "tier": tier, "seed": seed, "case": i, "what": what, "details": details,
                       "replay": f"python3 {VERIF}/rig/run.py --replay {path}",
                       "others": [(j, w) for j, w, _ in viol[1:20]]}, f, indent=1, default=repr)
        print(f"  {what}")
        for k, v in details.items():
            print(f"    {k}: {v}"[:3000])
        print(f"VIOLATION property={check.id} replay={path}")
        return 1
    if agg["err"]:
        print("HARNESS ERROR", agg["err"][0])
        return 2
    if not agg["n"] or not agg["keys"] or len(agg["inc"]) > agg["n"] / 2:
        print("NOTHING OBSERVED (the check could not judge anything)")
        return 2
    return 0
