"""Interactive sessions fed step by step: the job table and the reaping of children (C19, C20).

The histories are random, but every step is only judged once the processes concerned are known (from /proc and the
log) to have reached the state the step puts them into, so no verdict depends on how fast anything is.
"""
import collections, fcntl, os, re, signal, subprocess, termios, time
import core
from core import Check, Inconclusive, Outcome, b2s, kids_of, pstat

SLOW = 20          # seconds after which something that has to happen did not
LISTED = re.compile(rb"\[(\d+)\] ?(?:\+ )?(Running|Stopped|Waiting|Done)\b ?(.*)")
STARTED = re.compile(rb"\[(\d+)\] \((\d+)\)")
ASYNC = re.compile(rb"Job \[\d+\] \(\d+\) (?:terminated|stopped) by signal\n?")


class Bad(Exception):
    """the shell did something wrong"""


class Proc:
    def __init__(self, tag, kind, code=0):
        self.tag, self.kind, self.code = tag, kind, code
        self.pid = None
        self.state = "run"         # run stop dead
        self.result = None         # exit status, 128 + signal
        self.pending = None        # signal that ends it once it is continued, "eof" for a sink whose input has ended

    def text(self):
        return f"hold {self.tag}" if self.kind == "hold" else f"sink {self.code} {self.tag}"

    def __repr__(self):
        return f"{self.tag}:{self.pid}:{self.state}"


class Job:
    def __init__(self, procs):
        self.procs, self.n = procs, None
        for p in procs:
            p.job = self
        self.own = False           # whether its processes have groups of their own (others are in an orphaned one, where only SIGSTOP stops)

    def line(self):
        return " | ".join(p.text() for p in self.procs)

    @property
    def alive(self):
        return any(p.state != "dead" for p in self.procs)

    @property
    def running(self):
        return any(p.state == "run" for p in self.procs)

    def eof(self):
        """what reads from something that has ended ends as well"""
        for a, b in zip(self.procs, self.procs[1:]):
            if b.kind == "sink" and a.state == "dead" and b.state != "dead":
                if b.state == "run":
                    b.state, b.result = "dead", b.code
                elif b.pending is None:
                    b.pending = "eof"

    def resumed(self):
        for p in self.procs:
            if p.state == "stop":
                p.state = "run"
                if isinstance(p.pending, int):
                    p.state, p.result = "dead", 128 + p.pending
        self.eof()

    def __repr__(self):
        return f"[{self.n}] {self.procs}"


class Session:
    ended = []                     # processes of jobs that have ended

    def __init__(self, box, preload=None, env=None):
        self.box, self.w = box, box.w
        env = dict(box.env() if env is None else env)
        env = core.instrumented(box, env, preload)
        self.outp = f"{box.home}/out"
        r, self.wfd = os.pipe()
        os.set_inheritable(self.wfd, False)
        with open(self.outp, "ab") as out, open(f"{box.home}/err", "ab") as err:
            self.p = subprocess.Popen(["rsh"], executable=box.ctx.rsh, stdin=r, stdout=out, stderr=err, env=env, cwd=box.w, start_new_session=True)
        os.close(r)
        self.pid = self.p.pid
        self.hist = []
        self.jobs = []
        self.syncs = 0
        self.tags = 0
        self.seen = collections.Counter()
        self.logpos, self.ev = 0, []
        self.kinds = set()

    def say(self, what):
        self.hist.append(what)

    def send(self, *lines):
        for l in lines:
            self.say(l)
        try:
            os.write(self.wfd, "".join(l + "\n" for l in lines).encode())
        except BrokenPipeError:
            raise Bad("the shell does not read its input any more: " + self.how())

    def how(self):
        rc = self.p.poll()
        return f"it has ended with {rc}: {self.err()[-300:]!r}" if rc is not None else core.hang_info(self.pid)

    def out(self):
        with open(self.outp, "rb") as f:
            return f.read()

    def err(self):
        with open(f"{self.box.home}/err", "rb") as f:
            return f.read()

    def events(self):
        import json
        with open(self.box.log, "rb") as f:
            f.seek(self.logpos)
            data = f.read()
        end = data.rfind(b"\n") + 1
        for l in data[:end].split(b"\n"):
            if l:
                try:
                    self.ev.append(json.loads(l.decode("latin-1")))
                except ValueError:
                    raise Inconclusive("a line of the log is incomplete")
        self.logpos += end
        return self.ev

    def until(self, cond, what, slow=SLOW):
        end = time.monotonic() + slow
        d = .0003
        while True:
            v = cond()
            if v:
                return v
            if time.monotonic() > end:
                raise Bad(what + "; " + self.how())
            if self.p.poll() is not None and not cond():
                raise Bad(f"the shell has ended unexpectedly ({what}): " + self.how())
            time.sleep(d)
            d = min(d * 1.3, .02)

    def started(self, tag):
        for e in reversed(self.events()):
            if e["e"] == "S" and tag in e["argv"]:
                return e

    def sync(self, pos=None):
        """until the shell has done everything it was told; what it printed meanwhile"""
        mark = (self.w + "\n").encode()
        pos = len(self.out()) if pos is None else pos
        try:
            os.write(self.wfd, b"pwd\n")
        except BrokenPipeError:
            raise Bad("the shell does not read its input any more: " + self.how())
        self.until(lambda: mark in self.out()[pos:], "the shell does not get back to its input")
        self.syncs += 1
        o = self.out()[pos:]
        return o[:o.index(mark)]

    def quiet(self, before=None):
        """until the shell sleeps in its read and has had the chance to notice what happened"""
        def sample():
            n = 0
            try:
                with open(f"/proc/{self.pid}/status") as f:
                    s = f.read()
            except FileNotFoundError:
                return None
            return int(re.search(r"voluntary_ctxt_switches:\s*(\d+)", s).group(1)), "S (sleeping)" in s, fcntl.ioctl(self.wfd, termios.FIONREAD, b"\0" * 4) == b"\0" * 4
        end = time.monotonic() + .5
        last, same = None, 0
        while time.monotonic() < end:
            s = sample()
            if s is None:
                return
            same = same + 1 if s == last and s[1] and s[2] else 0
            last = s
            if same >= 2 and (before is None or s[0] > before):
                return
            time.sleep(.0015)

    def switches(self):
        try:
            with open(f"/proc/{self.pid}/status") as f:
                return int(re.search(r"voluntary_ctxt_switches:\s*(\d+)", f.read()).group(1))
        except FileNotFoundError:
            return 0

    # ---- the truth

    def new(self, rng, shapes):
        def tag(c):
            self.tags += 1
            return f"/{c}{self.tags}"
        k = rng.choice(shapes)
        ps = []
        for i in range(k):
            if i and i == k - 1 and rng.random() < .4:
                ps.append(Proc(tag("e"), "sink", rng.choice([0, 0, 1, 7])))
            else:
                ps.append(Proc(tag("h")[1:], "hold"))
        return Job(ps)

    def find(self, job):
        for p in job.procs:
            if p.pid is None:
                e = self.until(lambda: self.started(p.tag), f"{p.text()!r} is not started")
                p.pid = e["pid"]
                if e["ppid"] != self.pid:
                    raise Bad(f"{p.text()!r} is not a child of the shell")
        self.seen["processes of jobs"] += len(job.procs)

    def act(self, p, what):
        """does something to a process, without waiting for the effect"""
        k, v = what
        self.say(f"({p.tag} {k} {v})")
        if k == "x":
            self.box.control(p.tag, f"x {v}")
            p.state, p.result = "dead", v
        elif k == "k":
            os.kill(p.pid, v)
            if p.state == "stop" and v != signal.SIGKILL:
                if p.pending is None or p.pending == "eof":
                    p.pending = v
            else:
                p.state, p.result = "dead", 128 + v
        elif k == "s":
            os.kill(p.pid, v)
            p.state = "stop"
        elif k == "c":
            os.kill(p.pid, signal.SIGCONT)
            if p.state == "stop":
                p.state = "run"
                if isinstance(p.pending, int):
                    p.state, p.result = "dead", 128 + p.pending

    def choices(self, rng, p, cont=False):
        """what could be done to a process"""
        if p.state == "dead" or p.pending is not None:
            return None
        if p.state == "run":
            x = rng.random()
            if p.kind == "hold" and x < .35:
                return "x", rng.choice([0, 0, 1, 3, 7, 77])
            if x < .65:
                return "k", rng.choice([9, 15, 2, 1, 13, 10, 14, 34, 64] if p.kind == "hold" else [9, 15, 50])
            return "s", rng.choice([19, 19, 20, 21, 22] if p.job.own else [19])
        x = rng.random()
        if cont and x < .4:
            return "c", 18
        if x < .75:
            return "k", 9
        return "k", rng.choice([15, 15, 36])

    def reached(self, job, reaped=True):
        """until the processes of the job are what they have to be"""
        for p in job.procs:
            if p.pid is None:
                continue
            def ok():
                s = pstat(p.pid)
                if s and s[1] != self.pid:
                    s = None
                if p.state == "dead":
                    return s is None or s[0] == "Z" and not reaped
                if p.state == "stop":
                    return s and s[0] == "T"
                return s and s[0] not in "TZ"
            try:
                self.until(ok, "", 8 if p.state == "dead" else SLOW)
            except Bad as b:
                s = pstat(p.pid)
                if p.state == "dead":
                    if s and s[0] == "Z":
                        raise Bad(f"the process {p.tag} ({p.pid}) has ended, but the idle shell does not reap it")
                    raise Inconclusive(f"{p} does not end {s}")
                if p.state == "stop":
                    raise Bad(f"the process {p.tag} ({p.pid}) was stopped, but is {s}")
                raise Bad(f"the process {p.tag} ({p.pid}) should be running, but is {s}")

    def zombies(self):
        z = [k for k in kids_of(self.pid) if (pstat(k) or "?")[0] == "Z"]
        return z

    def check_children(self):
        """at idle the children of the shell are exactly the living processes of the jobs, each in its state"""
        end = time.monotonic() + 8
        want = {p.pid for j in self.jobs for p in j.procs if p.state != "dead"}
        while True:
            kids = set(kids_of(self.pid))
            if kids == want:
                break
            if time.monotonic() > end:
                z = self.zombies()
                if z:
                    raise Bad(f"the idle shell has zombies: {z}")
                raise Bad(f"the shell's children are {sorted(kids)} instead of {sorted(want)}")
            time.sleep(.002)
        self.seen["idle points without zombies"] += 1
        for j in self.jobs:
            self.reached(j)

    def listing(self):
        self.quiet()
        self.sync()
        pos = len(self.out())
        self.send("jobs")
        o = ASYNC.sub(b"", self.sync(pos))
        got = []
        for l in o.split(b"\n"):
            m = LISTED.match(l)
            if m:
                got.append((int(m.group(1)), m.group(2).decode(), m.group(3).decode("utf-8", "replace")))
            elif l.strip():
                raise Bad(f"jobs prints {l!r}")
        return got

    def check_listing(self):
        got = self.listing()
        self.seen["job tables compared"] += 1
        self.seen["jobs listed"] += len(got)
        live = [j for j in self.jobs if j.alive]
        nums = [g[0] for g in got]
        if len(set(nums)) != len(nums) or nums != sorted(nums):
            raise Bad(f"jobs lists {got}: numbers not in order or not unique")
        fresh = [j for j in live if j.n is None]
        known = {j.n: j for j in live if j.n is not None}
        unknown = [n for n in nums if n not in known]
        if len(fresh) == 1 and len(unknown) == 1:
            fresh[0].n = unknown[0]
            known[unknown[0]] = fresh[0]
        want = {n: ("Running" if j.running else "Stopped") for n, j in known.items()}
        if {g[0]: g[1] for g in got} != want or len(fresh) > len(unknown):
            raise Bad(f"jobs lists {got} instead of {sorted(want.items())}" + (f" and {fresh}" if fresh and not unknown else ""))
        for n, s, t in got:
            names = [p.kind for p in known[n].procs]
            if re.findall(r"[A-Za-z_]+", re.sub(r"\S*/", "", t)) != names:
                raise Bad(f"jobs lists {t!r} as job {n}, which is {known[n].line()!r}")
        self.kinds.add(tuple(s[0] + str(len(known[n].procs)) for n, s, t in got))

    # ---- steps

    def start_bg(self, job, line=None):
        pos = len(self.out())
        self.send((line or job.line()) + " &")
        job.own = True
        self.sync()
        self.find(job)
        o = ASYNC.sub(b"", self.out()[pos:])
        m = STARTED.findall(o)
        if not m:
            raise Bad(f"starting a background job does not print its number, but {o[:200]!r}")
        ns = {int(a) for a, _ in m}
        if len(ns) != 1:
            raise Bad(f"a background job prints different numbers: {o[:200]!r}")
        job.n = ns.pop()
        if any(j.n == job.n for j in self.jobs if j.alive):
            raise Bad(f"the new job has the number {job.n} of a job that goes on")
        pids = {int(b) for _, b in m}
        if not pids <= {p.pid for p in job.procs}:
            raise Bad(f"the number of the job is printed with processes {sorted(pids)}, but its are {job.procs}")
        self.jobs.append(job)
        self.seen["background jobs started"] += 1

    def during(self, rng, job, others, o):
        """things that happen while the job is in the foreground, until it has ended or stopped"""
        while True:
            job.eof()
            if not job.running:
                break
            x = rng.random()
            live = [p for p in job.procs if p.state == "run"]
            halted = [p for p in job.procs if p.state == "stop" and p.pending is None]
            if rng.random() < .12 and self.interrupts:
                # a signal for the shell itself, which goes on waiting
                self.say("(shell interrupted)")
                for _ in range(rng.choice([1, 1, 2, 5])):
                    os.kill(self.pid, signal.SIGINT)
                    time.sleep(rng.choice([0, .0005, .003]))
                self.seen["interrupts of the waiting shell"] += 1
                if rng.random() < .5:
                    time.sleep(.01)
                    if self.started(self.ahead):
                        raise Bad(f"the shell does not wait for its foreground job {job.line()!r} any more once it was interrupted")
                continue
            if halted and rng.random() < .2:
                self.act(rng.choice(halted), ("c", 18))
                self.reached(job, reaped=False)
                continue
            if others and x < .45:
                j = rng.choice(others)
                p = rng.choice(j.procs)
                if p.state == "run" or p.state == "stop" and p.pending is None:
                    a = self.choices(rng, p, cont=True)
                    if a:
                        self.act(p, a)
                        j.eof()
                        self.seen["changes of other jobs during a foreground job"] += 1
                        if a[0] in "sc" or rng.random() < .5:
                            self.reached(j, reaped=False)
            else:
                p = rng.choice(live)
                a = self.choices(rng, p)
                if a[0] == "s" and rng.random() > o["stops"]:
                    a = ("k", 15)
                last = len(live) == 1 and p is live[0]
                if last:
                    self.waits(job)
                self.act(p, a)
                job.eof()
                if a[0] == "s" or rng.random() < .7:
                    self.reached(job, reaped=False)
        self.reached(job, reaped=False)

    def resuming(self, job, pos):
        """gives the shell the time to send its SIGCONTs, which must not meet signals of ours"""
        if not any(p.state == "stop" for p in job.procs) or len(job.procs) > 1:
            end = time.monotonic() + 1
            while time.monotonic() < end and f"[{job.n}] Running".encode() not in self.out()[pos:]:
                time.sleep(.001)

    def waits(self, job):
        """the line typed ahead must not be executed as long as the job is running"""
        if rng_grace(self):
            time.sleep(.012)
        if self.ahead and self.started(self.ahead):
            raise Bad(f"the shell does not wait for its foreground job {job.line()!r}")

    ahead = None
    interrupts = True

    def foreground(self, rng, job, line, o):
        """the line that puts the job into the foreground, and everything until the next line"""
        self.tags += 1
        k = self.tags
        form = rng.random()
        if form < .75:
            text = f"{line} && pr /ok{k} || pr /ko{k}"
        else:
            text = line
        self.ahead = f"/ah{k}"
        pos = len(self.out())
        self.send(text, f"pr {self.ahead}")
        self.find(job)
        if line.startswith("fg"):
            # it is running now
            self.resuming(job, pos)
            job.resumed()
            self.reached(job, reaped=False)
        others = [j for j in self.jobs if j is not job and j.alive]
        self.during(rng, job, others, o)
        e = self.until(lambda: self.started(self.ahead), f"the shell does not get back from its foreground job {job!r}, which has {'stopped' if job.alive else 'ended'}")
        ends = [x["t"] for x in self.ev if x["e"] == "X" and x["pid"] in [p.pid for p in job.procs]]
        if ends and max(ends) > e["t"]:
            raise Bad(f"the shell does not wait for {job.line()!r}")
        self.ahead = None
        self.seen["foreground jobs that stopped" if job.alive else "foreground jobs that ended"] += 1
        if form < .75:
            ok, ko = self.started(f"/ok{k}"), self.started(f"/ko{k}")
            if bool(ok) == bool(ko):
                raise Bad(f"{text!r}: neither or both")
            if not job.alive:
                self.seen["statuses of jobs"] += 1
                st = job.procs[-1].result
                if bool(ok) != (st == 0):
                    raise Bad(f"{line!r} counts as {'success' if ok else 'failure'}, but the status of the job is {st}", )
            elif ok:
                raise Bad(f"{line!r} counts as success although the job has stopped")
        self.sync()
        if job in self.jobs and not job.alive:
            pass
        if job not in self.jobs and job.alive:
            self.jobs.append(job)

    def tidy(self):
        self.ended = self.ended + [p.pid for j in self.jobs if not j.alive for p in j.procs]
        self.jobs = [j for j in self.jobs if j.alive]

    def close(self):
        try:
            os.close(self.wfd)
        except OSError:
            pass

    def finish(self):
        self.close()
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()


def rng_grace(s):
    s.graces = getattr(s, "graces", 0) + 1
    return s.graces % 3 == 0


class JobCheck(Check):
    note = ("Every step of a session is judged once the processes have reached the states the step puts them into (seen in /proc), so nothing depends on speed; the histories are random, "
            "so other histories, and windows of a few instructions that no delay falls into, are not covered. Trusts /proc and the probe.")
    assumptions = ["the probe program and /proc report the states of processes truthfully", "a shell that does not react within 20 s (three times) hangs"]
    weights = {}
    steps = (6, 25)
    delays = .3
    shapes = [1, 1, 1, 1, 2, 2, 3]
    quick_n, thorough_n = 1600, 20000

    def open(self, rng, box):
        pre = None
        if rng.random() < self.delays:
            pm, us = rng.choice([(50, 3000), (200, 1000), (500, 300)])
            pre = {"SHIM_DELAY": f"{rng.randrange(1 << 30)}:{pm}:{us}"}
        return Session(box, pre)

    def case(self, rng, i, ctx):
        out = Outcome()
        with ctx.box() as box:
            s = self.open(rng, box)
            try:
                self.history(rng, s)
            except Bad as b:
                out.fail(str(b), history="\n".join(s.hist), output=s.out()[-1500:].decode("utf-8", "replace"), errors=s.err()[-500:].decode("utf-8", "replace"), jobs=repr(s.jobs))
            finally:
                if not out.violations and (b"panicked at" in s.err() or b"RUST_BACKTRACE" in s.err()):
                    out.fail("the shell panics", history="\n".join(s.hist), errors=s.err()[-1000:].decode("utf-8", "replace"))
                s.finish()
            ctx.stats.update(s.seen)
            ctx.stats["lines given to the shell"] += sum(not h.startswith("(") for h in s.hist)
            for k in s.kinds:
                if not hasattr(ctx, "tables"):
                    ctx.tables = set()
                if k not in ctx.tables:
                    ctx.tables.add(k)
                    ctx.stats["distinct job tables (per worker)"] += 1
            out.key = "|".join(re.sub(r"\d+", "", h) for h in s.hist)
            out.sample = "; ".join(s.hist)[:600]
        return out

    o = {"stops": .7}

    def history(self, rng, s):
        s.sync()
        n = rng.randint(*self.steps)
        for _ in range(n):
            k = rng.choices(list(self.weights), list(self.weights.values()))[0]
            getattr(self, "t_" + k)(rng, s)
            s.tidy()
            if rng.random() < self.looks:
                s.check_children()
                s.check_listing()
        s.quiet()
        s.sync()
        s.check_children()
        s.check_listing()
        self.end(rng, s)

    looks = .6

    def end(self, rng, s):
        live = [j for j in s.jobs if j.alive]
        x = rng.random()
        if live and x < .6:
            # the exact status of a job is that of the shell
            j = rng.choice(live)
            line = f"fg %{j.n}"
            pos = len(s.out())
            s.send(line, "exit")
            s.resuming(j, pos)
            j.resumed()
            s.reached(j, reaped=False)
            if j.running:
                for p in j.procs:
                    if p.state == "run":
                        a = s.choices(rng, p)
                        if a[0] == "s":
                            a = ("x", rng.choice([0, 5, 200])) if p.kind == "hold" else ("k", 15)
                        s.act(p, a)
                        j.eof()
            want = j.procs[-1].result
        elif x < .8:
            code = rng.choice([0, 1, 42])
            s.send(f"exit {code}")
            want = code
        else:
            code = rng.choice([0, 3])
            s.send(f"rc {code}")
            s.sync()
            want = None
            s.close()
        if not core.wait_pid(s.p, SLOW):
            raise Bad("the shell does not end: " + s.how())
        if want is not None and s.p.wait() != want:
            raise Bad(f"the shell ends with {s.p.returncode} instead of {want}")
        s.seen["exit statuses compared"] += want is not None
        for j in live:
            if want is not None and x < .6 and j is live:
                continue
        # the other jobs go on
        for j in live:
            for p in j.procs:
                if p.state != "dead" and pstat(p.pid) is None:
                    if p.state == "run" or p.state == "stop":
                        s.seen["jobs ended with the shell"] += 1

    # ---- kinds of steps

    def t_bg(self, rng, s):
        if len(s.jobs) < 9:
            s.start_bg(s.new(rng, self.shapes))

    def t_fgstart(self, rng, s):
        j = s.new(rng, self.shapes)
        s.foreground(rng, j, j.line(), self.o)
        if j.alive:
            s.check_listing()
            if j.n is None:
                raise Bad(f"the stopped job {j.line()!r} is not listed")

    def pick(self, rng, s):
        live = [j for j in s.jobs if j.alive and j.n is not None]
        return rng.choice(live) if live else None

    def name(self, rng, j):
        if rng.random() < .3:
            return str(rng.choice([p.pid for p in j.procs if p.state != "dead"]))
        return f"%{j.n}"

    def t_fg(self, rng, s):
        j = self.pick(rng, s)
        if j:
            s.foreground(rng, j, f"fg {self.name(rng, j)}", self.o)

    def t_bgcmd(self, rng, s):
        j = self.pick(rng, s)
        if j:
            s.send(f"bg {self.name(rng, j)} && pr /bgok{s.tags} || pr /bgko{s.tags}")
            j.resumed()
            s.sync()
            if not s.started(f"/bgok{s.tags}"):
                raise Bad("bg fails")
            s.tags += 1
            s.reached(j)
            s.seen["bg commands"] += 1

    def t_change(self, rng, s):
        """something happens to some processes while the shell is idle"""
        live = [p for j in s.jobs for p in j.procs if p.state != "dead" and p.pending is None]
        if not live:
            return
        s.quiet()
        before = s.switches()
        js = set()
        for p in rng.sample(live, min(len(live), rng.choice([1, 1, 1, 2, 3, 9]))):
            a = s.choices(rng, p, cont=self.conts)
            if a:
                s.act(p, a)
                j = next(j for j in s.jobs if p in j.procs)
                j.eof()
                js.add(j)
                s.seen["changes while idle"] += 1
        for j in js:
            s.reached(j)
        s.quiet(before)

    conts = True

    def t_job(self, rng, s):
        """the same happens to all processes of a job"""
        j = self.pick(rng, s)
        if not j:
            return
        s.quiet()
        before = s.switches()
        for p in j.procs:
            if p.state == "dead" or p.pending is not None:
                continue
            a = ("s", 19) if p.state == "run" and rng.random() < .6 else ("k", 9)
            s.act(p, a)
            j.eof()
            s.seen["changes while idle"] += 1
        s.reached(j)
        s.quiet(before)

    def t_wrong(self, rng, s):
        used = {j.n for j in s.jobs}
        n = rng.choice([k for k in list(range(1, 14)) + [99, 1000] if k not in used])
        arg = rng.choice([f"%{n}", f"%{n}", f"%{n}", "%0", "999999", "1", str(s.pid), str(os.getpid()), "", "%", "x", "%x", "-1", "%-1", "%99999999999999999999", "99999999999999999999"])
        gone = [p for p in s.ended if not os.path.exists(f"/proc/{p}")]
        if gone and rng.random() < .5:
            arg = str(rng.choice(gone))
            s.seen["processes that have ended named to fg and bg"] += 1
        s.tags += 1
        s.send(f"{rng.choice(['fg', 'bg'])} {arg} && pr /wok{s.tags} || pr /wko{s.tags}")
        s.sync()
        if not s.started(f"/wko{s.tags}"):
            raise Bad(f"{s.hist[-1]!r} is no error")
        s.seen["wrong numbers"] += 1

    def t_cmd(self, rng, s):
        s.tags += 1
        k = s.tags
        line, first = rng.choice([(f"pr /c{k}", f"/c{k}"), (f"pr /c{k} | sink 0", f"/c{k}"), (f"rc 3 /c{k} || pr", f"/c{k}"), (f"prt \"$(put x)\" /c{k}", f"/c{k}"), (f"die {rng.choice([9, 9, 40])} /c{k}", f"/c{k}"), (f"slp 3 0 /c{k}", f"/c{k}"),
                                  (f"no_such /c{k} ; pr /c{k}", f"/c{k}"), (f"zz() {{ pr /c{k} ; }} ; zz", f"/c{k}"), (f"gen 100000 1 | xor 3 | sink 0 /c{k}", f"/c{k}"),
                                  (f"bk() {{ {{ pr not ; }} ; pr not ; }} ; bk x || pr /c{k}", f"/c{k}"), (f"eval '{{ pr not ; }}' || pr /c{k}", f"/c{k}"), (f"eval '| x' || pr /c{k}", f"/c{k}"), (f"pr x > /no/such || pr /c{k}", f"/c{k}"),
                                  (f"cd /no/such || pr /c{k}", f"/c{k}")])
        s.send(line)
        s.sync()
        if not s.started(first):
            raise Bad(f"{line!r} is not executed")

    def t_burst(self, rng, s):
        """many short background jobs"""
        n = rng.choice([3, 5, 10, 20, 40])
        lines, tags = [], []
        shape = rng.choice(["rc 0 {}", "slp {ms} 1 {}", "die 9 {}", "die 34 {}", "slp 5 0 {}", "pr {} | sink 0 | sink 0", "meet b{b} {n} {i} {} < /dev/null"])
        s.tags += 1
        for i in range(n):
            t = f"/u{s.tags}_{i}"
            tags.append(t)
            lines.append(shape.format(t, ms=rng.choice([0, 1, 2, 3, 10]), b=s.tags, n=n, i=i) + " &")
        if rng.random() < .4:
            t = f"/v{s.tags}"
            lines.insert(rng.randrange(len(lines) + 1), f"slp {rng.choice([1, 5, 20])} 0 {t}")
        elif rng.random() < .3:
            lines.insert(rng.randrange(len(lines) + 1), "prt \"$(slp 5)\"")
        s.send(*lines)
        s.sync()
        for t in tags:
            s.until(lambda: s.started(t), f"{t} of {len(tags)} background jobs is not started")
        s.seen["short background jobs"] += n
        # they end without anything being done about it
        s.check_children()
        s.quiet()

    def rule(self):
        return "a case is distinct by its history of lines and events with the numbers removed; jobs listings are compared with the states of the processes, children of the idle shell with the living processes of its jobs"


class C19(JobCheck):
    id = "C19"
    technique = "runtime monitoring: interactive sessions driven step by step, job listings against the real states of the processes"
    weights = {"bg": 3, "fgstart": 2, "fg": 2.5, "bgcmd": 2, "change": 4, "job": 1.5, "wrong": 1.5, "cmd": 1, "burst": .2}


class C20(JobCheck):
    id = "C20"
    technique = "runtime monitoring: child processes of interactive sessions followed through /proc, mass ends and injected delays"
    weights = {"bg": 2, "fgstart": 3, "fg": 2, "bgcmd": .7, "change": 2, "job": 1.5, "cmd": 1.5, "burst": 2}
    delays = .5
    looks = .35
