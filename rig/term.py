"""Sessions at a pseudo-terminal: Ctrl-C and Ctrl-Z (C28), history (C24), completion (C25)."""
import collections, fcntl, os, re, select, signal, struct, termios, time, unicodedata
import core, jobs
from core import Check, Inconclusive, Outcome, b2s, kids_of, pstat
from jobs import Bad, SLOW

CSI = re.compile(rb"\x1b\[[0-9;?]*[A-Za-z]|\x1b[()][A-Z0-9]|\x1b[=>78]")


class Term(jobs.Session):
    """a session whose input is a terminal; the shell is started by a session leader of its own, like a login would"""

    def __init__(self, box, env=None, rows=24, cols=200, fds=()):
        self.box, self.w = box, box.w
        env = dict(box.env() if env is None else env)
        env.setdefault("TERM", "xterm")
        env = core.instrumented(box, env)
        self.hist, self.jobs, self.syncs, self.tags = [], [], 0, 0
        self.seen = collections.Counter()
        self.logpos, self.ev, self.kinds = 0, [], set()
        self.raw = b""
        self.rc = None
        self.master, slave = os.openpty()
        fcntl.ioctl(slave, termios.TIOCSWINSZ, struct.pack("HHHH", rows, cols, 0, 0))
        pr, pw = os.pipe()
        self.note = pr
        self.leader = os.fork()
        if self.leader == 0:
            try:
                os.close(pr)
                os.close(self.master)
                os.setsid()
                fcntl.ioctl(slave, termios.TIOCSCTTY, 0)
                signal.signal(signal.SIGTTOU, signal.SIG_IGN)
                signal.signal(signal.SIGHUP, signal.SIG_IGN)
                r, w = os.pipe()
                c = os.fork()
                if c == 0:
                    os.setpgid(0, 0)
                    os.tcsetpgrp(slave, os.getpid())
                    signal.signal(signal.SIGTTOU, signal.SIG_DFL)
                    signal.signal(signal.SIGHUP, signal.SIG_DFL)
                    signal.signal(signal.SIGPIPE, signal.SIG_DFL)
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                    signal.signal(signal.SIGINT, signal.SIG_DFL)
                    for i in range(3):
                        os.dup2(dict(fds).get(i, slave), i)
                    os.chdir(box.w)
                    os.closerange(3, 256)
                    os.execve(box.ctx.rsh, ["rsh"], env)
                for i in range(3):
                    os.close(i) if i not in (slave, pw) else None
                os.write(pw, b"p%d\n" % c)
                while True:
                    p, s = os.waitpid(-1, os.WUNTRACED)
                    if p != c:
                        continue
                    if os.WIFSTOPPED(s):
                        os.write(pw, b"s%d\n" % os.WSTOPSIG(s))
                    else:
                        os.write(pw, b"x%d\n" % os.waitstatus_to_exitcode(s))
                        break
            finally:
                os._exit(0)
        os.close(slave)
        os.close(pw)
        os.set_blocking(self.master, False)
        os.set_blocking(self.note, False)
        self.notes = b""
        end = time.monotonic() + SLOW
        while b"\n" not in self.notes:
            self.pump(.01)
            if time.monotonic() > end:
                raise Inconclusive("the shell is not started")
        self.pid = int(self.notes.split(b"\n")[0][1:])
        self.p = self

    def poll(self):
        m = re.search(rb"x(-?\d+)\n", self.notes)
        if m:
            self.rc = int(m.group(1))
        return self.rc

    def pump(self, t=0.0):
        """reads what there is"""
        try:
            r, _, _ = select.select([self.master, self.note], [], [], t)
        except ValueError:
            return
        if self.note in r:
            try:
                d = os.read(self.note, 4096)
                self.notes += d
                if not d:
                    os.close(self.note)
                    self.note = os.open("/dev/null", os.O_WRONLY)
            except BlockingIOError:
                pass
        if self.master in r:
            try:
                d = os.read(self.master, 65536)
            except (OSError, BlockingIOError):
                d = b""
                if not t:
                    return
                time.sleep(.001)
            self.raw += d
            for _ in range(d.count(b"\x1b[6n")):
                self.key(b"\x1b[1;5R", False)

    def key(self, b, log=True):
        if log:
            self.say(repr(b)[1:])
        try:
            os.write(self.master, b)
        except OSError as e:
            raise Bad(f"the terminal is gone ({e}): {self.how()}")

    def out(self):
        self.pump()
        return self.raw

    def err(self):
        return self.raw

    def canon(self):
        """whether the terminal is in the mode of commands, not in that of the line editor"""
        return bool(termios.tcgetattr(self.master)[3] & termios.ICANON)

    def until(self, cond, what, slow=SLOW):
        end = time.monotonic() + slow
        while True:
            self.pump(.0008)
            v = cond()
            if v:
                return v
            if time.monotonic() > end:
                raise Bad(what + "; " + self.how())
            if b"\ns" in self.notes:
                raise Bad("the shell itself has been stopped")
            if self.poll() is not None and not cond():
                raise Bad(f"the shell has ended unexpectedly ({what}): {self.rc}")

    def how(self):
        return f"terminal {'cooked' if self.canon() else 'raw'}, {core.hang_info(self.pid)}" if self.poll() is None else f"it has ended with {self.rc}"

    def text(self, b=None):
        return CSI.sub(b"", self.raw if b is None else b)

    # every call of the line editor announces itself; keys before that could get lost between two of them
    base, since = 0, 0

    def expect(self):
        """what is typed next makes the line editor return"""
        self.base, self.since = self.out().count(b"\x1b[?2004h"), time.monotonic()

    def ready(self):
        return not self.canon() and (self.raw.count(b"\x1b[?2004h") > self.base or time.monotonic() > self.since + 2)

    def prompt(self, what="the prompt does not come back"):
        self.until(self.ready, what)

    def line(self, text):
        """types a line"""
        self.say(text)
        self.expect()
        self.key(text.encode("utf-8", "surrogateescape") + b"\r", False)

    def discard(self):
        self.expect()
        self.key(b"\x03")
        self.prompt()

    def send(self, *lines):
        for l in lines:
            self.prompt()
            self.line(l)

    def sync(self, pos=None):
        mark = (self.w + "\r\n").encode()
        pos = len(self.out()) if pos is None else pos
        self.prompt()
        start = len(self.out())
        self.expect()
        self.key(b"pwd\r", False)
        self.until(lambda: mark in self.out()[start:], "the shell does not get back to its input")
        self.prompt()
        self.syncs += 1
        o = self.out()[pos:]
        return o[:o.rindex(mark)]

    def quiet(self, before=None):
        end = time.monotonic() + .5
        last, same = None, 0
        while time.monotonic() < end:
            self.pump(.001)
            st = pstat(self.pid)
            s = (self.switches(), st and st[0], len(self.raw))
            same = same + 1 if s == last and s[1] == "S" else 0
            last = s
            if same >= 2 and (before is None or s[0] > before):
                return

    def wait(self):
        return self.rc

    def finish(self):
        for p in (self.leader, getattr(self, "pid", None)):
            if p:
                try:
                    os.kill(p, signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    pass
        try:
            os.waitpid(self.leader, 0)
        except ChildProcessError:
            pass
        for fd in (self.master, self.note):
            try:
                os.close(fd)
            except OSError:
                pass

    def listing(self):
        self.quiet()
        self.sync()
        pos = len(self.out())
        self.send("jobs")
        got = []
        for l in re.split(rb"[\r\n]+", jobs.ASYNC.sub(b"", self.text(self.sync(pos)))):
            m = jobs.LISTED.match(l)
            if m:
                got.append((int(m.group(1)), m.group(2).decode(), m.group(3).decode("utf-8", "replace")))
        return got

    def at_prompt(self, ps1):
        """until the prompt is displayed"""
        self.prompt()
        self.until(lambda: self.text(self.raw[-400:]).endswith(b"\r" + ps1.encode() + b"\r"), f"the prompt is not displayed as {ps1!r} but as {self.text(self.raw[-60:])!r}", 5)


class TermCheck(jobs.JobCheck):
    def open(self, rng, box):
        return Term(box)


class C28(TermCheck):
    id = "C28"
    technique = "runtime monitoring: sessions at a pseudo-terminal, Ctrl-C and Ctrl-Z at many moments, process states from /proc"
    weights = {"bg": 2, "key": 5, "fgkey": 4, "bgcmd": 2.5, "change": 1, "typed": 1.5, "ps1": .7, "early": .8, "cmd": .7, "fifo": .4, "idlekey": .7}
    steps = (5, 16)
    looks = .5
    quick_n, thorough_n = 500, 10000

    def history(self, rng, s):
        self.ps1 = "# " if os.getuid() == 0 else "$ "
        s.at_prompt(self.ps1)
        super().history(rng, s)

    def others(self, rng, s, job):
        """other jobs change while the job is in the foreground"""
        js = [j for j in s.jobs if j is not job and j.alive]
        while js and rng.random() < .25:
            j = rng.choice(js)
            p = rng.choice(j.procs)
            a = s.choices(rng, p, cont=True)
            if a:
                s.act(p, a)
                j.eof()
                s.reached(j, reaped=False)

    def keys(self, rng, s, job):
        """the job is in the foreground; something makes it end or stop"""
        s.until(s.canon, "the line editor stays active although a command is running")
        self.others(rng, s, job)
        x = rng.random()
        live = [p for p in job.procs if p.state == "run"]
        if len(live) > 1 and rng.random() < .25:
            p = rng.choice(live)
            a = s.choices(rng, p)
            if a[0] != "s":
                s.act(p, a)
                job.eof()
                s.reached(job, reaped=False)
                live = [p for p in job.procs if p.state == "run"]
        if not live:
            pass
        elif x < .45:
            if rng.random() < .3:
                time.sleep(rng.random() * .01)
            s.key(b"\x03")
            for p in live:
                p.state, p.result = "dead", 130
            s.seen["Ctrl-C in the foreground"] += 1
        elif x < .9:
            s.key(b"\x1a")
            for p in live:
                p.state = "stop"
            s.seen["Ctrl-Z in the foreground"] += 1
        else:
            for p in live:
                if p.state == "run":
                    s.act(p, ("x", rng.choice([0, 3])) if p.kind == "hold" else ("k", 15))
                    job.eof()
        s.prompt(f"the prompt does not come back after {s.hist[-1]} with the foreground job {job!r}")
        if not s.jobs or job not in s.jobs:
            s.jobs.append(job)
        s.reached(job)
        for j in s.jobs:
            s.reached(j)
        s.at_prompt(self.ps1)
        s.sync()
        s.tidy()

    def t_key(self, rng, s):
        j = s.new(rng, [1, 1, 2, 3])
        j.own = True
        x = rng.random()
        l = j.line()
        s.tags += 1
        if x < .2:
            s.send(f"zf{s.tags}() {{ {l} ; }}", f"zf{s.tags}")
        elif x < .3:
            s.send(f"eval '{l}'")
        elif x < .4:
            s.send(f"pr /b{s.tags} ; {l}")
        elif x < .5:
            s.send(f"rc 1 /b{s.tags} || {l}")
        elif x < .6:
            with open(f"{s.w}/src{s.tags}", "w") as f:
                f.write(l + "\n")
            s.send(f"source ./src{s.tags}")
        elif x < .7:
            s.send(f"q=1 {l}")
        else:
            s.send(l)
        s.find(j)
        self.keys(rng, s, j)
        if j.alive:
            s.check_listing()
            if j.n is None:
                raise Bad(f"the stopped job {l!r} is not listed")

    def t_fgkey(self, rng, s):
        j = self.pick(rng, s)
        if not j:
            return
        pos = len(s.out())
        s.send(f"fg {self.name(rng, j)}")
        s.resuming(j, pos)
        j.resumed()
        s.seen["fg commands"] += 1
        if not j.running:
            s.sync()
            s.reached(j)
            return
        s.until(s.canon, "fg does not wait")
        s.reached(j, reaped=False)
        self.keys(rng, s, j)

    def t_typed(self, rng, s):
        """Ctrl-C while typing a line"""
        s.prompt()
        s.sync()
        s.tags += 1
        text = rng.choice(["pr /nev{}", "pr /nev{} ;", "pr /nev{} '", "pr /nev{} (", "pr /nev{} \xc3\xa9", "exit 3 ; pr /nev{}", "  pr /nev{}"]).format(s.tags)
        s.key(text.encode("latin-1"))
        if rng.random() < .5:
            s.quiet()
        s.discard()
        s.at_prompt(self.ps1)
        s.send(f"pr /then{s.tags}")
        s.sync()
        e = s.started(f"/then{s.tags}")
        if not e:
            raise Bad(f"the line after the discarded {text!r} is not executed")
        if e["argv"] != ["pr", f"/then{s.tags}"] or s.started(f"/nev{s.tags}"):
            raise Bad(f"Ctrl-C does not discard the line {text!r}")
        s.seen["Ctrl-C while typing"] += 1

    def t_idlekey(self, rng, s):
        """keys at the empty prompt that must do nothing to the shell and its jobs"""
        s.sync()
        for _ in range(rng.choice([1, 1, 2, 5])):
            k = rng.choice([b"\x03", b"\x03", b"\x1a", b"\x1c", b"\r"])
            if k in b"\x03\r":
                s.expect()
            s.key(k)
            if k in b"\x03\r":
                s.prompt()
            else:
                s.quiet()
        s.sync()
        s.check_children()
        s.seen["keys at the empty prompt"] += 1

    def t_ps1(self, rng, s):
        v = rng.choice(["> ", "rsh: ", "a b c ", "%", "$ ", "# ", "prompt-1> ", "", "\u00e9> "])
        form = rng.choice(["PS1='{}'", 'PS1="{}"', "eval 'PS1=\"{}\"'"])
        if "$" in v:
            form = "PS1='{}'"
        s.send(form.format(v))
        self.ps1 = v
        if v:
            s.at_prompt(v)
        s.sync()
        if v:
            s.at_prompt(v)
        s.seen["prompts changed"] += 1

    def t_early(self, rng, s):
        """keys while the command is just being started"""
        s.sync()
        s.tags += 1
        j = s.new(rng, [1, 2, 3])
        s.line(j.line())
        if rng.random() < .7:
            s.until(s.canon, "the line editor stays active although a command is running")
        n = rng.choice([1, 1, 2])
        for _ in range(n):
            time.sleep(rng.random() * .004)
            s.key(b"\x03")
        end = time.monotonic() + SLOW
        again = time.monotonic() + .5
        while True:
            s.pump(.005)
            left = [p for p in j.procs if any((pstat(e["pid"]) or "Z")[0] != "Z" for e in s.events() if e["e"] == "S" and p.tag in e["argv"])]
            if s.ready() and not left:
                s.quiet()
                if s.ready():
                    break
            if time.monotonic() > again:
                s.key(b"\x03")
                again += .5
            if time.monotonic() > end:
                raise Bad(f"neither early nor later Ctrl-C ends {j.line()!r}: " + s.how())
        s.quiet()
        s.sync()
        s.check_children()
        s.seen["Ctrl-C while starting"] += 1

    def t_fifo(self, rng, s):
        """a command that never gets to its start"""
        s.tags += 1
        f = f"{s.w}/fifo{s.tags}"
        os.mkfifo(f)
        s.sync()
        s.line(rng.choice(["pr < {}", "pr > {}", "pr | sink 0 < {}", "a=1 cat < {}"]).format(f))
        s.until(s.canon, "the line editor stays active although a command is running")
        s.until(lambda: [k for k in kids_of(s.pid) if k not in [p.pid for j in s.jobs for p in j.procs]], "the command is not started")
        end = time.monotonic() + .5
        while time.monotonic() < end:
            try:
                if os.tcgetpgrp(s.master) != os.getpgid(s.pid):
                    break
            except OSError:
                pass
            time.sleep(.001)
        s.quiet()
        s.key(b"\x03")
        s.prompt("the prompt does not come back after Ctrl-C for a command that waits for its redirection")
        s.sync()
        s.check_children()
        s.seen["Ctrl-C while opening"] += 1

    def end(self, rng, s):
        s.sync()
        live = [p for j in s.jobs for p in j.procs if p.state != "dead"]
        if rng.random() < .5:
            # not the end, as the line is not empty
            s.key(b"pr /x\x1b[D\x04")
            s.quiet()
            if s.poll() is not None:
                raise Bad("Ctrl-D ends the shell although the line is not empty")
            s.discard()
            s.sync()
        s.key(b"\x04")
        end = time.monotonic() + SLOW
        while s.poll() is None:
            s.pump(.002)
            if time.monotonic() > end:
                raise Bad("Ctrl-D does not end the shell: " + s.how())
        s.seen["shells ended by Ctrl-D"] += 1

class C24(TermCheck):
    id = "C24"
    technique = "runtime monitoring: sessions at a pseudo-terminal, recalled lines judged by what they execute, history.txt against the lines typed"
    weights = {"enter": 7, "again": 2, "bad": 2, "empty": 1, "typed": 1, "edited": 1.5, "recall": 4, "kept": 1, "multi": .7, "jobs": .7, "inter": .8}
    quick_n, thorough_n = 1000, 15000

    def history(self, rng, s):
        self.kept, self.tail, self.bg = [], 0, []
        if rng.random() < .15:
            self.weights = dict(C24.weights, multi=0)
        for _ in range(rng.choice([0, 1, 3, 6, 10, 15, 25, 40, 60, 60, 120])):
            if len(self.kept) > 96:
                break
            k = rng.choices(list(self.weights), list(self.weights.values()))[0]
            getattr(self, "h_" + k)(rng, s)
        self.end(rng, s)

    def add(self, s, text):
        if text and text != (self.kept[-1] if self.kept else None):
            self.kept.append(text)
            self.tail = 0 if "\n" in text else self.tail + 1
        s.seen["lines entered"] += 1

    def enter(self, s, text, keys=None):
        s.prompt()
        s.quiet()
        s.say(text)
        s.expect()
        s.key((text.encode() if keys is None else keys) + b"\r", False)
        self.add(s, text)
        s.prompt()

    def fresh(self, rng, s):
        s.tags += 1
        k = s.tags
        return rng.choice(["pr /t{}", "pr /t{}", "pr  /t{} a  b", "  pr /t{}", "pr /t{} ", "pr '/t{}' \"a b\" c'd'e", "pr /t{} ; pr /t{} x", "pr /t{} | sink 0", "a=/t{} pr $a", "pr /t{} \u00e9\u6f22", "pr /t{} \\ a\\n \\\\ b",
                           "pr /t{} [x] # nothing", "rc 3 /t{}", "rc 0 /t{} && pr || pr", "pr \"$(put q)\" /t{}", "zq() {{ pr /t{} ; }} ; zq", "eval 'pr /t{} 1'", "export v=/t{} ; pr $v", "alias al='pr /t{}' ; al", "pr /t{} > /dev/null",
                           "pr /t{} " + "x" * rng.choice([10, 150, 190, 195, 196, 197, 250, 700]), "! rc 0 /t{}", "die 9 /t{}", "pr /t{} #V2", "pr /t{} \u00a0\u2028 \U0001f600", "no_such_/t{} ; pr /t{}", "pr /t{} *.? 100% ~ ^ @ ! x"]).format(k, k)

    def wrong(self, rng, s):
        s.tags += 1
        return rng.choice(["no_such_{}", "pr /w{} |", "pr /w{} | | pr", "; pr /w{}", "pr /w{} &&", "pr 'w{}", 'pr "w{}', "pr > ", "pr /w{} < /no/such", "| pr /w{}", "cd /no/such{}", "fg %5{}0", "exit x{}", "readonly", "&& {}", "unalias nn{}", "()", "# {}",
                           "pr `put {}", "source ./none{}", "exec no_such_{}", "return {}", "= {}", "PATH= no_such_{}", "no_such_{} \\", "ex\u00efit {}", "pr /w{} ) (".replace(" ) (", " ( )")]).format(s.tags)

    def h_enter(self, rng, s):
        self.enter(s, self.fresh(rng, s))

    def h_bad(self, rng, s):
        self.enter(s, self.wrong(rng, s))

    def plain(self):
        return [t for t in self.kept if "\n" not in t]

    def h_again(self, rng, s):
        p = self.plain()
        if p:
            t = p[-1] if rng.random() < .5 else rng.choice(p)
            s.seen["lines entered again"] += 1
            for _ in range(rng.choice([1, 1, 2])):
                self.enter(s, t)

    def h_empty(self, rng, s):
        self.enter(s, "")

    def h_typed(self, rng, s):
        s.prompt()
        s.key(self.fresh(rng, s).encode())
        if rng.random() < .5 and self.tail:
            s.key(b"\x1b[A")
        s.quiet()
        s.discard()
        s.seen["lines discarded"] += 1

    def h_inter(self, rng, s):
        """something happens while a line is being typed"""
        t = self.fresh(rng, s)
        k = rng.randrange(len(t))
        s.prompt()
        s.say(t)
        s.key(t[:k].encode(), False)
        s.quiet()
        if rng.random() < .5:
            j = s.new(rng, [1])
            # a resized window
            fcntl.ioctl(s.master, termios.TIOCSWINSZ, struct.pack("HHHH", rng.choice([20, 24, 40]), rng.choice([150, 200, 220]), 0, 0))
        if self.bg:
            s.say("(a background job ends)")
            p = self.bg.pop()
            s.act(p, ("k", 9))
            s.until(lambda: pstat(p.pid) is None, "an ended background job is not reaped while a line is being typed")
        s.quiet()
        s.expect()
        s.key(t[k:].encode() + b"\r", False)
        self.add(s, t)
        s.prompt()
        s.seen["lines entered while something happened"] += 1

    def h_jobs(self, rng, s):
        if len(self.bg) < 4:
            j = s.new(rng, [1])
            self.enter(s, j.line() + " &")
            s.find(j)
            self.bg += j.procs

    def h_edited(self, rng, s):
        """typed with corrections"""
        t = self.fresh(rng, s)
        keys, i = b"", 0
        while i < len(t):
            k = rng.randint(1, max(1, len(t) - i))
            part = t[i:i + k]
            x = rng.random()
            if x < .3:
                keys += (part + "zz\u00e9").encode() + b"\x7f\x7f\x7f"
            elif x < .5 and len(part) > 1:
                # the first half after the second
                a, b = part[:len(part) // 2], part[len(part) // 2:]
                keys += b.encode() + b"\x1b[D" * len(b) + a.encode() + b"\x1b[C" * len(b) if all(ord(c) < 128 for c in b) and i + k >= len(t) and not self.kept else part.encode()
            elif x < .6 and i == 0:
                keys += b"pr wrong\x15" + part.encode()
            else:
                keys += part.encode()
            i += k
        self.enter(s, t, keys)
        s.seen["lines edited"] += 1

    def h_multi(self, rng, s):
        s.tags += 1
        k = s.tags
        t = rng.choice(["zm() {{\npr /t{}\n}}", "( pr /t{}\n)", "{{\npr /t{} ; }}", "pr \"$(put\n)\" /t{}", "pr [\n] /t{}", "zm() {{\n\n\npr /t{} ; }}"]).format(k)
        s.seen["lines with newlines"] += 1
        self.enter(s, t, t.encode().replace(b"\n", b"\r"))

    def h_recall(self, rng, s):
        """up, down, and then what is there is executed"""
        if not self.tail:
            return
        s.prompt()
        typed = rng.choice(["", "", "", "pr /x", "é"])
        up = min(self.tail, rng.choice([1, 1, 2, 3, 5, 10, 99]))
        down = rng.choice([0, 0, 0, 1, 2, 5])
        down = min(down, up - 1)
        over = rng.choice([1, 3]) if len(self.kept) == self.tail and up == self.tail and rng.random() < .5 else 0     # further up than there is something
        moves = [b"\x1b[A"] * (up + over) + [b"\x1b[B"] * down
        if rng.random() < .2:
            moves = [b"\x1b[A", b"\x1b[B"] * rng.randint(1, 3) + moves
            moves = moves[:2 * (len(moves) // 2)] if False else moves
            # every pair is without effect
        want = self.kept[-(up - down)]
        pos = len(s.ev) if s.events() is not None else 0
        s.say(f"({typed!r} up {up}+{over} down {down}: {want!r})")
        s.key(typed.encode() + b"".join(moves), False) if rng.random() < .5 else [s.key(m, False) for m in [typed.encode()] + moves]
        s.quiet()
        extra = rng.choice(["", "", "", " /again", "9"])
        if extra and "#" in want:
            extra = ""
        s.expect()
        s.key(extra.encode() + b"\r", False)
        want += extra
        self.add(s, want)
        s.prompt()
        s.seen["lines recalled"] += 1
        # what it executes
        m = re.fullmatch(r" *pr +(/t\d+\S*)( .*)?", want)
        if m and not re.search(r"[|;&$'\"#<>`!*]", want):
            new = [[b2s(a) for a in e["argv"]] for e in s.events()[pos:] if e["e"] == "S" and e["argv"][0] == "pr"]
            if [["pr"] + want.split()[1:]] != new and all(c in " /" or c.isalnum() and ord(c) < 128 for c in want):
                raise Bad(f"{up} times up and {down} times down bring back something else than {want!r}: it executes {new}")
            s.seen["recalled lines judged at once"] += 1

    def h_kept(self, rng, s):
        """up and as many times down again: what was typed is still there"""
        if not self.tail:
            return
        up = rng.randint(1, min(self.tail, 5))
        t = self.fresh(rng, s)
        k = len(t) if rng.random() < .7 else rng.randint(1, len(t))
        self.enter(s, t, t[:k].encode() + b"\x1b[A" * up + b"\x1b[B" * up + t[k:].encode())
        s.seen["lines left and returned to"] += 1

    def end(self, rng, s):
        x = rng.random()
        s.prompt()
        s.quiet()
        code = rng.choice([0, 0, 1, 7, 255])
        if x < .3:
            s.say("(Ctrl-D)")
            s.key(b"\x04", False)
            code = None
        else:
            forms = [f"exit {code}", f"exit {code}", f"pr a ; exit {code}", f"zx() {{ exit {code} ; }} ; zx", f"eval 'exit {code}'", f"rc 3 || exit {code}", f"rc {code} ; exit", "source ./leave", f"  exit {code} ", f"alias q='exit {code}'", f"if_() {{ zy() {{ exit {code} ; }} ; zy ; }} ; if_",
                     f"exit '{code}'"]
            t = rng.choice(forms)
            if t.startswith("source"):
                with open(s.w + "/leave", "w") as f:
                    f.write(f"exit {code}\n")
            if t.startswith("alias"):
                self.enter(s, t)
                t = "q"
            if self.tail and rng.random() < .15 and x < .5:
                t2 = self.fresh(rng, s)
            s.say(t)
            s.key(t.encode() + b"\r", False)
            self.add(s, t)
        end = time.monotonic() + SLOW
        while s.poll() is None:
            s.pump(.002)
            if time.monotonic() > end:
                raise Bad("the shell does not end: " + s.how())
        if code is not None and s.poll() != code:
            raise Bad(f"the shell ends with {s.poll()} instead of {code}")
        s.seen["ends by end of input" if code is None else "ends by exit"] += 1
        f = s.w + "/history.txt"
        got = b""
        if os.path.exists(f):
            with open(f, "rb") as fh:
                got = fh.read()
        elif self.kept:
            raise Bad("there is no history.txt")
        try:
            ls = got.decode().split("\n")
        except UnicodeDecodeError:
            raise Bad(f"history.txt is damaged: {got!r}")
        if ls[-1] != "":
            raise Bad("the last line of history.txt is not complete")
        ls.pop()
        if ls and ls[0] == "#V2":
            ls = [re.sub(r"\\(.)", lambda m: "\n" if m.group(1) == "n" else m.group(1), l) for l in ls[1:]]
        if ls != self.kept:
            i = next((i for i, (a, b) in enumerate(zip(ls, self.kept)) if a != b), min(len(ls), len(self.kept)))
            raise Bad(f"history.txt has {ls[i:i + 3]} where {self.kept[i:i + 3]} was entered (entry {i} of {len(self.kept)})")
        s.seen["history files compared"] += 1
        s.seen["entries compared"] += len(ls)


class Screen:
    """what a terminal displays, as far as it is needed for the list of completions"""

    def __init__(self):
        self.cells, self.r, self.c, self.n = {}, 1, 1, 0

    def feed(self, b):
        i = 0
        t = b.decode("utf-8", "replace")
        while i < len(t):
            m = re.compile(r"\x1b\[([0-9;?]*)([A-Za-z])|\x1b[()].|\x1b[=>78]").match(t, i)
            if m:
                i = m.end()
                if m.group(2) == "H":
                    a = [int(x) for x in (m.group(1) or "1;1").split(";")]
                    self.r, self.c = a[0], a[1] if len(a) > 1 else 1
                elif m.group(2) == "J":
                    self.cells = {k: v for k, v in self.cells.items() if k < (self.r, self.c)}
                elif m.group(2) == "K":
                    self.cells = {k: v for k, v in self.cells.items() if k[0] != self.r or k[1] < self.c}
                continue
            ch = t[i]
            i += 1
            if ch == "\r":
                self.c = 1
            elif ch == "\n":
                self.r += 1
            elif ch >= " ":
                w = 2 if unicodedata.east_asian_width(ch) in "WF" else 1
                self.cells[self.r, self.c] = ch
                if w == 2:
                    self.cells[self.r, self.c + 1] = ""
                self.c += w

    def lines(self):
        rows = collections.defaultdict(dict)
        for (r, c), ch in self.cells.items():
            rows[r][c] = ch
        return {r: "".join(d.get(c, " ") for c in range(1, max(d) + 1)).rstrip() for r, d in rows.items()}


class C25(TermCheck):
    id = "C25"
    technique = "runtime monitoring: Tab at a pseudo-terminal over random PATHs, the list on the screen against the directories, the choice judged by what it executes"
    quick_n, thorough_n = 320, 6000
    heads = ["c", "co", "com", "g", "git", "z", "x-", "a.", ".c", "Ca", "\u00e9", "\u6f22", "_", "0", "rs"]

    def case(self, rng, i, ctx):
        out = Outcome()
        with ctx.box(()) as box:
            self.files = {}
            dirs = self.world(rng, box)
            env = box.env(PATH=self.path(rng, box, dirs))
            self.val = env["PATH"]
            if rng.random() < .07:
                env.pop("PATH")
                self.val = None
            s = Term(box, env=env, rows=700 if self.big else 110, cols=120)
            try:
                s.prompt()
                for _ in range(rng.choice([1, 2, 3, 4, 6])):
                    x = rng.random()
                    if x < .15 and len(s.jobs) < 3:
                        j = s.new(rng, [1, 2])
                        s.start_bg(j, " | ".join(f"{box.home}/tools/{p.text()}" for p in j.procs))
                    x = rng.random()
                    if x < .2:
                        self.repath(rng, s, dirs)
                    elif x < .35:
                        self.newfile(rng, s, dirs)
                    self.tab(rng, s)
                s.prompt()
                s.tags += 1
                s.send("PATH=" + box.home + "/tools", f"pr /last{s.tags}")
                s.until(lambda: s.started(f"/last{s.tags}"), "after the completions the shell does not execute commands")
                s.prompt()
                s.check_children()
                if s.jobs:
                    s.tidy()
                    s.check_listing()
                s.prompt()
                s.key(b"\x04")
                s.until(lambda: s.poll() is not None, "Ctrl-D does not end the shell")
            except Bad as b:
                out.fail(str(b), history="\n".join(s.hist), PATH=repr(self.val), screen=s.raw[-1500:].decode("utf-8", "replace"), files=repr(self.files)[:2500])
            finally:
                if not out.violations and (b"panicked at" in s.err() or b"RUST_BACKTRACE" in s.err()):
                    out.fail("the shell panics", history="\n".join(s.hist), errors=s.err()[-1000:].decode("utf-8", "replace"))
                s.finish()
            ctx.stats.update(s.seen)
            out.key = "|".join(s.hist) + repr(self.val)
            out.sample = f"PATH={self.val!r}: " + "; ".join(s.hist)[:500]
        return out

    def name(self, rng):
        if rng.random() < .05:
            return rng.choice(["two words", "it's", "a;b", "-n", "$x", ".hidden", "#no", "co(m)", "c*"])
        return rng.choice(self.heads) + "".join(rng.choice("abcom0-_.t\u00e9") for _ in range(rng.randint(0, 5)))

    def world(self, rng, box):
        os.makedirs(box.home + "/tools")
        for n in ("pr", "prt", "hold", "sink"):
            box.link(f"tools/{n}")
        dirs = []
        for i in range(rng.choice([1, 2, 2, 3, 4, 6])):
            d = rng.choice([f"{box.home}/d{i}", f"{box.home}/d{i}", f"{box.home}/d {i}", f"{box.home}/\u00e9{i}", f"{box.home}/deep{i}/er/bin"])
            os.makedirs(d)
            dirs.append(d)
        # now and then there are more commands than anyone would want to look through
        self.big = rng.random() < .12
        pool = sorted({self.name(rng) for _ in range(rng.choice([3, 8, 20, 40]) if not self.big else rng.choice([100, 150, 300, 500]))})
        for d in dirs:
            self.files[d] = set()
            for n in rng.sample(pool, rng.randint(0, min(len(pool), 25)) if not self.big else rng.randint(len(pool) // 2, len(pool))):
                self.put(rng, box, d, n)
            if rng.random() < .15:
                with open(os.fsencode(d) + rng.choice([b"/co\xff", b"/\xe9t\xe9", b"/c\xc3"]), "w"):
                    pass
        return dirs

    def put(self, rng, box, d, n):
        if n in self.files[d]:
            return
        if rng.random() < .85:
            os.link(box.ctx.probe, f"{d}/{n}")
        elif rng.random() < .7:
            with open(f"{d}/{n}", "w") as f:
                f.write("nothing\n")
        else:
            os.symlink(box.ctx.probe, f"{d}/{n}")
        self.files[d].add(n)

    def path(self, rng, box, dirs):
        out = list(dirs)
        rng.shuffle(out)
        if rng.random() < .3:
            out.insert(rng.randrange(len(out) + 1), rng.choice(dirs))
        if rng.random() < .2:
            out.pop()
        if rng.random() < .3:
            out.insert(rng.randrange(len(out) + 1), rng.choice(["/no/such/dir", "", box.home + "/tools/pr", "x" * 300, "relative", "%", "/dev/null", "/no such\\"]))
        if rng.random() < .2:
            d = box.home + "/closed"
            os.makedirs(d, exist_ok=True)
            if d not in self.files:
                os.link(box.ctx.probe, d + "/cosecret")
                self.files[d] = set()
                os.chmod(d, 0o311)
            out.insert(rng.randrange(len(out) + 1), d)
        if rng.random() < .3:
            out.append(box.home + "/tools")
        if rng.random() < .2 and out:
            k = rng.randrange(len(out))
            out[k] += "/" if out[k] else ""
        if rng.random() < .1:
            d = f"{box.w}/rel"
            if d not in self.files:
                os.mkdir(d)
                self.files[d] = set()
                for n in [self.name(rng) for _ in range(3)]:
                    self.put(rng, box, d, n)
            out.insert(rng.randrange(len(out) + 1), rng.choice(["rel", "./rel"]))
        return ":".join(out)

    def want(self, s, prefix):
        got = set()
        tools = {"pr", "prt", "hold", "sink"}
        for e in (self.val or "").split(":"):
            d = os.path.normpath(os.path.join(s.w, e)) if e else ""
            got |= {n for n in (tools if d == s.box.home + "/tools" else self.files.get(d, ())) if n.startswith(prefix)}
        return got

    def repath(self, rng, s, dirs):
        x = rng.random()
        if self.val is None:
            # (a variable that is not exported is not the PATH of anything)
            self.val = self.path(rng, s.box, dirs)
            l = f"export PATH='{self.val}'"
        elif x < .2:
            self.val = None
            l = "unset PATH"
        elif x < .4 and "'" not in self.val:
            d = rng.choice(dirs)
            self.val += ":" + d
            l = f'PATH="$PATH:{d}"'
        else:
            self.val = self.path(rng, s.box, dirs)
            l = rng.choice(["PATH='{}'", "export PATH='{}'", "eval \"PATH='{}'\""]).format(self.val)
        s.send(l)
        s.seen["changes of PATH"] += 1

    def newfile(self, rng, s, dirs):
        d = rng.choice(dirs)
        if rng.random() < .6:
            n = self.name(rng)
            self.put(rng, s.box, d, n)
            s.say(f"(new {n!r} in {d})")
        elif self.files[d]:
            n = rng.choice(sorted(self.files[d]))
            os.unlink(f"{d}/{n}")
            self.files[d].discard(n)
            s.say(f"(without {n!r} in {d})")

    def shown(self, s, pos):
        if self.last and self.last[0] == (pos, len(s.raw), id(s)):
            return self.last[1]
        v = self.shown_now(s, pos)
        self.last = (pos, len(s.raw), id(s)), v
        return v

    last = None

    def shown_now(self, s, pos):
        sc = Screen()
        sc.feed(s.raw[pos:])
        ls = sc.lines()
        m = re.match(r" +(\S )?\s*(\d+)/(\d+)", ls.get(2, ""))
        if not m:
            return None
        items = [(ls[r][2:], ls[r].startswith(">")) for r in sorted(ls) if r > 2 and ls[r].strip()]
        return int(m.group(2)), int(m.group(3)), items

    def tab(self, rng, s):
        every = sorted(self.want(s, ""))
        x = rng.random()
        if x < .45 and every:
            n = rng.choice(every)
            prefix = n[:rng.randint(0, len(n))]
        elif x < .9:
            prefix = rng.choice(self.heads + ["", "p", "pr", "cosec"])
        else:
            prefix = rng.choice(["nothing_like_it", "/", "~", "C", "[", "*", ".", "\u00e8", "c" * 50])
        if self.big and rng.random() < .5:
            prefix = rng.choice(["", "c", "c", "co", "g", prefix])
        if any(c in prefix for c in "()[]{}"):
            prefix = "c"
        want = self.want(s, prefix)
        s.prompt()
        s.quiet()
        if rng.random() < .1:
            # not at the first prompt
            s.key(b"x\x7f")
        s.key(prefix.encode())
        s.quiet()
        pos = len(s.out())
        s.key(b"\t")
        if not want:
            s.until(lambda: b"\x07" in s.out()[pos:] or b"\x1b[?1049h" in s.raw[pos:], f"Tab after {prefix!r} does nothing at all")
            s.quiet()
            if b"\x1b[?1049h" in s.raw[pos:]:
                time.sleep(.3)
                s.pump(.01)
                raise Bad(f"nothing begins with {prefix!r}, but there is a list: {self.shown(s, pos)}")
            s.seen["prefixes without a match"] += 1
            chosen = prefix
        else:
            s.until(lambda: b"\x1b[?1049h" in s.out()[pos:] or b"\x07" in s.raw[pos:], f"Tab after {prefix!r} does nothing at all although there are {sorted(want)[:5]}")
            if b"\x1b[?1049h" not in s.raw[pos:]:
                s.quiet()
                if b"\x1b[?1049h" not in s.raw[pos:]:
                    raise Bad(f"Tab after {prefix!r} offers nothing although there are {sorted(want)[:5]}")
            end, since = time.monotonic() + 6, None
            while True:
                s.pump(.004)
                sh = self.shown(s, pos)
                names = sorted(n for n, _ in sh[2]) if sh else None
                ok = sh and sh[0] == sh[1] == len(want) and names == sorted(want) and sum(k for _, k in sh[2]) == 1
                now = time.monotonic()
                since = (since or now) if ok else None
                if ok and now > since + .06:
                    break
                if now > end:
                    if not sh or sh[0] != sh[1] or len(sh[2]) != sh[1]:
                        raise Inconclusive(f"the list is not displayed completely: {sh}")
                    raise Bad(f"Tab after {prefix!r} offers {names} instead of {sorted(want)}" if names != sorted(want) else f"strange list {sh}")
            s.seen["lists compared"] += 1
            s.seen["names compared"] += len(want)
            if len(want) > 50:
                s.seen["lists of more than 50 names"] += 1
            items = sh[2]
            self.events(rng, s)
            chosen = self.move(rng, s, pos, items)
            s.key(b"\r")
            s.until(lambda: b"\x1b[?1049l" in s.out()[pos:], "the list does not go away")
            s.quiet()
            if rng.random() < .3:
                self.events(rng, s)
        self.judge(rng, s, chosen)
        self.events(rng, s)

    def events(self, rng, s):
        """something happens to a background job"""
        live = [p for j in s.jobs for p in j.procs if p.state != "dead" and p.pending is None]
        if live and rng.random() < .4:
            p = rng.choice(live)
            s.act(p, s.choices(rng, p))
            p.job.eof()
            s.reached(p.job)
            s.seen["jobs changing around completions"] += 1

    def move(self, rng, s, pos, items):
        k = [i for i, (n, sel) in enumerate(items) if sel][0]
        down = min(rng.choice([0, 0, 1, 1, 2, 5]), len(items) - 1 - k)
        for i in range(down):
            s.key(b"\x1b[B")
            end = time.monotonic() + 5
            while True:
                s.pump(.004)
                sh = self.shown(s, pos)
                if sh and [n for n, sel in sh[2] if sel] == [items[k + i + 1][0]]:
                    break
                if time.monotonic() > end:
                    raise Inconclusive("the selection does not move")
        s.say(f"(chosen: {items[k + down][0]!r})")
        return items[k + down][0]

    def judge(self, rng, s, chosen):
        """what the line is now: executed, or given to a command"""
        s.tags += 1
        tools = f"{s.box.home}/tools"
        where = [d for d in (os.path.normpath(os.path.join(s.w, e)) if e else "" for e in (self.val or "").split(":")) if os.path.exists(f"{d}/{chosen}")]
        runs = chosen and where and chosen in self.files.get(where[0], ()) and re.fullmatch(r"[^\s'\"();*$#&|<>`!\\=~-][^\s'\"();*$#&|<>`!\\=]*", chosen) and where and os.path.basename(where[0]) != "closed" and os.access(f"{where[0]}/{chosen}", os.X_OK) and not os.path.islink(f"{where[0]}/{chosen}")
        if chosen in ("hold", "sink") and runs:
            runs = False
        if runs and rng.random() < .7:
            s.expect()
            s.key(f" /run{s.tags}\r".encode())
            e = s.until(lambda: s.started(f"/run{s.tags}"), f"after choosing {chosen!r} it is not executed: {s.raw[-200:]!r}", 8)
            if [b2s(a) for a in e["argv"]] != [chosen, f"/run{s.tags}"]:
                raise Bad(f"after choosing {chosen!r} {e['argv']} is executed")
            s.seen["choices executed"] += 1
            s.prompt()
        elif "'" in chosen:
            s.discard()
        else:
            s.expect()
            s.key(f"\x01{tools}/prt '\x05' /arg{s.tags}\r".encode())
            e = s.until(lambda: s.started(f"/arg{s.tags}"), f"after choosing {chosen!r} the line is something else: {s.raw[-200:]!r}", 8)
            if [b2s(a) for a in e["argv"]][1:] != [chosen, f"/arg{s.tags}"]:
                raise Bad(f"after choosing {chosen!r} the line is {e['argv'][1:]}")
            s.seen["lines compared"] += 1
            s.prompt()

    def rule(self):
        return "a case is distinct by its PATH, prefixes and choices; the names displayed are compared with the directories, the line afterwards by what it executes"


if __name__ == "__main__":
    import sys, tempfile, build
    os.setgroups([]); 
    top = tempfile.mkdtemp(); os.mkdir(top + "/b"); os.mkdir(top + "/s")
    build.build(top + "/b")
    ctx = core.Ctx(top + "/b", top + "/s", "quick", 1)
    with ctx.box() as box:
        t = Term(box)
        t.sync(); print(t.raw); n = len(t.raw)
        t.line("hold a"); t.until(lambda: t.started("a"), "x"); print(t.canon(), t.raw[n:]); n = len(t.raw)
        t.key(b"\x03"); t.prompt(); print(t.raw[n:]); n = len(t.raw)
        t.sync(); print(t.raw[n:]); n = len(t.raw)
        t.line("hold b | hold c"); t.until(lambda: t.started("c"), "x"); t.key(b"\x1a"); t.prompt(); print(t.raw[n:]); n = len(t.raw)
        t.line("jobs"); print(t.sync()); n = len(t.raw)
        t.key(b"abc\x03"); time.sleep(.1); print(t.sync()); t.key(b"\x04"); time.sleep(.3); t.pump(.1); print(t.notes, t.raw[-40:])
        t.finish()
    import shutil; shutil.rmtree(top)
