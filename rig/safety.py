"""What signals and odd programs do to the inside of the shell: re-entered allocators, AddressSanitizer (C29)."""
import os, time
import core, extra, jobs, term
from core import Check, Inconclusive, Outcome, kids_of, pstat
from jobs import Bad


class Prog(extra.BgSeq):
    id = "C00"
    weights = dict(extra.ALL, chain=3, pipe=4, subst=3, stat=3)
    fields = ("argv", "exe", "x", "out", "rc", "files", "order")
    modes = ["stdin"]
    bgweight = 12
    size = (3, 12)


class Sess(jobs.C20):
    id = "C00"
    delays = 0


class Keys(term.C28):
    id = "C00"


class Tabs(term.C25):
    id = "C00"


class Nascent(jobs.JobCheck):
    """signals for processes that have hardly been started (part of C21)"""
    id = "C00"
    weights = {"nascent": 6, "bg": 1, "cmd": 1, "job": .5}
    steps = (4, 12)
    delays = .8

    def open(self, rng, box):
        pre = None
        if rng.random() < self.delays:
            pm, us = rng.choice([(300, 3000), (700, 1000), (900, 500), (1000, 3000)])
            pre = {"SHIM_DELAY": f"{rng.randrange(1 << 30)}:{pm}:{us}"}
        return jobs.Session(box, pre)

    def t_nascent(self, rng, s):
        s.sync()
        old = set(kids_of(s.pid))
        s.tags += 1
        h, k = f"h{s.tags}", f"/n{s.tags}"
        kind, line = rng.choice([("bg", f"hold {h} &"), ("bg", f"hold {h} | sink 0 &"), ("fg", f"hold {h}"), ("fg", f"a=1 hold {h} > /dev/null"), ("sub", f"prt \"$(hold {h})\""), ("sub", f"v=$(hold {h})")])
        sig = rng.choice([15, 15, 2, 2, 1, 10, 14, 9] + ([3] if kind == "bg" else []))
        s.send(line, f"pr {k}")
        end = time.monotonic() + jobs.SLOW
        while True:
            new = [p for p in kids_of(s.pid) if p not in old]
            if new or s.p.poll() is not None:
                break
            if time.monotonic() > end:
                raise Bad(f"{line!r} starts nothing: " + s.how())
        if not new:
            raise Bad("the shell has ended: " + s.how())
        pid = min(new)
        time.sleep(rng.choice([0, 0, 0, .0003, .001, .003]))
        st = pstat(pid)
        if not st or st[1] != s.pid:
            raise Inconclusive("the process was gone before it got its signal")
        os.kill(pid, sig)
        s.say(f"(signal {sig} for its first process)")
        end = time.monotonic() + 8
        while True:
            st = pstat(pid)
            if not st or st[1] != s.pid or st[0] == "Z":
                break
            if time.monotonic() > end:
                raise Bad(f"signal {sig} had no effect on the process {pid} of {line!r}, which it reached soon after it was started")
            time.sleep(.001)
        s.box.control(h, "x 0")            # whatever else there is
        s.until(lambda: s.started(k), "the shell does not go on")
        s.sync()
        s.until(lambda: not [p for p in kids_of(s.pid) if p not in old], "the processes do not go away")
        s.seen["signals for processes just started"] += 1


class C29(Check):
    id = "C29"
    technique = "runtime monitoring: signals injected into the memory allocator and re-entrance detected by an interposed allocator; AddressSanitizer build under the same workloads"
    note = ("Signals are made to arrive while the shell is within malloc, realloc, calloc or free; other functions that must not be re-entered (stdio of C, locks of the Rust library) are only covered by their deadlocks and panics. "
            "AddressSanitizer sees invalid accesses of the executions that happen, not of others.")
    asan = "always"
    quick_n, thorough_n = 1600, 40000
    quick_s = 110
    kinds = ["prog"] * 6 + ["sess"] * 3 + ["keys"] * 2 + ["tabs"]

    def case(self, rng, i, ctx):
        if not hasattr(self, "subs"):
            self.subs = {"prog": Prog(), "sess": Sess(), "keys": Keys(), "tabs": Tabs()}
        kind = self.kinds[i % len(self.kinds)]
        asan = os.path.join(ctx.bindir, "rsh-asan")
        plain = ctx.rsh
        log = os.path.join(ctx.scratch, "shimlog")
        try:
            if rng.random() < .25:
                ctx.rsh = asan
                ctx.extra = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:handle_abort=0:log_path=" + log}
                ctx.stats["runs of the AddressSanitizer build"] += 1
            else:
                sigs = 1 << 2 | 1 << 20 if kind in ("prog", "sess") and rng.random() < .5 else 0
                pm, us = rng.choice([(100, 1000), (300, 700), (30, 5000), (600, 200)])
                if kind in ("keys", "tabs"):
                    pm, us = rng.choice([(3, 1000), (10, 300), (30, 100)])
                ctx.extra = {"SHIM_ALLOC": f"{rng.randrange(1 << 30)}:{pm}:{us}:{sigs}", "SHIM_LOG": log}
            ctx.stats["kind " + kind] += 1
            out = self.subs[kind].case(rng, i, ctx)
        finally:
            ctx.rsh, ctx.extra = plain, {}
            notes, reports = [], []
            for f in os.listdir(ctx.scratch):
                if f == "shimlog":
                    with open(os.path.join(ctx.scratch, f)) as g:
                        notes = g.read().split("\n")
                    os.unlink(os.path.join(ctx.scratch, f))
                elif f.startswith("shimlog."):
                    with open(os.path.join(ctx.scratch, f), errors="replace") as g:
                        reports.append(g.read())
                    os.unlink(os.path.join(ctx.scratch, f))
        again = []
        for l in notes:
            w = l.split()
            if len(w) == 5:
                if w[1] == "total-slow":
                    ctx.stats["allocator calls during which signals could arrive"] += int(w[2])
                elif w[1] == "total-raised":
                    ctx.stats["signals raised within the allocator"] += int(w[2])
                elif w[1] == "total-again":
                    ctx.stats["signals after an interrupted system call"] += int(w[2])
                elif w[1].startswith("reentered-"):
                    again.append(w[1][10:])
        if again:
            out.fail("a signal handler called " + again[0] + " while the shell was within the memory allocator", workload=kind, calls=again[:20], sample=out.sample)
        for r in reports:
            if "AddressSanitizer" in r:
                out.fail("AddressSanitizer: " + r[:200].split("\n")[1 if r.startswith("=") and "\n" in r else 0], workload=kind, report=r[:4000], sample=out.sample)
        out.key = f"{kind} {out.key}"
        return out

    def rule(self):
        return ("a case is a program with background commands, a job control session, a session of keys at a terminal or one of completions, each with signals arriving within the memory allocator or with the AddressSanitizer build; "
                "cases are distinct by their text or history")
