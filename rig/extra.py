"""Checks of what the model does not talk about: descriptors, signal state, timing, faults, arbitrary input."""
import collections, hashlib, os, re, signal
import core, gen, model
from core import Check, Inconclusive, Outcome, b2s
from seqs import Seq

ALL = {"cmd": 2, "prt": .5, "asg": 1, "show": .7, "subst": 2, "subeffect": .7, "chain": 1.5, "list": 1, "bang": .5, "func": 1.5, "call": 1.5, "nest": .5, "pipe": 3, "widepipe": .2,
       "redir": 3, "catall": .5, "alias": .5, "aluse": .7, "eval": 1, "source": 1, "cd": .7, "export": .7, "prefix": .5, "prefixpipe": .5, "unset": .3, "notfound": 1, "badfun": 1, "nogroup": .3, "execfail": 1,
       "stat": 1.5, "bypath": .5, "context": .3, "ctxuse": .2, "roattack": .3, "readonly": .3}
TAG = re.compile(r"^/(BG|sg)\d+$")
BGNOTE = re.compile(rb"\[\d+\] \(\d+\) Running [^\n]*\n|Job \[\d+\] \(\d+\) (terminated|stopped) by signal\n?|\[\d+\] (\+ )?\t\t?(Done|Stopped|Running)[^\n]*\n")


class BgGen(gen.Gen):
    """programs with background commands thrown in; their arguments tell them apart from the others"""
    tags = 0
    lively = False

    def setup(self):
        super().setup()
        self.spec = {}                     # tag -> number of further descriptors of each stage, by position

    def s_bg(self):
        r = self.r
        self.tags += 1
        t = f"/BG{self.tags}"
        n = r.choice([1, 1, 1, 2, 2, 3, 5])
        first = ["pr {}", "slp {ms} 0 {}", "slp {ms} 3 {}", "die {sig} {}", "put 'some\\ntext' {}", "gen {n} 5 {}", "slf {sig} {}", "no_such {}", "rc 4 {}", "pr {} 7>/dev/null", "pr {} 4</dev/null", "pr {} < in",
                 "stp {stop} 0 {}", "bgf {}", "a=1 pr {}", "/no/such {}", "pr {} < none", "pr {} > /no/such", "prt \"$(pr {s})\" {0}"]
        later = ["sink 0 {}", "xor 3 {}", "xor 1 {} >/dev/null", "slp {ms} 1 {}", "die {sig} {}", "pr {}", "cnt 0 {}", "no_such {}", "slf {sig} {}", "rc 1 {}"]
        st = []
        for k in range(n):
            x = r.choice(first if k == 0 else later)
            if n > 1 and ("bgf" in x or "stp" in x):
                x = "pr {}"
            st.append(x.format(t, s=t.replace('BG', 'sg'), ms=r.choice([0, 1, 2, 5, 10, 30]), n=r.choice([0, 10, 5000, 200000]), sig=r.choice([1, 2, 3, 6, 9, 11, 13, 14, 15, 10, 34, 64]), stop=r.choice([19, 19, 20, 21])))
        if n == 1 and any(w in st[0] for w in ("put ", "gen ", "prt ")):
            st[0] += " >/dev/null"
        elif n > 1 and any(w in st[-1] for w in ("xor ", "cnt ")) and "/dev/null" not in st[-1]:
            st[-1] += " > /dev/null"
        return [" | ".join(st) + " &"]

    def s_pfd(self):
        return "pfd"

    def ok(self, lines):
        if len(lines) == 1 and lines[0].endswith("&") and "/BG" in lines[0]:
            if self.m.exited is not None:
                return False
            self.m.status = 0
            self.m.bg.add(lines[0])
            self.lines += lines
            return True
        return super().ok(lines)

    def replay(self):
        m = super().replay()
        m.bg = set(self.m.bg)
        return m


class BgSeq(Seq):
    modes = ["stdin", "stdin", "script"]
    bgweight = 3
    size = (4, 14)
    gencls = BgGen

    def gen(self, rng, i, ctx, box, mode, **o):
        w = dict(self.weights)
        if mode != "c":
            w["bg"] = self.bgweight
        g = self.gencls(rng, box, mode, w, allow=self.allow, **o)
        if mode != "c":
            g.ok(["bgf() { pr $1 ; slp 3 0 $1 ; pr $1 | sink 0 $1 ; rc 3 $1 ; }"])
        return g

    def judge(self, g, m, res, out, fields=None):
        """the background commands are taken out and looked at on their own"""
        res.bg = []
        pids = set()
        rest = []
        for e in res.events:
            if e["e"] == "S" and any(TAG.match(b2s(a)) for a in e["argv"]):
                pids.add(e["pid"])
            else:
                if e["e"] == "S":
                    pids.discard(e["pid"])
            (res.bg if e["pid"] in pids else rest).append(e)
        res.all, res.events = res.events, rest
        res.out = BGNOTE.sub(b"", res.out)
        if m.mode == "stdin":
            res.out = model.strip_chatter(res.out)
        return super().judge(g, m, res, out, fields)

    def count(self, ctx, g, m, res):
        super().count(ctx, g, m, res)
        ctx.stats["background commands seen"] += sum(e["e"] == "S" for e in getattr(res, "bg", ()))


class C07(BgSeq):
    id = "C07"
    technique = "runtime monitoring: descriptor tables of every started command and of the shell"
    weights = dict(ALL, pfd=4, redir=6, pipe=4, widepipe=.6, subst=3)
    fields = ("argv",)
    modes = ["stdin", "stdin", "script", "c"]
    size = (5, 18)
    quick_n = 4000

    def make(self, rng, i, ctx, box):
        self.size = (60, 120) if i % 60 == 7 else C07.size
        g = super().make(rng, i, ctx, box)
        if g.m.exited is None:
            g.ok(["pfd"])
        return g

    def judge(self, g, m, res, out, fields=None):
        bad = super().judge(g, m, res, out, ())
        if bad:
            return bad
        home = os.path.dirname(m.w)
        say = lambda what, **k: out.fail(what, program=g.shown, mode=g.mode, **k)
        cmds = model.norm(res, m.mode)
        first = None
        for e in (e for e in res.all if e["e"] == "S"):
            if "pfds" in e:
                t = {n: v[0] for n, v in e["pfds"].items()}
                self.seen["descriptor tables of the shell"] += 1
                if first is None:
                    first = t
                elif t != first:
                    say(f"the shell's descriptors changed from {first!r} to {t!r}")
                    return
        stdin = res.stdin

        def wrong(ev, e):
            fds = {int(n): v for n, v in e["fds"].items()}
            if set(fds) != set(ev.fds):
                return f"has the descriptors {sorted(fds)} instead of {sorted(ev.fds)}: {({n: v[0] for n, v in fds.items()})}"
            for n, o in ev.fds.items():
                target, flags = b2s(fds[n][0]), fds[n][1]
                if o.kind == "file":
                    ok = target in (o.path, o.path + " (deleted)") and flags & 3 == (0 if o.mode == "r" else 1) and bool(flags & os.O_APPEND) == (o.mode == "a")
                    want = f"{o.path} ({o.mode})"
                elif o.kind == "null":
                    ok, want = target == "/dev/null", "/dev/null"
                elif o.kind == "pipe":
                    ok, want = target.startswith("pipe:") and target != stdin and flags & 3 == (0 if n == 0 else 1), "a pipe"
                elif o.kind == model.STDIN:
                    ok, want = target == stdin and (g.mode == "stdin") == target.startswith("pipe:"), f"the shell's input {stdin}"
                elif ev.sub:
                    ok, want = target.startswith("pipe:") and target != stdin, "the pipe of the substitution"
                else:
                    want = f"{home}/out" if o.kind == model.STDOUT else f"{home}/err"
                    ok = target == want
                if not ok:
                    return f"has as descriptor {n} {target} (flags {flags:o}) instead of {want}"

        pos = 0
        for group in m.events:
            got = cmds[pos:pos + len(group)]
            pos += len(group)
            pairs = model.assign_events(group, got, ("exe", "x"), wrong)
            for ev in group:
                e = pairs.get(id(ev))
                if e is None:
                    continue
                self.seen["descriptor tables of commands"] += 1
                w = wrong(ev, e)
                if w:
                    say(f"{ev.argv!r:.300} {w}")
                    return
            ends = collections.defaultdict(lambda: ([], []))
            place = {}
            for ev in group:
                e = pairs.get(id(ev))
                if e is not None:
                    place[ev.pos[0]] = (ev, tuple(e["argv"]))
                    for n in (0, 1):
                        t = e["fds"].get(str(n), [""])[0]
                        if t.startswith("pipe:") and t != stdin:
                            ends[t][n].append(tuple(e["argv"]))
            if any(len(r) > 1 or len(w) > 1 and r for r, w in ends.values()):
                say("two commands share an end of a pipe", pipeline=repr(group), ends=repr(dict(ends)))
                return
            made = collections.Counter((w[0], r[0]) for r, w in ends.values() if r and w)
            want = collections.Counter((place[k][1], place[k + 1][1]) for k in place if k + 1 in place and place[k][0].fds[1].kind == "pipe" and place[k + 1][0].fds[0].kind == "pipe")
            if made != want:
                say("the commands of a pipeline are not connected as written", pipeline=repr(group), connected=repr(made), expected=repr(want))
                return
        for e in res.bg:
            if e["e"] == "S":
                self.seen["descriptor tables of background commands"] += 1
                argv = [b2s(a) if not isinstance(a, str) else a for a in e["argv"]]
                tag = next(a for a in argv if TAG.match(a))
                line = next((l for l in g.m.bg if tag in re.split("[ \")]", l)), "")
                fds = {int(n) for n in e["fds"]}
                more = {int(n) for n in re.findall(r" (\d)[<>]", line)} if argv[0] == "pr" and "bgf" not in line else set()
                # of several alike, only the first stage has the redirection
                if fds != {0, 1, 2} | more and (not more or "|" not in line or fds != {0, 1, 2}):
                    say(f"the background command {argv} of {line!r} has the descriptors {sorted(fds)}", got={n: v[0] for n, v in e["fds"].items()})
                    return

    def case(self, rng, i, ctx):
        if i % 10 == 9:
            import safety
            return safety.Nascent().case(rng, i, ctx)
        self.seen = collections.Counter()
        o = super().case(rng, i, ctx)
        ctx.stats.update(self.seen)
        return o

    def rule(self):
        return super().rule() + "; the descriptors of every command are compared with what its place and its redirections call for, and the shell's own with those at the first command"


class C21(BgSeq):
    id = "C21"
    technique = "runtime monitoring: signal masks, dispositions and process groups of every started command"
    weights = ALL
    fields = ("argv", "x", "out", "rc")
    modes = ["stdin", "stdin", "stdin", "script", "c"]
    bgweight = 6

    def judge(self, g, m, res, out, fields=None):
        bad = super().judge(g, m, res, out, fields)
        if bad:
            return bad
        subs = {}
        pos = 0
        cmds = model.norm(res, m.mode)
        for group in m.events:
            for e in cmds[pos:pos + len(group)]:
                subs[id(e)] = group[0].sub
            pos += len(group)
        bgpids = {id(e) for e in res.bg}
        for e in res.all:
            if e["e"] != "S":
                continue
            what = f"{[str(a) for a in e['argv']]}"[:200]
            self.seen["signal states seen"] += 1
            for k, n in (("blk", "blocked"), ("ign", "ignored"), ("cgt", "handled")):
                v = int(e[k], 16)
                if v & ((1 << 31) - 1 | ~((1 << 64) - 1 >> 0) | (((1 << 64) - 1) ^ ((1 << 34) - 1))):
                    out.fail(f"{what} starts with {n} signals {[s for s in range(1, 65) if v >> s - 1 & 1]}", program=g.shown, mode=g.mode)
                    return
            if any(a.startswith('/sg') for a in e['argv']):
                pass
            elif id(e) in bgpids:
                self.seen["process groups of background commands seen"] += 1
                if e["pgid"] == res.pid:
                    out.fail(f"the background command {what} is in the shell's process group", program=g.shown, mode=g.mode)
                    return
            else:
                self.seen["process groups of foreground commands seen"] += 1
                if e["pgid"] != res.pid:
                    out.fail(f"the foreground command {what} is not in the shell's process group", program=g.shown, mode=g.mode, group=e["pgid"], shell=res.pid)
                    return

    def case(self, rng, i, ctx):
        if i % 10 == 9:
            import safety
            return safety.Nascent().case(rng, i, ctx)
        self.seen = collections.Counter()
        o = super().case(rng, i, ctx)
        ctx.stats.update(self.seen)
        return o


class C27(BgSeq):
    id = "C27"
    technique = "runtime monitoring: injected delays around the shell's process and signal calls, event logs against a reference model"
    weights = dict(ALL, chain=3, pipe=4, subst=3, stat=3)
    fields = ("argv", "exe", "x", "out", "rc", "files", "order")
    modes = ["stdin", "stdin", "stdin", "script"]
    bgweight = 9
    size = (3, 10)
    quick_n, thorough_n = 3000, 40000

    def run(self, g, text, box, mode, rng):
        real = core.run
        pm, us = rng.choice([(50, 3000), (200, 1000), (500, 300), (900, 100), (30, 12000), (300, 1500)])
        pre = {"SHIM_DELAY": f"{rng.randrange(1 << 30)}:{pm}:{us}", "SHIM_LOG": f"{box.home}/shim"}
        core.run = lambda *a, **k: real(*a, preload=pre, **k)
        try:
            return super().run(g, text, box, mode, rng)
        finally:
            core.run = real

    def count(self, ctx, g, m, res):
        super().count(ctx, g, m, res)
        try:
            for l in open(f"{os.path.dirname(m.w)}/shim"):
                if " total-delay " in l:
                    ctx.stats["delays injected into the shell"] += int(l.split()[2])
        except FileNotFoundError:
            pass
        pids, sig = {}, ""
        for e in res.all:
            sig += f"{e['e']}{pids.setdefault(e['pid'], len(pids))}"
        h = hashlib.sha1(sig.encode()).hexdigest()
        if not hasattr(ctx, "orders"):
            ctx.orders = set()
        if h not in ctx.orders:
            ctx.orders.add(h)
            ctx.stats["distinct orders of starts and ends (per worker)"] += 1


class C26(Check):
    id = "C26"
    level = "fault_enumeration"
    technique = "runtime monitoring with fault injection: every fork and pipe call of generated programs made to fail in turn"
    note = ("For every generated program each single fork and pipe call the shell (or its substitution subshells) makes is failed once, and some runs of consecutive ones; "
            "the programs are random, the faults of each are enumerated. Faults are injected by an LD_PRELOAD shim in front of libc's fork and pipe.")
    quick_n, thorough_n = 250, 4000
    quick_s = 100
    FILL = {"cmd": 2, "asg": 1, "show": .7, "subst": 2, "subeffect": .7, "chain": 1.5, "list": 1, "func": 1, "call": 1.5, "pipe": 3, "redir": 2, "eval": 1, "source": 1, "cd": .5, "export": .5, "prefixpipe": .5, "notfound": 1,
            "badfun": .5, "execfail": .5, "stat": 1, "aluse": .5, "alias": .3}

    def templates(self, rng, j, mode):
        """(line, checker) where checker gets what the line's commands were and says what is wrong"""
        simple = rng.choice([f"rc 0 t{j}", f"pr t{j} 'a b'", f"put 'x' t{j} >/dev/null", f"put t{j} | sink", f"gen 200000 {j} | sink", f"put t{j} | xor 1 | sink", f"pr t{j} | pr | pr | pr | pr",
                             f"put t{j} | cat | cat | cat > /dev/null", f"a=1 pr t{j}", f"gen 100 1 | rc 0 t{j}", f"gen 90000 1 | xor 1 | head 10 | sink"])
        x = rng.random()
        if x < .55:
            return f"{simple} && prt ok{j} || prt ko{j}", ("status", j)
        if x < .62:
            return f"! {simple} || prt ok{j}", None
        if x < .82:
            v = rng.choice([f"v{j}=\"$(put in{j})\" ; prt \"<$v{j}>\" arg{j}", f"prt \"<$(put in{j})>\" arg{j}", f"v{j}=$(put in{j}) ; prt \"<$v{j}>\" arg{j}", f"prt \"<$(put in{j} | cat | cat)>\" arg{j}", f"prt \"<`put in{j}`>\" arg{j}",
                            f"v{j}=\"$(put in{j})\" prt \"<$(put in{j})>\" arg{j}"])
            return v, ("sub", j)
        if x < .9:
            return f"zf{j}() {{ {simple} ; pr in{j} ; }} ; zf{j} && prt ok{j} || prt ko{j}", None
        if mode == "stdin":
            return rng.choice([f"pr bg{j} &", f"pr bg{j} | sink &", f"gen 90000 1 | xor 1 | sink 0 bg{j} &", f"slp 2 0 bg{j} | pr bg{j} &"]), ("bg", j)
        return "eval '" + simple.replace("'", "") + f"' && prt ok{j}", None

    def case(self, rng, i, ctx):
        with ctx.box() as box:
            mode = rng.choice(["stdin", "stdin", "script", "c"])
            g = gen.Gen(rng, box, mode, self.FILL)
            units, kinds = [["pfd"]], [None]
            for j in range(rng.randint(2, 5)):
                if rng.random() < .6:
                    t, k = self.templates(rng, j, mode)
                    units.append([t])
                    kinds.append(k)
                else:
                    n = len(g.lines)
                    g.build(1)
                    if g.m.exited is not None:
                        return Outcome(nontrivial=False)
                    if len(g.lines) > n:
                        units.append(g.lines[n:])
                        kinds.append(None)
                units.append([f"sync {j}"])
                kinds.append(("sync", j))
            rec = ["sync gap", "sync gap", "sync gap", "prt recovered | xor 0 r", 'rec="$(put sub | xor 0 s)" ; prt "[$rec]"', "rc 7 || prt status", "prt list ; prt list2", "pfd end"]
            g.materialize()
            text = "\n".join("\n".join(u) for u in units) + "\n" + "\n".join(rec) + "\n"
            k = 0

            def run(fault):
                nonlocal k
                k += 1
                with open(box.log, "w"):
                    pass
                for f in ("out", "err", "shim"):
                    if os.path.exists(f"{box.home}/{f}"):
                        os.unlink(f"{box.home}/{f}")
                pre = dict(fault, SHIM_LOG=f"{box.home}/shim")
                if mode == "stdin":
                    r = core.run(box, [], stdin=text.encode("utf-8", "surrogateescape"), env=g.env, preload=pre)
                elif mode == "c":
                    r = core.run(box, ["-c", text], stdin=None, env=g.env, preload=pre)
                else:
                    with open(f"{box.home}/prog", "wb") as f:
                        f.write(text.encode("utf-8", "surrogateescape"))
                    r = core.run(box, ["../prog"], stdin=None, env=g.env, preload=pre)
                left = core.reap_all()
                r.notes = [l.split() for l in open(f"{box.home}/shim")] if os.path.exists(f"{box.home}/shim") else []
                r.cmds = model.norm(r, mode)
                return r

            base = run({})
            out = Outcome(key=text, sample={"mode": mode, "program": text[:600]}, nontrivial=False)
            if base.hang or base.panic or not self.recovered(base.cmds):
                raise Inconclusive(f"does not get to its end without faults: rc {base.rc} {base.err!r}"[:300])
            end = min(e["t"] for e in base.cmds if e["argv"] == ["sync", "gap"])
            count = {w: max([int(n[2]) for n in base.notes if n[1] == w and int(n[4]) < end] or [0]) for w in ("fork", "pipe")}
            ctx.stats["programs"] += 1
            pfd = [e for e in base.cmds if e["argv"][0] == "pfd"]
            plan = [(w, n, 1) for w in count for n in range(2 if w == "fork" else 1, count[w] + 1)]       # the first fork is for pfd
            plan += [(w, n, m) for w, n, _ in rng.sample(plan, min(3, len(plan))) for m in (2, 3)]
            if len(plan) > 60:
                plan = rng.sample(plan, 60)
                ctx.stats["programs whose faults were sampled"] += 1
            for w, n, m in plan:
                fault = {"SHIM_FAIL": f"{w}:{n}:{m}", "SHIM_ERRNO": str(rng.choice([11, 12] if w == "fork" else [23, 24]))}
                r = run(fault)
                fails = [x for x in r.notes if x[1].startswith("fail")]
                if not fails:
                    ctx.stats["faults that did not come up"] += 1
                    continue
                out.nontrivial = True
                ctx.stats[f"failed {w} calls" + ("" if m == 1 else f", several in a row")] += 1
                ctx.stats["failed calls in substitutions"] += any(x[3] != "0" for x in fails)
                wrong = self.wrong(r, base, units, kinds, fails, m, mode)
                if wrong:
                    out.fail(wrong, program=text, mode=mode, fault=fault, failed=repr(fails), started=repr([e["argv"] for e in r.cmds])[:3000], stdout=model.esc(r.out), stderr=model.esc(r.err), rc=r.rc)
                    return out
            return out

    def recovered(self, cmds):
        want = [["prt", "recovered"], ["xor", "0", "r"], ["put", "sub"], ["xor", "0", "s"], ["prt", "[sub]"], ["rc", "7"], ["prt", "status"], ["prt", "list"], ["prt", "list2"], ["pfd", "end"]]
        names = [e["argv"] for e in cmds if e["argv"] in want]         # a background command may come in between
        k = next((k for k, a in enumerate(names) if a == ["prt", "recovered"] or a == ["xor", "0", "r"] and ["prt", "recovered"] in names[k + 1:k + 2]), None)
        if k is None:
            return False
        tail = names[k:]
        return sorted(tail[:2]) == sorted(want[:2]) and sorted(tail[2:4]) == sorted(want[2:4]) and tail[4:] == want[4:]

    def wrong(self, r, base, units, kinds, fails, m, mode):
        if r.hang:
            return "the shell did not end: " + r.where
        if r.panic:
            return "the shell panicked"
        if r.rc != 0:
            return f"the shell ended with status {r.rc}"
        names = [e["argv"] for e in r.cmds]
        last = max(int(x[4]) for x in fails)
        if last > max([e["t"] for e in r.cmds if e["argv"] == ["sync", "gap"]] or [last]):
            return None                       # a fault hit the last part as well
        if not self.recovered(r.cmds):
            return "after the fault later commands did not run as usual"
        pf = [e for e in r.cmds if e["argv"][0] == "pfd"]
        if "pfds" in pf[0] and len(pf) > 1:
            a, b = ({n: v[0] for n, v in e["pfds"].items()} for e in (pf[0], pf[-1]))
            if a != b:
                return f"the shell's descriptors went from {a!r} to {b!r}"
            if pf[-1]["kids"]:
                return f"processes were left behind: {pf[-1]['kids']!r}"
        if any(x[3] == "0" for x in fails) and r.err == base.err:
            return "no message was printed"
        # the lines one by one
        times = {e["argv"][1]: e["t"] for e in r.cmds if e["argv"][0] == "sync" and e["argv"][1:] != ["gap"]}
        lo = min(e["t"] for e in r.cmds)
        for u, kind in zip(units, kinds):
            if kind is None:
                continue
            j = str(kind[1])
            if kind[0] == "sync":
                later = [t for k2, t in times.items() if int(k2) > int(j)]
                hi = min(later) if later else min(e["t"] for e in r.cmds if e["argv"] in (["sync", "gap"], ["prt", "recovered"]))
                if j not in times and not any((lo or 0) <= int(x[4]) <= hi for x in fails):
                    return f"the line 'sync {j}' was not executed"
                lo = times.get(j)
                continue
            hi = times.get(j)
            if hi is None or lo is None:
                continue
            hit = [x for x in fails if lo <= int(x[4]) <= hi]
            args = [a for e in r.cmds for a in [e["argv"]]]
            if kind[0] == "status":
                ok, ko = ["prt", f"ok{j}"] in args, ["prt", f"ko{j}"] in args
                if not hit and (not ok or ko):
                    return f"line {u[0]!r}, which no fault has hit, went wrong"
                if len(hit) == 1 and not ko:
                    return f"the failing command in {u[0]!r} did not have a non-zero status"
            elif kind[0] == "sub":
                got = [a[1] for a in args if a[0] == "prt" and a[2:] == [f"arg{j}"]]
                if not hit and got != [f"<in{j}>"]:
                    return f"line {u[0]!r}, which no fault has hit, went wrong"
                if any(x not in (f"<in{j}>", "<>") and all(h[3] == "0" for h in hit) for x in got) or len(got) > 1:
                    return f"line {u[0]!r} ran with {got!r}"
                if len(hit) == 1 and not got and ["put", f"in{j}"] not in args:
                    return f"in line {u[0]!r} the command was not executed after its substitution had failed"
        return None

    def rule(self):
        return ("a case is a random program, executed once for every fork and pipe call it makes with just that call failing (and some with 2 or 3 in a row failing), with the documented errors; "
                "it counts if at least one fault came up; programs are distinct by their text")


class C22(Check):
    id = "C22"
    technique = "runtime monitoring: fuzzed lines, each followed by a command that has to run; AddressSanitizer build in the thorough tier"
    note = ("Random, mutated and hostile lines (up to a few kilobytes, some with bytes that are not UTF-8); after every line the shell has to execute the next one, and must not panic, die or hang. "
            "Lines that may legitimately end the shell (exit, exec) or eat its input are only judged for crashes.")
    quick_n, thorough_n = 8000, 100000
    asan = True
    WORDS = ["pr", "pa", "rc", "rc 3", "put", "prt", "pv", "a", "b", "f", "g", "cd", "export", "unset", "readonly", "alias", "unalias", "eval", "return", "fg", "bg", "jobs", "pwd", "source", ".", "context", "self", "-p", "-a", "-c", "-v",
             "-f", "-l", "n=lib", "lib", "none", "X=1", "Y=", "=", '"', "'", "`", "$(", "$", "(", ")", "{", "}", "()", "f()", "|", "||", "&&", "&", ";", "#", "!", "<", ">", ">>", "2>", "1<", "x::y", "n::X", "$n::X", "$X", "$1", '"$X"',
             "'a b'", '"a $(pr b)"', "%1", "%", "1", "-1", "99999999999", "é", "\\", "*", "?", "[", "]", "~", "if", "for", "in", "do", "done", "while", "until", "case", "esac", "then", "fi", "\t", " ", "  ", "\x01", "::", "X::",
             "::X", "$::", '"$::"', '"$"', "$$", "0", "é=1", "A=b=c", "''", '""', "9>x", "999999<x", "12>x", "/bin", "/", "..", "~/x", "-", "--", "\r", "\x0b", "\u00a0", "\u3000", "\x00", "exit", "exec", "exit 3", "exec -a", "export -p", "\x7f", "\x1b[A",
             "unset -f", "readonly X", "alias a=b", "alias a='pr \"x'", "unalias -a", "cd ''", "fg %1", "bg %2", "pr &", "rc 1 &", "PS1=x", "PS4=", "PATH=", "unset PATH", "unset HOME", "cd", "eval 'pr '", "eval '('", "source lib", ". /", "\ufeff", "\U0001f980",
             "<<", "<<<", "<&", ">&", "2>&1", "&>", ">|", "<>", "((", "[[", "$((", "${", "${X}", "$@", "$*", "$?", "$#", "$!", "function", "select", "time", "coproc", "\\\n"]

    def soup(self, r):
        return "".join(r.choice(self.WORDS) + r.choice(["", " ", " ", " "]) for _ in range(r.choice([1, 2, 3, 4, 6, 9, 14, 25])))

    def chars(self, r):
        n = r.choice([1, 2, 3, 5, 8, 20, 60])
        k = r.randrange(4)
        if k == 0:
            return "".join(r.choice("ab \t'\"$`\\#;|&<>(){}!*=~-0:1.\x01\x7fé\u2028") for _ in range(n))
        if k == 1:
            return "".join(chr(r.choice([r.randrange(1, 128), r.randrange(1, 128), r.randrange(128, 0xd800), r.randrange(0xe000, 0x110000)])) for _ in range(n))
        if k == 2:
            return r.choice(["'", '"', "$", "`", "\\", ";", "&", "|", "<", ">", "!", "#", "=", "a", " ", "\t", "a ", "$a", "a=b ", "pr;", "pr|", "''", '""', "()", "{}", "a&&", "! ", ">a ", "$(pr)"]) * r.choice([2, 3, 10, 100, 700])
        return r.choice(["pr ", "prt ", "X=", "cd ", ". ", "export ", "alias ", "unset ", "$", '"$', "fg ", "eval ", "f() { pr; } ; f "]) + "".join(chr(r.choice([r.randrange(33, 127), r.randrange(0xa0, 0x500)])) for _ in range(n))

    def abuse(self, r):
        b = r.choice(sorted(set(model.BUILTINS) - {"exit", "exec"}) + ["exit", "exec"])
        return " ".join([b] + [r.choice(gen.HOSTILE[:70] + ["X", "n", "context", "n=lib", "lib", "X=1", "-p", "-f", "-v", "-a", "%1", "%0", "1", "99", "self", "a=b=c", "::", "a::b", "$X", "'x y'", "/", "none", "-px", "-pf"]) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 5]))])

    def mutate(self, r, l):
        for _ in range(r.choice([1, 1, 2, 3])):
            k, p, q = r.randrange(7), r.randrange(len(l) + 1), r.randrange(len(l) + 1)
            p, q = min(p, q), max(p, q)
            if k == 0:
                l = l[:p] + l[p + 1:]
            elif k == 1:
                l = l[:p] + r.choice("'\"$`\\#;|&<>(){}!= \t:") + l[p:]
            elif k == 2:
                l = l[:p] + l[q:]
            elif k == 3:
                l = l[:p] + l[p:q] * 2 + l[q:]
            elif k == 4:
                l = l[:p] + r.choice(self.WORDS) + l[p:]
            elif k == 5 and len(l) > 2:
                p = min(p, len(l) - 2)
                l = l[:p] + l[p + 1] + l[p] + l[p + 2:]
            else:
                l = l[:p]
        return l

    def case(self, rng, i, ctx):
        with ctx.box() as box:
            r = rng
            mode = r.choice(["stdin", "stdin", "script", "script", "c"])
            g = gen.Gen(r, box, "script", dict(ALL, context=1.5, ctxuse=1.5, readonly=1, allist=1, unalias=1, unsetf=1, scope=1, showall=.5))
            with open(f"{box.w}/lib", "w") as f:
                f.write("X=5\nY='a b'\nf() { pr in; }\n")
            lines = []                    # (text, kind)
            for k in range(1 if mode == "c" else r.randint(1, 8)):
                x = r.random()
                if x < .3:
                    l, kind = self.soup(r), "soup"
                elif x < .5:
                    l, kind = self.chars(r), "chars"
                elif x < .65:
                    l, kind = self.abuse(r), "builtin"
                elif x < .9:
                    n = len(g.lines)
                    g.build(1)
                    if len(g.lines) == n or g.m.exited is not None:
                        continue
                    l, kind = self.mutate(r, " ".join(g.lines[n:]) if r.random() < .3 else r.choice(g.lines[n:])), "mutated"
                else:
                    l = r.choice(["pr /bad ; {}", "V=bad ; {}", "zf() {{ pr /bad ; }} ; zf ; {}", "pr /bad && {}", "pr | pr /bad ; {}", "alias sync='pr /bad' ; {}", "cd / ; {}", "prt $(pr /bad) ; {}", "put x > bad ; {}"]).format(r.choice([b for b in model.BAD if mode != "stdin" or model.balanced(b)]))
                    kind = "syntax"
                if kind != "syntax" and r.random() < .06:
                    # bytes that are no UTF-8 text
                    for _ in range(r.choice([1, 1, 2, 5])):
                        p = r.randint(0, len(l))
                        l = l[:p] + chr(0xdc00 + r.choice([0x80, 0xff, 0xc3, 0xe2, 0xf0, r.randrange(0x80, 0x100)])) + l[p:]
                    kind = "bytes"
                if mode != "c":
                    l = l.replace("\n", " ")
                    if mode == "stdin" and not model.balanced(l):
                        l = "".join(c for c in l if c not in "()[]{}")
                        kind = kind if kind != "syntax" else "soup"
                lines.append((l, kind))
            if not lines:
                return Outcome(nontrivial=False)
            g.materialize()
            sync = f"{box.bin}/sync"
            weak = False
            reads = False
            for l, k in lines:
                weak |= "exit" in l or "exec" in l
                reads |= any(w in l for w in ("cat", "sink", "cnt", "head", "xor", "hold", "meet", "rfd", "stp", "slp"))
            for f in g.files.values():
                weak |= b"exit" in f or b"exec" in f
            if mode == "c":
                text = lines[0][0]
            else:
                text = "".join(f"{l}\n{sync} {k}\n" for k, (l, _) in enumerate(lines))
                text += f"prt \"[$V]\"\n{sync} end\nzz9=ok ; {sync} \"$zz9\"\n{box.bin}/rc 3 || {sync} or\n"
            key = "\n".join(l for l, _ in lines)
            data = text.encode("utf-8", "surrogateescape")
            exe = None
            env = dict(g.env)
            asan = os.path.join(ctx.bindir, "rsh-asan")
            if ctx.tier == "thorough" and os.path.exists(asan) and i % 2:
                exe = asan
                env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:handle_abort=0"
                ctx.stats["runs of the AddressSanitizer build"] += 1
            if mode == "stdin":
                res = core.run(box, [], stdin=data, env=env, exe=exe)
            elif mode == "script":
                with open(f"{box.home}/prog", "wb") as f:
                    f.write(data)
                res = core.run(box, ["../prog"], stdin=None, env=env, exe=exe)
            else:
                res = core.run(box, ["-c", text.replace("\0", "")], stdin=None, env=env, exe=exe)
            ctx.stats["mode " + mode] += 1
            for _, k in lines:
                ctx.stats["lines: " + k] += 1
            out = Outcome(key=mode + key, sample={"mode": mode, "lines": [l[:200] for l, _ in lines]})
            say = lambda what: out.fail(what, lines=[l for l, _ in lines], kinds=[k for _, k in lines], mode=mode, rc=res.rc, stdout=model.esc(res.out), stderr=model.esc(res.err), started=[[b2s(a)[:80] for a in e["argv"]] for e in res.events if e["e"] == "S"][-12:])
            texts = [res.out, res.err] + [b2s(a).encode("utf-8", "surrogateescape") for e in res.events if e["e"] == "S" for a in e["argv"]]
            if any(b"overflowed its stack" in t for t in texts) and (sum(f"{a}()" in key.replace(" ", "") for a in ("f", "g", "h", "k1", "fun_2", "go", "f.x", "ff", "zf")) or "eval" in key or "source" in key or ". " in key):
                raise Inconclusive("a program that calls itself without end")
            if any(b"panicked at" in t or b"AddressSanitizer" in t or b"overflowed its stack" in t for t in texts):
                say("the shell panicked")
                return out
            if res.hang:
                if reads and mode != "stdin":
                    raise Inconclusive("did not end, perhaps because of what the line says: " + res.where + repr(lines)[:3000])
                say("the shell did not end: " + res.where)
                return out
            if res.rc < 0 and not weak:
                say(f"the shell was killed by signal {-res.rc}")
                return out
            if mode == "c":
                return out
            if weak:
                ctx.stats["programs that may end the shell"] += 1
                return out
            if reads and mode == "stdin":
                return out
            seen = [b2s(e["argv"][1]) for e in res.events if e["e"] == "S" and b2s(e["exe"]) == sync and len(e["argv"]) == 2 and e["argv"][0] == core.s2b(sync)]
            want = [str(k) for k in range(len(lines))] + ["end", "ok", "or"]
            ctx.stats["lines after which the next one had to run"] += len(lines)
            if seen != want:
                missing = next((w for w, s in zip(want, seen + [None]) if w != s), None)
                say(f"after line {missing} the shell did not go on with the next one (went on after: {seen})")
                return out
            if mode == "stdin" and res.rc != 0:
                say(f"the shell ended with status {res.rc}")
                return out
            for e in res.events:
                if e["e"] == "S" and "/bad" in e["argv"]:
                    say("a line that cannot be parsed executed something")
                    return out
            if any(k == "syntax" for _, k in lines):
                ctx.stats["programs with syntax errors whose effects were looked for"] += 1
                if any(e["e"] == "S" and e["argv"][1:] == ["[bad]"] for e in res.events):
                    say("a line that cannot be parsed set a variable")
                elif os.path.exists(f"{box.w}/bad"):
                    say("a line that cannot be parsed created a file")
            return out

    def rule(self):
        return ("a case is a program of up to 8 fuzzed lines (token soup, random characters, abused builtins, mutated valid lines, valid commands followed by a syntax error) in one of the modes; "
                "cases are distinct by their text; after each line a probe has to be started")
