"""Standard output and standard error that cannot be written (C32)."""
import os, signal
import core, model, term
from core import Check, Inconclusive, Outcome, b2s

# builtins that print something, whatever has been done before
PRINT = ["pwd", "alias", "alias -p", "export", "export -p", "readonly -p"]
# commands that fail with a message of the shell
FAIL = ["cd /no/such/dir", "cd /etc/passwd", "no_such_command", "no_such_command a b", "/no/such/command", "./data", ". ./none", "source /no/such/file", "exec ./none", "exec -c no_such_command", "unset", "readonly nothing_like_this",
        "pr x > /no/such/file", "pr x < ./none", "> /no/such/file", "fg", "fg %77", "bg 4711", "export ro=1", "eval", "eval '| x'", ". ./bad", "export context c=./none", "export context c=./bad", "unalias"]
BAD = ["| x", "f ( x", "a ;; b", "&& x", "echo 'a", "> > x"]
WARN = ["ro=2 ; pr {}", "f2() {{ pr {} ; }} ; f2", "unset ro ; pr {}", "pr \"$(no_such_command ; pr in)\" ; pr {}", "a=$(cd /no/such/dir) ; pr {}"]


class Sink:
    """where the output goes"""
    kinds = ["fine", "full", "no reader", "closed", "read only", "reader leaves"]

    def __init__(self, kind):
        self.kind, self.fd, self.child = kind, None, None
        if kind == "full":
            self.fd = os.open("/dev/full", os.O_WRONLY)
        elif kind == "no reader":
            r, self.fd = os.pipe()
            os.close(r)
        elif kind == "read only":
            self.fd = os.open("/dev/null", os.O_RDONLY)
        elif kind == "reader leaves":
            r, self.fd = os.pipe()
            self.child = os.fork()
            if self.child == 0:
                try:
                    os.close(self.fd)
                    os.read(r, 1)
                finally:
                    os._exit(0)
            os.close(r)

    @property
    def works(self):
        """whether a write succeeds: True, False or None for unknown"""
        return {"fine": True, "closed": True, "full": False, "no reader": False, "read only": False, "reader leaves": None}[self.kind]

    def close(self):
        if self.fd is not None:
            os.close(self.fd)
        if self.child:
            os.kill(self.child, signal.SIGKILL)
            os.waitpid(self.child, 0)


class C32(Check):
    id = "C32"
    technique = "runtime monitoring: probe event logs of programs whose standard output or error cannot be written"
    note = "Which commands are executed and with what status the shell ends (also the status of a last command that fails) is compared with what the program says; what is printed is not looked at."
    quick_n, thorough_n = 10000, 60000
    quick_s = 70

    def program(self, rng, works, mode):
        """-> lines, the tags of the probes that run (a set where it depends)"""
        n = [0]
        lines, want = [], []

        def tag():
            n[0] += 1
            return f"t{n[0]}"

        def simple(depth=0):
            x = rng.random()
            a, b, c = tag(), tag(), tag()
            if x < .2:
                return f"pr {a}", [a]
            if x < .45:
                w = {True: [a], False: [b], None: [{a, b}]}[works]
                return f"{rng.choice(PRINT)} && pr {a} || pr {b}", w
            if x < .6:
                return f"{rng.choice(FAIL)} && pr {a} || pr {b}", [b]
            if x < .66:
                return f"{rng.choice(PRINT)} ; pr {a}", [a]
            if x < .7:
                return f"{rng.choice(FAIL)} ; pr {a}", [a]
            if x < .75:
                return f"pr {a} \"$({rng.choice(PRINT)})\"", [a]
            if x < .8:
                return rng.choice(WARN).format(a), [a]
            if x < .84:
                return f"prt {a} ; pr {b}", [a, b]
            if x < .88:
                return f"pr {a} | cat | sink ; pr {b}", [a, b]
            if depth:
                return f"pr {a}", [a]
            if x < .94:
                t, w = simple(1)
                return "f() { " + t + " ; } ; f", w
            t, w = simple(1)
            return ("eval '" + t + "'", w) if "'" not in t else (t, w)

        for _ in range(rng.randint(2, 12)):
            if mode != "c" and rng.random() < .1:
                lines.append(rng.choice([b for b in BAD if mode == "script" or model.balanced(b) and "'" not in b]))
                continue
            t, w = simple()
            lines.append(t)
            want += w
        return lines, want

    def ending(self, rng, works, mode):
        """the last lines and the status that the shell has to end with"""
        x = rng.random()
        if x < .4:
            code = rng.choice([0, 1, 7, 255])
            return [f"exit {code}"], code
        if x < .7:
            t, code = rng.choice(FAIL), 1
        elif x < .8 and works is not None:
            t, code = rng.choice(PRINT), int(not works)
        elif x < .9:
            t, code = rng.choice([("no_such_command | sink", 0), ("pr t_no | no_such_command", 1), ("pr t_no | ./data", 1), ("pr x > /no/such/file | sink", 0), ("nop | sink > /no/such/file", 1), ("f3() { no_such_command ; } ; f3", 1), ("f3() { cd /no/such/dir ; } ; f3", 1), ("eval no_such_command", 1)])
            t = t.replace("pr t_no", "nop")
        elif mode == "script":
            t, code = rng.choice([b for b in BAD if "'" not in b]), 2
        else:
            t, code = "! cd /no/such/dir", 0
        return ([t, "exit"] if mode == "stdin" or rng.random() < .4 else [t]), code

    def case(self, rng, i, ctx):
        if i % 8 == 7:
            return self.terminal(rng, ctx)
        with ctx.box() as box:
            for f, t in (("data", "text"), ("bad", "pr no\n| x\n")):
                with open(f"{box.w}/{f}", "w") as h:
                    h.write(t)
            mode = rng.choice(["script", "c", "stdin"])
            # an interactive shell talks to its user on standard output
            ok, ek = ("fine" if mode == "stdin" else rng.choice(Sink.kinds)), rng.choice(Sink.kinds)
            if ok == ek == "fine":
                (ok, ek) = ("full", "fine") if mode != "stdin" else ("fine", "full")
            o, e = Sink(ok), Sink(ek)
            try:
                lines, want = self.program(rng, o.works, mode)
                last, code = self.ending(rng, o.works, mode)
                # a process started for a command dies of a message that has no reader
                code = (1, 141) if code == 1 and ek in ("no reader", "reader leaves") else (code,)
                lines = ["alias al=pr", "readonly ro=1"] + lines + last
                text = ("\n" if mode != "c" or rng.random() < .5 else " ; ").join(lines) + "\n"
                fds = {}
                for k, s in ((1, o), (2, e)):
                    if s.fd is not None:
                        fds[k] = s.fd
                argv = [["-c", text], [box.w + "/prog"], []][["c", "script", "stdin"].index(mode)]
                if mode == "script":
                    with open(box.w + "/prog", "w") as h:
                        h.write(text)
                exe = None
                closing = "".join(f" {k}>&-" for k, s in ((1, o), (2, e)) if s.kind == "closed")
                if closing:
                    argv = ["-c", f'exec "$@"{closing}', "sh", box.ctx.rsh] + argv
                    exe = "/bin/sh"
                res = core.run(box, argv, stdin=text.encode() if mode == "stdin" else None, fds=fds, exe=exe, timeout=20)
            finally:
                o.close()
                e.close()
            out = Outcome(key=text + mode + ok + ek, sample={"mode": mode, "stdout": ok, "stderr": ek, "program": text})
            self.judge(ctx, out, text, f"{mode}, stdout: {ok}, stderr: {ek}", res.events, want, res.rc, code, res.hang and res.where)
            ctx.stats["stdout: " + ok] += 1
            ctx.stats["stderr: " + ek] += 1
            return out

    def judge(self, ctx, out, text, how, events, want, rc, code, hang):
        if hang:
            raise Inconclusive("did not end in time: " + hang)
        got = [b2s(e["argv"][1]) for e in events if e["e"] == "S" and b2s(e["argv"][0]) in ("pr", "prt") and len(e["argv"]) > 1]
        # what runs in a pipeline or a substitution is not ordered by itself, but a statement at a time is
        got = [g for g in got if g.startswith("t")]
        what = None
        if len(got) != len(want) or any(g != w and not (isinstance(w, set) and g in w) for g, w in zip(got, want)):
            what = f"executed {got} instead of {want}"
        elif rc not in code:
            what = f"the shell ended with {rc} instead of {' or '.join(map(str, code))}"
        ctx.stats["commands executed"] += len(got)
        ctx.stats["builtins that print"] += sum(isinstance(w, set) or 1 for w in want) * 0 + sum(text.count(p + " &&") for p in PRINT)
        if what:
            out.fail(what + f" ({how})", program=text, events=got, rc=rc)

    def terminal(self, rng, ctx):
        """an interactive session at a terminal, the standard output of which goes elsewhere"""
        with ctx.box() as box:
            ok, ek = rng.choice(["full", "no reader"]), rng.choice(Sink.kinds[:3])
            o, e = Sink(ok), Sink(ek)
            t = None
            want, lines = [], []
            try:
                t = term.Term(box, fds={k: s.fd for k, s in ((1, o), (2, e)) if s.fd is not None})
                t.send("alias al=pr", "readonly ro=1")
                n = 0
                for _ in range(rng.randint(2, 7)):
                    n += 1
                    a, b = f"t{n}a", f"t{n}b"
                    l, w = rng.choice([(f"pr {a}", [a]), ("nop &", []), (f"nop & \r pr {a}", [a]), ("hold h &", []), ("nki &", []), ("nst &", []), ("jobs", []), (f"fg %1 ; pr {a}", None), (f"bg %1 ; pr {a}", [a]), (f"pwd && pr {a} || pr {b}", [b]), ("| x", []),
                                       (f"nst ; pr {a}", [a]), (f"nki ; pr {a}", [a]), (f"export -p && pr {a} || pr {b}", [b]), (f"cd /no/such && pr {a} || pr {b}", [b]), (f"no_such_command || pr {b}", [b]), ("x ;; y", [])])
                    if w is None:
                        if any("hold" in x for x in lines):
                            continue
                        w = [a]
                    for x in l.split("\r"):
                        t.send(x)
                    lines.append(l)
                    want += w
                t.prompt()
                t.line("exit 9")
                t.until(lambda: t.poll() is not None, "the shell does not end")
            except term.Bad as x:
                if t is None or t.poll() is None:
                    raise Inconclusive(str(x))
            finally:
                if t:
                    rc = t.poll()
                    ev = box.events()
                    t.finish()
                o.close()
                e.close()
            text = "\n".join(lines)
            out = Outcome(key=text + ok + ek, sample={"mode": "terminal", "stdout": ok, "stderr": ek, "program": text})
            self.judge(ctx, out, text, f"at a terminal, stdout: {ok}, stderr: {ek}", ev, want, rc, (9,), None)
            ctx.stats["sessions at a terminal"] += 1
            return out

    def rule(self):
        return ("a case is a program (script, -c, typed to a pipe or at a terminal) with printing builtins, failing commands and probes, whose standard output or error is full, has no reader, loses its reader, is closed or read only; "
                "cases are distinct by the program, the mode and the state of the descriptors")
