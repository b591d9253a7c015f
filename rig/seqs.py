"""The checks that compare whole programs with the model."""
import collections, itertools, os
import core, gen, model
from core import Check, Inconclusive, Outcome, b2s


class Seq(Check):
    """random programs of the profile, run in one of the modes, against the model"""
    quick_n, thorough_n = 6000, 60000
    quick_s = 100
    modes = ["stdin", "script", "c"]
    fields = ("argv", "exe", "cwd", "x", "out", "rc", "files", "err", "order", "pid")
    weights = {}
    size = (2, 9)
    allow = ()
    need = ()              # features of which one has to occur for a case to count

    def gen(self, rng, i, ctx, box, mode, **o):
        g = gen.Gen(rng, box, mode, self.weights, allow=self.allow, **o)
        return g

    def make(self, rng, i, ctx, box):
        mode = rng.choice(self.modes)
        o = {}
        if mode == "script":
            o = {"script": box.w + "/prog.sh" if rng.random() < .5 else "../prog", "args": self.scriptargs(rng)}
        g = self.gen(rng, i, ctx, box, mode, **o)
        g.build(rng.randint(*self.size))
        return g

    def scriptargs(self, rng):
        return [a for a in (rng.choice(["x", "a b", "", "-v", "--opt=1", "k=v", "$a", "'q'", "é", "-c", "1", " x", "x ", "\tx", " ", "  ", "\n", "x\n", " a b ", "\u00a0", "#x", "a;b", "\"d\"", "*", "\\", "x" * 5000]) for _ in range(rng.choice([0, 0, 1, 3, 11])))]

    def run(self, g, text, box, mode, rng):
        o = g.o
        if mode == "stdin":
            return core.run(box, [], stdin=text.encode("utf-8", "surrogateescape"), env=g.env)
        if mode == "c":
            if len(text.encode()) > 120000:
                raise Inconclusive("text too long for an argument")
            words = text.split(" ") if rng.random() < .4 and not any(t.endswith(" ") for t in [text]) else [text]
            if any(w.startswith("-") for w in words[:1]) or len(words) > 500:
                words = [text]
            return core.run(box, ["-c"] + words, stdin=None, env=g.env)
        path = o["script"] if o["script"].startswith("/") else f"{box.home}/prog"
        with open(path, "wb") as f:
            f.write(text.encode("utf-8", "surrogateescape"))
        g.scriptfile = os.path.relpath(path, box.w)
        return core.run(box, [o["script"]] + list(o["args"]), stdin=None, env=g.env)

    def judge(self, g, m, res, out, fields=None):
        if m.mode == "script" and not g.scriptfile.startswith(".."):
            m.files[f"{m.w}/{g.scriptfile}"] = model.File(open(f"{m.w}/{g.scriptfile}", "rb").read())
        bad = model.compare(m, res, fields or self.fields)
        if bad:
            out.fail(f"{bad[0]}", program=g.shown, mode=g.mode, args=g.o.get("args"), differences=bad[:6], stdout=model.esc(res.out), stderr=model.esc(res.err), rc=res.rc)
        return bad

    def case(self, rng, i, ctx):
        with ctx.box() as box:
            g = self.make(rng, i, ctx, box)
            if not g.lines:
                return Outcome(nontrivial=False)
            g.materialize()
            text = g.text()
            g.shown = text + ''.join(f'\n--- file {os.path.relpath(k, box.w)}\n' + v.decode('utf-8', 'replace')[:600] for k, v in g.files.items() if k not in g.std)
            m = g.replay()
            try:
                m.run_text(text)
            except model.Unspec as e:
                raise Inconclusive(f"replay: {e}: {text!r}")
            res = self.run(g, text, box, g.mode, rng)
            out = Outcome(key=text, sample={"mode": g.mode, "program": text[:600]}, nontrivial=not self.need or any(m.feat[f] for f in self.need))
            self.judge(g, m, res, out)
            self.count(ctx, g, m, res)
            return out

    def count(self, ctx, g, m, res):
        ctx.stats["programs"] += 1
        ctx.stats["mode " + g.mode] += 1
        ctx.stats["commands seen"] += sum(e["e"] == "S" for e in res.events)
        ctx.stats["statements"] += len(g.lines)
        for f, n in m.feat.items():
            ctx.stats["f: " + f] += n

    def rule(self):
        return ("a case is a random program of this property's statement kinds that the reference model fully specifies, run in one of the modes; "
                "it is judged by the probes' records (argv, program, directory, data read and written, order), the output, the files and the exit status; "
                "cases are distinct by their text" + (f" and count only if they contain one of: {', '.join(self.need)}" if self.need else ""))


class C01(Seq):
    id = "C01"
    quick_n = 9000
    weights = {"cmd": 6, "argedge": 8, "prt": 2, "asg": 4, "show": 3, "subst": 1, "cmdvar": 1, "chain": 1, "tight": 1.5, "func": 1, "alias": .5, "aluse": .5, "eval": .5}
    fields = ("argv", "exe", "x", "out", "rc", "files")


class C03(Seq):
    id = "C03"
    weights = {"chain": 8, "list": 5, "bang": 3, "func": 1, "call": 1, "pipe": 1, "redir": 1, "asg": 1, "stat": 2, "eval": 1}
    need = ("&&", "||", "!", "skipped command")


# those that end a process
SIGNALS = [n for n in range(1, 65) if n not in (17, 18, 19, 20, 21, 22, 23, 28, 32, 33)]


class C04(Seq):
    id = "C04"
    weights = {"stat": 6, "chain": 2, "func": 3, "call": 2, "pipe": 2, "exit": 1.5, "notfound": 2, "badfun": 2, "asg": 1, "bang": 1, "redir": 1, "nest": 1, "execfail": .5, "eval": .5, "source": .5, "nogroup": .5}
    size = (1, 7)

    def make(self, rng, i, ctx, box):
        # every exit code and signal has its turn
        if i % 4 == 0:
            mode = rng.choice(self.modes)
            o = {"script": "../prog", "args": []} if mode == "script" else {}
            g = self.gen(rng, i, ctx, box, mode, **o)
            n = (i // 4) % 307
            c = f"rc {n}" if n < 256 else f"die {SIGNALS[n - 256]}"
            k = rng.randrange(7)
            if n < 256 and k == 0:
                ls = [f"exit {n} ; pr not"]
            elif n < 256 and k == 1:
                ls = [f"f() {{ return {n} ; pr not ; }}", "f && prt y || prt n", "f ; exit"]
            elif k == 2:
                ls = [f"f() {{ {c} ; return ; pr not ; }}", "f && prt y || prt n", "f ; exit"]
            elif k == 3:
                ls = [f"f() {{ pr a; {c}; }}", "f && prt y || prt n", "f ; exit"]
            elif k == 4:
                ls = [f"pr | {c} && prt y || prt n", f"pr | {c} ; exit"]
            elif k == 5:
                ls = [f"{c} && prt y || prt n", f"! {c} && prt y || prt n", c] + (["exit"] if mode == "stdin" else [])
            else:
                ls = [f"eval '{c}' ; exit"]
            g.ok(ls)
            return g
        return super().make(rng, i, ctx, box)


class C05(Seq):
    id = "C05"
    weights = {"pipe": 10, "bigpipe": .5, "widepipe": .4, "chain": 1, "func": .5, "asg": 1, "redir": .5, "notfound": .3, "prefixpipe": .5, "aluse": .5, "alias": .5}
    size = (1, 5)
    quick_n = 4000
    need = ("pipeline",)

    def case(self, rng, i, ctx):
        if i % 6 == 5:
            return self.meet(rng, i, ctx)
        return super().case(rng, i, ctx)

    def meet(self, rng, i, ctx):
        """stages that end only once all of them run"""
        with ctx.box() as box:
            n = rng.choice([2, 3, 4, 6, 10, 16])
            mode = rng.choice(self.modes)
            code = rng.choice([0, 0, 5, 255])
            feed = rng.random() < .5
            st = [f"meet M {n} {k}" + (" copy" if feed and k else "") + (f" {code}" if k == n - 1 and (feed or 1) and feed else "") for k in range(n)]
            if not feed:
                code = 0
            text = " | ".join(st) + " && prt yes || prt no"
            wrap = rng.randrange(3)
            if wrap == 1:
                text = f"f() {{ {text} ; }} ; f"
            elif wrap == 2:
                text = f"prt \"$({text})\""
            if mode == "stdin":
                res = core.run(box, [], stdin=(text + "\n").encode())
            elif mode == "c":
                res = core.run(box, ["-c", text], stdin=None)
            else:
                open(f"{box.home}/prog", "w").write(text + "\n")
                res = core.run(box, ["../prog"], stdin=None)
            out = Outcome(key=text + mode, sample={"mode": mode, "program": text})
            ctx.stats["pipelines whose stages wait for each other"] += 1
            X = [e for e in res.events if e["e"] == "X"]
            S = {e["pid"]: core.b2s(e["argv"][0]) for e in res.events if e["e"] == "S"}
            ms = [e for e in X if S.get(e["pid"]) == "meet"]
            want = b"<yes>\n" if code == 0 else b"<no>\n"
            if wrap == 2:
                want = b"<" + want[:-1] + b">\n"
            what = None
            if res.hang:
                raise Inconclusive("did not end in time: " + res.where)
            if any(e["code"] == 77 for e in ms):
                what = "the stages of a pipeline did not run at the same time"
            elif len(ms) != n:
                what = f"{len(ms)} of {n} stages ran to their end"
            elif res.out != want:
                what = f"output {res.out!r} instead of {want!r}"
            elif S and any(e["e"] == "S" and core.b2s(e["argv"][0]) == "prt" and any(x["t"] > e["t"] for x in ms if x["e"] == "X") for e in res.events) and wrap != 2:
                what = "the shell went on before all the stages had ended"
            if what:
                out.fail(what, program=text, mode=mode, stdout=model.esc(res.out), stderr=model.esc(res.err))
            return out


class C06(Seq):
    id = "C06"
    weights = {"redir": 10, "catall": 3, "func": .7, "chain": .7, "asg": 1, "cd": .5, "subst": .3, "eval": .3, "pipe": .5}
    need = ("redirection >", "redirection >>", "redirection <", "failed redirection", "redirection without command")

    def permissions(self, d):
        return {os.path.join(r, f): os.stat(os.path.join(r, f)).st_mode & 0o7777 for r, _, fs in os.walk(d) for f in fs if os.path.isfile(os.path.join(r, f)) and not os.path.islink(os.path.join(r, f))}

    def run(self, g, text, box, mode, rng):
        mask = rng.choice([0o022, 0o022, 0, 0o077, 0o027, 0o002, 0o117])
        for p in sorted(self.permissions(box.w)):
            if rng.random() < .3 and p not in g.perms:
                os.chmod(p, rng.choice([0o600, 0o640, 0o666, 0o755, 0o644]))
        before = self.permissions(box.w)
        os.umask(mask)
        try:
            res = super().run(g, text, box, mode, rng)
        finally:
            os.umask(0o022)
        res.modes = [f"{os.path.relpath(p, box.w)} has mode {m:o} instead of {before.get(p, 0o666 & ~mask):o}" for p, m in sorted(self.permissions(box.w).items()) if m != before.get(p, 0o666 & ~mask)]
        res.created = len(set(self.permissions(box.w)) - set(before))
        return res

    def judge(self, g, m, res, out, fields=None):
        bad = super().judge(g, m, res, out, fields)
        if res.modes and not bad:
            out.fail(res.modes[0], program=g.shown, mode=g.mode, more=res.modes[1:5])
        return bad

    def count(self, ctx, g, m, res):
        super().count(ctx, g, m, res)
        ctx.stats["files created, their permissions compared"] += res.created


class C08(Seq):
    id = "C08"
    weights = {"asg": 8, "show": 5, "showall": 2, "unset": 3, "twin": .6, "export": 1, "manyvars": .15, "func": 1, "scope": .5, "subst": 1, "cmd": 1, "eval": .5}
    allow = ("dead",)
    size = (4, 16)
    fields = ("argv", "exe", "x", "out", "rc", "env")


class C09(Seq):
    id = "C09"
    weights = {"func": 6, "call": 4, "nest": 4, "nogroup": 1, "scope": 2, "unsetf": 1, "twin": .8, "fixed": 2, "manyargs": .8, "deep": .5, "asg": 2, "show": 1, "alias": .5, "aluse": .5, "source": .5, "eval": .5, "chain": .5}
    allow = ("dead",)
    size = (2, 8)
    need = ("function call",)


class C10(Seq):
    id = "C10"
    weights = {"export": 6, "asg": 5, "prefix": 5, "pv": 3, "cmd": 2, "unset": 2, "func": 1, "prefixpipe": 1, "subst": .5, "eval": .5, "scope": .5, "exec": .2, "show": 1}
    allow = ("dead",)
    fields = ("argv", "exe", "x", "out", "rc", "env", "files")
    size = (3, 12)


class C11(Seq):
    id = "C11"
    weights = {"readonly": 5, "roattack": 9, "asg": 2, "export": 1, "show": 1, "func": .7, "unset": .5, "subst": .3, "source": .3, "pv": .5}
    fields = ("argv", "exe", "x", "out", "rc", "files")
    size = (3, 12)
    need = ("readonly name", "readonly name=value")

    def case(self, rng, i, ctx):
        if i % 10 == 9:
            return self.namespaces(rng, ctx)
        return super().case(rng, i, ctx)

    def namespaces(self, rng, ctx):
        """variables of exported contexts can be readonly as well"""
        with ctx.box() as box:
            mode = rng.choice(self.modes)
            spaces = rng.sample(["n", "m", "lib", "ctx2", "N"], rng.choice([1, 2, 2, 3]))
            vals, ro = {}, set()
            lines, want = [], []
            alike = rng.random() < .5             # whether variables of different namespaces have the same name
            k = [0]

            def val():
                k[0] += 1
                return rng.choice([f"v{k[0]}", f"v{k[0]}", f"'a b {k[0]}'", f"{k[0]}"])

            raw = lambda v: v.strip("'")
            for ns in spaces:
                f = []
                for v in rng.sample(["x", "y", "z", "A", "long_name"], rng.randint(1, 5)):
                    n = v if alike else f"{v}{spaces.index(ns)}"
                    w = val()
                    how = rng.randrange(4)
                    f += [[f"{n}={w}"], [f"readonly {n}={w}"], [f"{n}={w}", f"readonly {n}"], [f"{n}={w}"]][how]
                    vals[ns, n] = raw(w)
                    if how in (1, 2):
                        ro.add((ns, n))
                with open(f"{box.w}/{ns}.ctx", "w") as h:
                    h.write("\n".join(f) + "\n")
                lines.append(f"export context {ns}={ns}.ctx")
            for n in rng.sample(["own", "x", "y", "A"], rng.choice([0, 1, 2, 3])):
                w = val()
                lines.append(f"readonly {n}={w}")
                vals["", n] = raw(w)
                ro.add(("", n))
            tags = [0]

            def look():
                tags[0] += 1
                t = f"t{tags[0]}"
                x = rng.random()
                if x < .2:
                    lines.append(f"pr {t} ; readonly -p")
                    out = "".join(f"{n}={vals[ns, n]}\n" for ns, n in sorted(ro, key=lambda a: a[1]))
                elif x < .45 and any((ns, n) in ro for ns in spaces for _, n in vals):
                    ns = rng.choice(spaces)
                    lines.append(f"pr {t} ; readonly -c -p {ns}")
                    out = "".join(f"{n}={vals[s, n]}\n" for s, n in sorted(ro) if s == ns)
                else:
                    ks = rng.sample(sorted(vals), min(len(vals), rng.randint(1, 4))) if vals else []
                    if not ks:
                        return
                    lines.append(f"prt {t} " + " ".join((f'"${a}::{b}"' if a else f'"${b}"') for a, b in ks))
                    out = f"<{t}>\n" + "".join(f"<{vals[x]}>\n" for x in ks)
                want.append((t, out))

            for _ in range(rng.randint(2, 14)):
                if not vals:
                    break
                key = rng.choice(sorted(vals))
                ns, n = key
                full = f"{ns}::{n}" if ns else n
                w = val()
                op = rng.choice(["ro", "ro=", "unset", "unset", "readonly=", "eval", "func", "missing"])
                if op in ("eval", "func"):
                    a = rng.choice([f"unset {full}", f"readonly {full}={w}"])
                    if key not in ro or "'" in a:
                        continue
                    lines.append(f"eval '{a}'" if op == "eval" else f"fn() {{ {a} ; }} ; fn")
                elif op == "missing":
                    tags[0] += 2
                    a = rng.choice([f"readonly {rng.choice(spaces)}::missing", "readonly nowhere::x", "readonly -c -p", "readonly -q x"])
                    lines.append(f"{a} || pr t{tags[0]}")
                    want.append((f"t{tags[0]}", ""))
                elif op == "ro":
                    lines.append(f"readonly {rng.choice(['', '', '-v '])}{full}")
                    ro.add(key)
                elif op in ("ro=", "readonly="):
                    lines.append(f"readonly {full}={w}")
                    if key not in ro:
                        vals[key] = raw(w)
                        ro.add(key)
                elif op == "unset":
                    lines.append(f"unset {rng.choice(['', '', '-v '])}{full}")
                    if key not in ro:
                        del vals[key]
                if rng.random() < .6:
                    look()
            look()
            text = "\n".join(lines) + "\n"
            if mode == "stdin":
                res = core.run(box, [], stdin=text.encode())
            elif mode == "c":
                res = core.run(box, ["-c", text], stdin=None)
            else:
                open(f"{box.home}/prog", "w").write(text)
                res = core.run(box, [f"{box.home}/prog"], stdin=None)
            out = Outcome(key=text, sample={"mode": mode, "program": text[:500]})
            ctx.stats["programs with readonly variables of namespaces"] += 1
            if res.hang:
                raise Inconclusive("hang")
            got = [b2s(e["argv"][1]) for e in res.events if e["e"] == "S" and b2s(e["argv"][0]) in ("pr", "prt")]
            exp = "".join(o for _, o in want)
            o = (model.strip_chatter(res.out) if mode == "stdin" else res.out).decode("utf-8", "replace")
            if mode == "stdin":
                exp, o = exp.strip("\n"), o.strip("\n")

            def tidy(text):
                """variables of the same name may come in any order"""
                return "\n".join(l for _, g in itertools.groupby(text.split("\n"), lambda l: l.split("=")[0] if "=" in l else l) for l in sorted(g))

            exp, o = tidy(exp), tidy(o)
            if got != [t for t, _ in want]:
                out.fail(f"commands {got} ran instead of {[t for t, _ in want]}", program=text, mode=mode, out=o, err=model.esc(res.err))
            elif o != exp:
                out.fail(f"the output is {o!r} instead of {exp!r}", program=text, mode=mode, err=model.esc(res.err))
            return out


class C12(Seq):
    id = "C12"
    allow = ("dead",)
    weights = {"context": 7, "nogroup": .3, "ctxuse": 5, "ctxself": 1.5, "ctxunset": 3, "ctxnear": 1, "asg": 2, "show": 1, "func": 1, "call": .5, "cd": .4, "unset": .3}
    need = ("export context file", "export context self")
    size = (2, 9)


class C13(Seq):
    id = "C13"
    weights = {"alias": 6, "aluse": 7, "unalias": 2, "allist": 1.5, "alcover": 2, "alfunc": 1, "asg": 1.5, "func": 1, "cd": .2, "eval": .5}
    need = ("alias", "alias listing")
    size = (3, 12)


class C14(Seq):
    id = "C14"
    weights = {"subst": 8, "subeffect": 5, "asg": 2, "func": 1, "call": .5, "show": 1, "alias": .4, "redir": .3}
    need = ("substitution",)


class C15(Seq):
    id = "C15"
    weights = {"cd": 9, "pwd": 5, "cdfun": 3, "redir": 1, "subst": .5, "chain": .5, "source": .3, "bypath": .5}
    need = ("cd", "failing cd")
    size = (3, 14)

    def case(self, rng, i, ctx):
        if i % 25 == 24:
            return self.odd(rng, i, ctx)
        return super().case(rng, i, ctx)

    def odd(self, rng, i, ctx):
        """directories without a proper name, and homes that are not in the environment"""
        with ctx.box() as box:
            mode = rng.choice(self.modes)
            home = os.fsencode(box.w)
            name = rng.choice([b"caf\xe9", b"\xff", b"a \xc3", "é".encode(), b"new\nline"])
            start = rng.choice(["gone", "odd", "parent gone", "plain"])
            base = home + b"/s"
            d = {"gone": base + b"/x", "odd": base + b"/" + name, "parent gone": base + b"/x/y", "plain": base + b"/x"}[start]
            for p in (d, home + b"/d/e", home + b"/h" + name):
                os.makedirs(p, exist_ok=True)
            env = box.env()
            if rng.random() < .5:
                env.pop("PWD", None)
            else:
                env["PWD"] = rng.choice(["/", box.w, "", "/no/such"])
            hk = rng.choice(["env", "odd", "assigned", "assigned in function", "none", "changed", "rc"])
            lines, here, want = [], d if start in ("odd", "plain") else None, []
            target = None
            env["HOME"] = box.w
            if hk == "env":
                target = home
            elif hk == "odd":
                env["HOME"] = target = home + b"/h" + name
            else:
                if hk != "changed":
                    env.pop("HOME", None)
                if hk == "assigned":
                    lines.append(f"HOME={box.w}/d")
                elif hk == "assigned in function":
                    lines.append(f"hf() {{ HOME={box.w}/d ; cd && pr in ; pcwd ; cd / ; }}")
                    lines.append("hf")
                    want += [("pr", None, None), ("pcwd", home + b"/d", None)]
                    here = b"/"
                elif hk == "changed":
                    lines.append(f"HOME={box.w}/d")
                if hk in ("assigned", "changed"):
                    target = home + b"/d"
            if hk == "rc":
                env["HOME"] = box.w
                with open(f"{box.w}/.rshrc", "w") as f:
                    f.write(f"HOME={box.w}/d/e\n")
                target = home + b"/d/e"
            out_want = [home + b"/d\n"] if hk == "assigned in function" else []
            if not (hk == "assigned in function"):
                here = d if start in ("odd", "plain") else None
            for _ in range(rng.randint(2, 6)):
                x = rng.random()
                if x < .3:
                    lines.append("pwd && pr y || pr n")
                    want.append(("pr", b"y" if here else b"n", None))
                    if here:
                        out_want.append(here + b"\n")
                elif x < .55:
                    lines.append("cd && pr y || pr n")
                    want.append(("pr", b"y" if target else b"n", None))
                    here = target or here
                elif x < .7:
                    lines.append(f"cd {box.w}/d && pr y || pr n")
                    want.append(("pr", b"y", None))
                    here = home + b"/d"
                elif x < .8 and here == home + b"/d":
                    lines.append("cd e && pr y || pr n")
                    want.append(("pr", b"y", None))
                    here = home + b"/d/e"
                elif x < .9:
                    lines.append("cd no_such && pr y || pr n")
                    want.append(("pr", b"n", None))
                elif here:
                    lines.append("pcwd")
                    want.append(("pcwd", here, None))
                    out_want.append(here + b"\n")
            text = "\n".join(lines) + "\n"
            argv = ["-c", text] if mode == "c" else [f"{box.home}/prog"] if mode == "script" else []
            with open(f"{box.home}/prog", "w") as f:
                f.write(text)
            # a directory that goes away has to do so when the shell is already in it
            sh = 'cd "$1" && shift && case $1 in y) /bin/rmdir "$PWD" ;; p) /bin/rmdir "$PWD" "${PWD%/*}" ;; esac; shift; [ $1 = n ] && unset PWD || PWD=$2; shift 2; exec "$@"'
            res = core.run(box, ["-c", sh, "sh", os.fsdecode(d), {"gone": "y", "parent gone": "p"}.get(start, "-"), "y" if "PWD" in env else "n", env.get("PWD", ""), ctx.rsh] + argv, stdin=text.encode() if mode == "stdin" else None,
                           env={k: os.fsdecode(v) for k, v in env.items()}, exe="/bin/bash")
            out = Outcome(key=text + mode + start + hk, sample={"mode": mode, "started in": start, "HOME": hk, "program": text})
            ctx.stats["started in: " + start] += 1
            ctx.stats["HOME: " + hk] += 1
            if res.hang:
                raise Inconclusive("did not end in time: " + res.where)
            got = []
            for e in res.events:
                if e["e"] == "S":
                    a = [os.fsencode(core.b2s(x)) for x in e["argv"]]
                    got.append((a[0].decode(), os.fsencode(core.b2s(e["cwd"])) if a[0] == b"pcwd" else a[1] if len(a) > 1 else None))
            what = None
            if len(got) != len(want) or any(g[0] != w[0] or (w[1] is not None and g[1] != w[1]) for g, w in zip(got, want)):
                what = f"executed {got} instead of {[w[:2] for w in want]}"
            elif mode != "stdin" and res.out != b"".join(out_want):
                what = f"output {res.out!r} instead of {b''.join(out_want)!r}"
            if what:
                out.fail(what + f" (started in a directory: {start}; HOME: {hk}; {mode})", program=text, out=model.esc(res.out), err=model.esc(res.err[-600:]))
            return out

    def gen(self, rng, i, ctx, box, mode, **o):
        g = super().gen(rng, i, ctx, box, mode, **o)
        w = box.w
        for d in rng.sample(["deep/a/b/c/d/e", "sp ace/x y", "-x", "日本", "q'q", "$a", "#h", "a;b", "tab\there", "*", "n" * 200, "...", "deep/..b", "~", "locked", "back\\slash", "[b]", "dollar$"], 5):
            p = w
            for part in d.split("/"):
                p += "/" + part
                g.dirs.add(p)
                g.m.dirs.add(p)
        for l, t in rng.sample([("l1", "d"), ("l2", "l1/e"), ("abs", w + "/d/e/f"), ("d/e/back", "../.."), ("loop", "loop"), ("dangling", "nowhere"), ("tofile", "in"), ("dot", "."), ("l3", "d/up/ln")], 5):
            g.links[f"{w}/{l}"] = g.m.links[f"{w}/{l}"] = t
        orig = g.cdtext

        def cdtext():
            if rng.random() < .5:
                return orig()
            here = [os.path.relpath(d, g.m.cwd) for d in g.dirs if d.startswith(w)] + [os.path.relpath(l, g.m.cwd) for l in g.links]
            p = rng.choice(sorted(here))
            x = rng.random()
            if x < .3:
                p += rng.choice(["/..", "/.", "/", "//", "/../.", "/up", "/back", "/none"])
            elif x < .5:
                p = rng.choice(sorted(here)) + "/../" + p if x < .4 else g.m.cwd + "/" + p
            s = g.spell(p)
            return "cd " + s if s else "cd"
        g.cdtext = cdtext
        return g


class C16(Seq):
    id = "C16"
    weights = {"path": 5, "newprog": 7, "bypath": 4, "lookup": 5, "cmd": 2, "cmdvar": 1, "cd": .7, "func": .7, "alias": .3, "aluse": .3, "notfound": 1}
    size = (3, 14)


class C17(Seq):
    id = "C17"
    weights = {"execfail": 5, "asg": 2, "export": 2, "cmd": 1.5, "func": 1, "cd": 1, "pipe": .5, "chain": .5, "subst": .5, "redir": .5}
    fields = ("argv", "exe", "cwd", "x", "out", "rc", "files", "err", "order", "pid", "env")
    need = ("exec", "failing exec")
    size = (1, 6)

    def make(self, rng, i, ctx, box):
        g = super().make(rng, i, ctx, box)
        for _ in range(6):
            if g.m.exited is not None:
                break
            t = g.s_exec()
            x = rng.random()
            k = g.fresh
            if x < .15:
                t = [f"xf{k}() {{ pr in $1; {t}; pr not; }}", f"xf{k} p1 ; pr not"]
            elif x < .25 and "'" not in t:
                t = [f"eval '{t}' ; pr not"]
            elif x < .32:
                t = g.sourced(["pr s", t, "pr not"])
            else:
                t = [t]
            g.ok(t)
        if g.m.exited is not None and g.mode != "c":
            g.lines.append("pr never")
        return g

    def judge(self, g, m, res, out, fields=None):
        bad = super().judge(g, m, res, out, fields)
        if not bad:
            for e in res.events:
                if e["e"] == "S" and e["pid"] == res.pid and (int(e["blk"], 16) or int(e["ign"], 16) & ~(1 << 31) or int(e["cgt"], 16)):
                    out.fail(f"the program that replaced the shell has blocked {e['blk']} ignored {e['ign']} handled {e['cgt']} signals", program=g.shown, mode=g.mode)
        return bad


class C18(Seq):
    id = "C18"
    weights = {"eval": 7, "source": 7, "nogroup": 1, "srcpath": 1, "asg": 1.5, "func": 1, "call": 1, "show": 1, "alias": .5, "aluse": .5, "cd": .5, "chain": .5}
    need = ("eval", "source", "source of a missing file", "eval of a text that cannot be parsed", "source of a file that cannot be parsed")
    fields = Seq.fields + ("env",)


class Layout:
    """rewrites a program without changing what it is"""

    COMMENTS = ["#", "# comment", "#c", "# it's", '# "', "# ; pr not", "# && pr not", "# | pr not", "#!x", "# $a `pr not`", "# (x)", "# $(pr not)", "## é", "#\tpr not", "# pr not > made", "# \\", "#'", "# {x}", "#a=b", "# \r pr not", "#\rpr not ; pr not", "# x\x0b", "# \x0cpr not", "# \u2028pr not", "# \u0085pr not", "# \x00", "#\r", "# \x1a", "# \x04pr not", "# \x1b[0m", "# " + "long " * 2000, "# \\", "#" * 300, "# >", "# 2>", "# &", "# $", "# for x in", "# \ufeff"]
    # where an interactive shell would take it for an edit
    NOT_TYPED = "\r\x00\x1a\x04\x1b\x0b\x0c"

    def __init__(self, rng, mode):
        self.r, self.mode = rng, mode
        self.n = collections.Counter()

    def ws(self, least):
        k = self.r.choice([least, least, 1, 1, 2, 5])
        s = "".join(self.r.choice([" ", " ", "\t"]) for _ in range(max(k, least)))
        if len(s) != least:
            self.n["spaces"] += 1
        return s

    def comment(self):
        while True:
            c = self.r.choice(self.COMMENTS)
            if self.mode == "script" or "\x00" not in c and not (self.mode == "stdin" and (set(c) & set(self.NOT_TYPED) or len(c) > 3000)):
                return c

    def eol(self):
        r = self.r
        x = r.random()
        s = r.choice(["", "", " ", "\t", "  \t "])
        if x < .3:
            self.n["comment at the end of a line"] += 1
            s = r.choice([" ", "\t", "   "]) + self.comment()
        s += "\n"
        while r.random() < .25:
            k = r.random()
            if k < .5:
                s += r.choice(["\n", " \n", "\t\t\n"])
                self.n["blank line"] += 1
            else:
                s += r.choice(["", " ", "\t"]) + self.comment() + "\n"
                self.n["comment line"] += 1
        return s

    def line(self, l):
        """a new text for a line (or several)"""
        r = self.r
        spans = []
        toks = model.tokenize(l, spans)
        if len(spans) != len(toks) or not toks:
            return l
        out, depth, prev = self.ws(0) if r.random() < .3 else "", 0, None
        for k, (t, (a, b)) in enumerate(zip(toks, spans)):
            gap = l[spans[k - 1][1]:a] if k else ""
            op = lambda x: x is not None and x[0] == "op"
            if t == ("op", "{"):
                depth += 1
            if t == ("op", "}"):
                depth -= 1
            if k:
                if prev[0] == "io" or (t == ("op", "(") or prev == ("op", "(")):
                    out += gap
                elif gap and (gap.strip(" \t\n") == ""):
                    loose = (t in (("op", ";"), ("op", "|"), ("op", "&&"), ("op", "||")) or prev in (("op", ";"), ("op", "|"), ("op", "&&"), ("op", "||")))
                    if "\n" in gap:
                        out += gap
                    elif loose and prev[0] != "io" and r.random() < .3:
                        self.n["no space"] += 1
                    else:
                        out += self.ws(1)
                elif not gap and (op(t) or op(prev)):
                    out += self.ws(0) if r.random() < .5 else ""
                else:
                    out += gap
            multi = self.mode == "c" or depth == 0
            if t == ("op", ";") and multi and r.random() < .5:
                x = r.random()
                nxt = toks[k + 1] if k + 1 < len(toks) else None
                if x < .6 or nxt is None:
                    out += self.eol()
                    self.n["newline for ;"] += 1
                else:
                    out += ";" + self.eol()
                    self.n["newline after ;"] += 1
            elif t == ("nl",) and depth and self.mode == "c" and prev is not None and prev[0] in ("word", "asg") and r.random() < .5 and k + 1 < len(toks) and toks[k + 1] != ("op", "}"):
                out += r.choice([" ;", ";", " ; ", ";\n", " ; \n"])
                self.n["; for newline"] += 1
            elif t == ("nl",):
                out += self.eol() if self.mode == "c" else "\n"
            elif t in (("op", "&&"), ("op", "||")) and self.mode == "c" and r.random() < .35:
                out += t[1] + self.eol()
                self.n["newline after && or ||"] += 1
            else:
                out += l[a:b]
            prev = t
        return out

    def rewrite(self, lines):
        r, out = self.r, ""
        if r.random() < .3:
            out += self.eol().lstrip(" \t") if r.random() < .5 else self.eol()
        for k, l in enumerate(lines):
            t = self.line(l)
            out += t
            if k == len(lines) - 1 and self.mode == "c" and r.random() < .4:
                break
            if r.random() < .25 and k < len(lines) - 1 and not t.rstrip(" \t").endswith((";", "\n")):
                out += r.choice([";", " ;", " ; ", "; ", ";\t"])
                self.n["; for newline"] += 1
            elif r.random() < .1 and not t.rstrip(" \t").endswith((";", "\n")):
                out += r.choice([";", " ;"]) + self.eol()
                self.n["; before newline"] += 1
            else:
                out += self.eol()
        return out


def ast_of(text, mode):
    if mode == "c":
        return model.parse(text)
    return [x for l in text.split("\n") for x in model.parse(l)]


class C02(Seq):
    id = "C02"
    weights = {"cmd": 4, "argedge": 3, "chain": 4, "list": 5, "func": 2, "call": 1, "asg": 2, "pipe": 1, "redir": 1.5, "subst": .7, "alias": .4, "aluse": .4, "eval": .3, "source": .3, "bang": .7, "prefix": .5, "tight": 2}

    def case(self, rng, i, ctx):
        with ctx.box() as box:
            g = self.make(rng, i, ctx, box)
            if not g.lines:
                return Outcome(nontrivial=False)
            g.materialize()
            lines = [l for l in g.lines]
            try:
                want = [x for l in lines for x in model.parse(l)]
            except (model.Unspec, model.BadSyntax):
                return Outcome(nontrivial=False)
            for attempt in range(20):
                lay = Layout(rng, g.mode)
                text = lay.rewrite(lines)
                if any(not model.balanced(l) for l in text.split("\n")) and g.mode == "stdin":
                    continue
                try:
                    if strip_text(ast_of(text, g.mode)) == strip_text(want):
                        break
                except (model.Unspec, model.BadSyntax):
                    pass
                ctx.stats["rewritten texts discarded"] += 1
            else:
                return Outcome(nontrivial=False)
            m = g.replay()
            plain = g.text()
            try:
                if g.mode == "c":
                    m.run_text(plain)
                else:
                    m.run_text(plain)
            except model.Unspec:
                return Outcome(nontrivial=False)
            g.shown = text
            res = self.run(g, text, box, g.mode, rng)
            out = Outcome(key=text, sample={"mode": g.mode, "program": text[:600], "equivalent to": plain[:400]}, nontrivial=bool(lay.n))
            self.judge(g, m, res, out)
            for v in out.violations:
                v[1]["equivalent_to"] = plain
            self.count(ctx, g, m, res)
            for k, v in lay.n.items():
                ctx.stats["rewritten: " + k] += v
            return out

    def rule(self):
        return ("a case is a random program, rewritten with other white space, comments, blank lines and separators so that it is the same program (the model parses both to the same tree), "
                "then run and compared with what the model says of the original; cases are distinct by their text and count if something was rewritten")


def strip_text(x):
    """a tree without the separators inside substitutions (nothing is rewritten there)"""
    return x


class C23(Seq):
    id = "C23"
    weights = {"cmd": 3, "argedge": 1, "chain": 3, "list": 2, "func": 2, "call": 1, "asg": 2, "show": 1, "pipe": 2, "redir": 2, "subst": 1, "subeffect": .7, "alias": .7, "aluse": 1, "eval": 1, "source": 1, "cd": 1, "pwd": .7,
               "export": 1, "pv": .5, "readonly": .5, "context": .5, "exit": .5, "exec": .2, "execfail": .3, "notfound": .7, "stat": 1.5, "nest": .3, "allist": .3, "unset": .5, "argref": 1, "bad": .8, "pad": .12}
    quick_n, thorough_n = 4000, 25000
    fields = ("argv", "exe", "cwd", "x", "out", "rc", "files", "err", "order", "pid", "env", "noerr")
    size = (2, 9)

    def case(self, rng, i, ctx):
        if i % 12 == 11:
            return self.unreadable(rng, i, ctx)
        ctx.n += 1
        home = f"{ctx.scratch}/c{ctx.n}"
        again = lambda: core.Box(ctx, home, core.NAMES)
        with again() as box:
            args = self.scriptargs(rng) if rng.random() < .5 else []
            name = rng.choice([box.w + "/prog.sh", "../prog", "./sub dir/é.rsh", "prog", "p=q"])
            g = gen.Gen(rng, box, "script", self.weights, script=name, args=args)
            g.dirs.add(box.w + "/sub dir")
            g.m.dirs.add(box.w + "/sub dir")

            def argref():
                ks = [k for k in range(1, len(args) + 1)]
                return ("prt " + " ".join(rng.choice(["$%d", '"$%d"']) % rng.choice(ks) for _ in range(rng.randint(1, 4)))) if ks and rng.random() < .8 else "prt $0"
            g.s_argref = argref
            g.build(rng.randint(*self.size))
        if not g.lines:
            return Outcome(nontrivial=False)
        text = "\n".join(g.lines)
        out = Outcome(key=text, sample={"program": text[:600], "args": args})
        outs = {}
        modes = ["script"] if args or "$0" in text else ["script", "stdin", "c"]
        for mode in modes:
            with again() as b:
                g.mode = mode
                g.box = b
                if mode != "script":
                    g.o = {}
                t = text + ("\n" if mode != "c" and rng.random() < .8 else "")
                g.shown = t
                m = g.replay()
                try:
                    if mode == "c" and model.has_bad(t):
                        continue
                    m.run_text(t)
                except model.Unspec:
                    continue
                g.materialize()
                res = self.run(g, t, b, mode, rng)
                self.judge(g, m, res, out, tuple(f for f in self.fields if f != "noerr" or mode != "stdin"))
                self.count(ctx, g, m, res)
                o = res.out if mode != "stdin" else model.strip_chatter(res.out)
                if not any(isinstance(c, collections.Counter) for c in m.out):
                    outs[mode] = o
        if len(outs) > 1:
            ctx.stats["programs compared across modes"] += 1
        if len(set(outs.values())) > 1 and not out.violations:
            out.fail("the modes differ in their output", program=text, outputs={k: model.esc(v) for k, v in outs.items()})
        return out

    def run(self, g, text, box, mode, rng):
        if mode != "script":
            return super().run(g, text, box, mode, rng)
        name = g.o["script"]
        path = os.path.join(box.w, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(text.encode("utf-8", "surrogateescape"))
        g.scriptfile = os.path.relpath(path, box.w)
        return core.run(box, [name] + list(g.o["args"]), stdin=None, env=g.env)

    def unreadable(self, rng, i, ctx):
        with ctx.box() as box:
            k = rng.choice(["missing", "directory", "no permission", "not text", "missing directory"])
            name = rng.choice(["prog", "./prog", box.w + "/prog"])
            p = f"{box.w}/prog"
            if k == "directory":
                os.mkdir(p)
            elif k == "no permission":
                open(p, "w").write("pr bad\n")
                os.chmod(p, 0)
            elif k == "not text":
                open(p, "wb").write(b"\xff\xfe\x00pr bad\xff\n")
            elif k == "missing directory":
                name = "none/prog"
            res = core.run(box, [name] + self.scriptargs(rng), stdin=None)
            out = Outcome(key=f"{k} {name}", sample={"script": k})
            ctx.stats["scripts that cannot be read"] += 1
            if res.panic or res.hang:
                out.fail("the shell panicked or hung on a script that cannot be read", kind=k, err=model.esc(res.err))
            elif k == "not text":
                if any(e["e"] == "S" for e in res.events):
                    out.fail("something ran from a script that is not text", kind=k)
            elif res.rc == 0 or not res.err or any(e["e"] == "S" for e in res.events):
                out.fail("a script that cannot be read is not an error", kind=k, rc=res.rc, err=model.esc(res.err))
            return out

    def rule(self):
        return ("a case is a random program of single-line commands of all kinds; it is run as a script, with -c and typed to the interactive shell (as far as it makes sense there), each in a fresh copy of the same directory; "
                "each run has to do what the model says and their outputs have to be equal; some cases are scripts that cannot be read")



class C30(Seq):
    id = "C30"
    weights = {"cmd": 2, "argedge": 1, "chain": 2, "list": 1, "func": 3, "call": 1.5, "nest": .3, "asg": 4, "show": 2, "showall": .5, "export": 3, "pv": 1, "readonly": 1.5, "alias": 3, "aluse": 2, "unalias": .5, "allist": .5, "context": .7, "ctxuse": .5,
               "cd": .7, "pwd": .5, "source": 1, "eval": .5, "subst": .7, "redir": .7, "notfound": .7, "stat": 1, "unset": .7, "unsetf": .3, "pipe": .5, "path": .3, "bad": 0}
    after = {"cmd": 1, "show": 4, "showall": 1, "call": 4, "aluse": 4, "pv": 3, "cmdvar": .5, "pwd": 1.5, "asg": 1.5, "roattack": 1.5, "unset": .5, "allist": 1, "ctxuse": 1.5, "chain": 1, "stat": .5, "func": 1, "exit": .3, "subst": .5}
    size = (1, 8)
    need = ()
    fields = Seq.fields + ("env",)
    quick_n = 4000

    def case(self, rng, i, ctx):
        k = i % 8
        if i == 0:
            return self.profile(ctx)
        if k == 7:
            return self.odd(rng, i, ctx)
        return self.normal(rng, i, ctx, broken=k == 6)

    def normal(self, rng, i, ctx, broken):
        with ctx.box() as box:
            mode = rng.choice(self.modes)
            o = {"script": box.w + "/prog.sh" if rng.random() < .7 else f"{box.home}/prog", "args": self.scriptargs(rng)} if mode == "script" else {}
            g = self.gen(rng, i, ctx, box, mode, **o)
            # the startup file is one text, whatever the shell reads afterwards
            g.mode = g.m.mode = "c"
            g.build(rng.randint(*self.size))
            rc = g.lines
            if not rc or g.m.exited is not None:
                return Outcome(nontrivial=False)
            text = "\n".join(rc) + "\n"
            lay = Layout(rng, "c")
            if rng.random() < .5:
                for _ in range(5):
                    t = lay.rewrite(rc)
                    try:
                        if model.parse(t) == [x for l in rc for x in model.parse(l)] and not model.has_bad(t):
                            text = t
                            break
                    except (model.Unspec, model.BadSyntax):
                        pass
            if broken:
                ls = list(rc)
                ls.insert(rng.randint(0, len(ls)), rng.choice([b for b in model.BAD if not b.rstrip().endswith(("|", "&&", "||"))]))
                text = "\n".join(ls) + "\n"
                try:
                    model.parse(text)
                    return Outcome(nontrivial=False)
                except model.BadSyntax:
                    pass
                except model.Unspec:
                    return Outcome(nontrivial=False)
                g.m = g.replay()
            where = rng.choice(["HOME", "HOME", "HOME", "elsewhere", "link"])
            home = box.w
            if where != "HOME":
                home = f"{box.home}/users/me é"
                os.makedirs(home)
                g.env["HOME"] = home
                g.m.dirs |= {home, os.path.dirname(home)}
            g.mode = g.m.mode = mode
            if where != "HOME":
                # the model was built with the other HOME: once more from the start
                m = self.start(g, text)
                if m is None:
                    return Outcome(nontrivial=False)
                g.m = m
            elif broken:
                g.m = self.start(g, text)
            g.lines = []
            g.w = self.after
            g.build(rng.randint(1, 6))
            if not g.lines:
                return Outcome(nontrivial=False)
            g.materialize()
            path = f"{home}/.rshrc"
            if where == "link":
                real = f"{box.home}/the rc"
                os.symlink(real, path)
                path = real
            with open(path, "wb") as f:
                f.write(text.encode("utf-8", "surrogateescape"))
            prog = g.text()
            m = self.start(g, text)
            if m is None:
                return Outcome(nontrivial=False)
            try:
                m.run_text(prog)
            except model.Unspec as e:
                raise Inconclusive(f"replay: {e}")
            if where == "HOME":
                m.files[f"{box.w}/.rshrc"] = model.File(text.encode("utf-8", "surrogateescape"))
            g.shown = f"--- .rshrc\n{text}\n--- program\n{prog}"
            res = self.run(g, prog, box, mode, rng)
            out = Outcome(key=text + "\0" + prog, sample={"mode": mode, ".rshrc": text[:500], "program": prog[:300]})
            self.judge(g, m, res, out)
            self.count(ctx, g, m, res)
            ctx.stats["startup files" + (" that cannot be parsed" if broken else "")] += 1
            ctx.stats["lines of startup files"] += text.count("\n")
            ctx.stats["HOME: " + where] += 1
            if broken and not res.err and not out.violations:
                out.fail("no message for a startup file that cannot be parsed", rc=text, program=prog, mode=mode)
            return out

    def start(self, g, text):
        """the model after the startup file"""
        m = g.replay()
        m.dirs |= g.m.dirs
        mode, m.mode = m.mode, "c"
        try:
            m.run_unit(text)
        except (model.Unspec, RecursionError):
            return None
        m.mode = mode
        if m.exited is not None:
            return None
        if m.status is model.NZ and "syntax error" in m.feat:
            m.status = model.ANY
        return m

    def odd(self, rng, i, ctx):
        """there is nothing to read, or nothing that can be read, or it is not the file of the user"""
        with ctx.box() as box:
            kind = rng.choice(["none", "directory", "no permission", "not text", "empty", "comment", "blank", "no HOME", "empty HOME", "HOME is a file", "tilde", "elsewhere", "dangling", "no newline", "without the dot", "long", "blank lines"])
            mode = rng.choice(self.modes)
            env = box.env()
            rc = f"{box.w}/.rshrc"
            bad, hello = "pr from rc\n", 0
            if kind == "directory":
                os.mkdir(rc)
            elif kind in ("no permission", "no HOME", "empty HOME"):
                open(rc, "w").write(bad)
                if kind == "no permission":
                    os.chmod(rc, 0)
                elif kind == "no HOME":
                    del env["HOME"]
                else:
                    env["HOME"] = ""
            elif kind == "not text":
                open(rc, "wb").write(b"pr from rc\n\xff\xfe\x00\n")
            elif kind in ("empty", "comment", "blank"):
                open(rc, "w").write({"empty": "", "comment": "# pr from rc", "blank": "\n \t\n\n"}[kind])
            elif kind == "HOME is a file":
                env["HOME"] = f"{box.w}/h"
                open(f"{box.w}/h", "w").write(bad)
            elif kind == "tilde":
                os.mkdir(f"{box.w}/~")
                open(f"{box.w}/~/.rshrc", "w").write(bad)
            elif kind == "elsewhere":
                # files of the name, and of other shells, that are not the user's
                env["HOME"] = f"{box.home}/users"
                os.mkdir(env["HOME"])
                for d, f in ((box.w, ".rshrc"), (box.home, ".rshrc"), (box.w, ".profile"), (box.w, "rshrc"), (env["HOME"], ".bashrc"), (env["HOME"], "rshrc"), (env["HOME"], ".config")):
                    open(f"{d}/{f}", "w").write(bad)
            elif kind == "dangling":
                os.symlink("nowhere", rc)
            elif kind == "no newline":
                open(rc, "w").write("pr hello")
                hello = 1
            elif kind == "without the dot":
                open(f"{box.w}/rshrc", "w").write(bad)
                open(f"{box.w}/.rshrc~", "w").write(bad)
                open(f"{box.w}/.rsh", "w").write(bad)
            elif kind == "long":
                hello = rng.choice([300, 1000])
                open(rc, "w").write("".join(f"v{k}={k}\n" for k in range(hello)) + "".join("# " + "x" * 200 + "\n" for k in range(hello)) + f"pr $v{hello - 1}\n")
                hello = 1
            elif kind == "blank lines":
                open(rc, "w").write("pr hello\n\n\npr hello\n")
                hello = 2
            n = rng.choice([0, 1, 7, 255])
            prog = f"pr prog\nrc {n}\n" + ("exit\n" if mode == "stdin" else "")
            if mode == "stdin":
                res = core.run(box, [], stdin=prog.encode(), env=env)
            elif mode == "c":
                res = core.run(box, ["-c", prog], stdin=None, env=env)
            else:
                open(f"{box.home}/prog", "w").write(prog)
                res = core.run(box, [f"{box.home}/prog"], stdin=None, env=env)
            out = Outcome(key=f"{kind} {mode} {n}", sample={"startup file": kind, "mode": mode})
            ctx.stats["startup file: " + kind] += 1
            ran = [[core.b2s(x) for x in e["argv"]] for e in res.events if e["e"] == "S"]
            want = [["pr", x] for x in (["hello"] * hello if kind != "long" else [ran[0][1] if ran else "?"])] + [["pr", "prog"], ["rc", str(n)]]
            if kind == "long" and ran and not ran[0][1].isdigit():
                want = ["the last value of the startup file"]
            what = None
            if res.hang:
                raise Inconclusive("did not end in time: " + res.where)
            if res.panic:
                what = "the shell panicked"
            elif ran != want:
                what = f"ran {ran!r} instead of {want!r}"
            elif res.rc != n:
                what = f"exit status {res.rc} instead of {n}"
            elif mode != "stdin" and res.out:
                what = f"output {res.out[:200]!r}"
            elif kind == "not text" and not res.err:
                what = "no message for a startup file that is not text"
            elif kind in ("none", "empty HOME", "no HOME", "empty", "comment", "blank", "tilde", "elsewhere", "without the dot", "long", "no newline", "blank lines") and mode != "stdin" and res.err:
                what = f"a message: {res.err[:200]!r}"
            if what:
                out.fail(what, kind=kind, mode=mode, program=prog, stdout=model.esc(res.out), stderr=model.esc(res.err))
            return out

    def profile(self, ctx):
        """the same for ~/.profile"""
        with ctx.box() as box:
            open(f"{box.w}/.profile", "w").write("pr from profile\n")
            res = core.run(box, ["-c", "pr prog"], stdin=None)
            ran = [core.b2s(e["argv"][1]) for e in res.events if e["e"] == "S"]
            out = Outcome(key="profile", sample={"startup file": "~/.profile"})
            if ran != ["from profile", "prog"]:
                out.fail("~/.profile is not read", key="profile-not-read" if ran == ["prog"] else "profile", ran=ran)
            return out

    def rule(self):
        return ("a case is a random .rshrc and a random program that makes use of what it defines, run in one of the modes, with HOME in different places, against the model that evaluates one text after the other; "
                "some startup files cannot be parsed (nothing of them may happen), cannot be read, or are somewhere else; cases are distinct by their texts")
