"""What the shell starts with: its environment and the variables of its own (C33)."""
import os, string
import core
from core import Check, Inconclusive, Outcome, b2s, s2b

DEFAULT_PATH = "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
OWN = ("PS1", "PS2", "PS4")
# names that are no names of variables, but may be in an environment
ODD = ["A.B", "A-B", "1A", "é", "BASH_FUNC_x%%", "A B", "@", "%x", "a+", "~"]


def name(rng):
    x = rng.random()
    if x < .3:
        return rng.choice(["A", "AB", "ABC", "A1", "A_", "_A", "a", "ab", "aB", "x", "X", "LANG", "USER", "TERM", "EDITOR", "SHELL", "LC_ALL", "OLDPWD", "IFS", "ENV", "PS3", "PPPID", "PIDS", "PATHS", "PWD1", "HOMES", "CDPATH", "UID", "LINES", "HISTFILE", "TMPDIR", "PS", "PI", "PAT"])
    n = rng.choice(string.ascii_letters + "_") + "".join(rng.choice(string.ascii_letters + string.digits + "_") for _ in range(rng.choice([1, 2, 3, 5, 8, 20, 100])))
    return n if n not in ("PATH", "HOME", "PWD", "PID", "PPID", "LD_PRELOAD", *OWN) and not n.startswith(("RUST", "LD_", "GLIBC", "MALLOC", "ASAN", "SHIM")) else "zz"


def value(rng):
    x = rng.random()
    if x < .12:
        return ""
    if x < .4:
        return rng.choice(["a", "a b", " a ", "  ", "\n", "a\nb\n", "\t", "$A", "$HOME", "$(pr no)", "`pr no`", "'", '"', "a'b\"c", "\\", "\\n", "a=b", "=", "==x", "#x", "a;b", "&", "|", ">f", "*", "~", "::", "a::b", "é", "日本語", "\u00a0", "\U0001f600", "-n", "--", "!", "{a,b}", "0", "00", "\x01", "\x7f", "\x1b[1m", "\r", "\ufeff", "\ufffd"])
    if x < .43:
        return "x" * rng.choice([1000, 4095, 4096, 5000, 60000])
    return "".join(rng.choice("abcXYZ019 =$;'\"\\/:.é\n") for _ in range(rng.randint(1, 30)))


class C33(Check):
    id = "C33"
    technique = "runtime monitoring: probe event logs (arguments, environment, process ids) of shells started with generated environments"
    note = "What commands receive for variables is compared with the environment the shell was started with, its process id and its parent's, and the documented defaults; the environment of every command is compared byte by byte."
    quick_n, thorough_n = 8000, 60000
    quick_s = 70

    def environment(self, rng, box):
        """-> env, the variables that have a specified value"""
        env, vs = {}, {}
        for _ in range(rng.choice([0, 1, 3, 8, 8, 20, 300])):
            n = name(rng)
            env[n] = vs[n] = value(rng)
        if sum(map(len, env.values())) > 500000:
            env = {k: v[:1000] for k, v in env.items()}
            vs = dict(env)
        for _ in range(rng.choice([0, 0, 1, 2])):
            env[rng.choice(ODD)] = value(rng)
        if rng.random() < .15:
            env[name(rng) + "_b"] = rng.choice(["\udcff", "a\udc80b", "\udcc3", "é\udca9"])        # not UTF-8
        for n, p in zip(OWN, ("$ ", "> ", "+ ")):
            if rng.random() < .25:
                env[n] = vs[n] = rng.choice(["> ", "% ", "", "λ ", "$ ", "a b", "PS1", "+"])
            else:
                vs[n] = p
        x = rng.random()
        if x < .7:
            env["PATH"] = vs["PATH"] = rng.choice([box.bin, box.bin + ":/bin", "/usr/bin:" + box.bin])
        elif x < .97:
            vs["PATH"] = DEFAULT_PATH
        else:
            env["PATH"] = vs["PATH"] = rng.choice(["/bin", "/nowhere"])
        x = rng.random()
        if x < .85:
            env["HOME"] = vs["HOME"] = rng.choice([box.w, box.w, box.home + "/h é", "/nonexistent"])
        if rng.random() < .3:
            env["PWD"] = box.w
        vs["PWD"] = box.w
        return env, vs

    def case(self, rng, i, ctx):
        with ctx.box() as box:
            os.makedirs(f"{box.home}/h é", exist_ok=True)
            env, vs = self.environment(rng, box)
            root = rng.random() < .12
            if root and "PS1" not in env:
                vs["PS1"] = "# "
            mode = rng.choice(["script", "c", "stdin"])
            bare = not env.get("PATH", "").startswith(box.bin)
            cmd = lambda n: f"{box.bin}/{n}" if bare else n
            names = sorted(vs)
            want, lines, n, rc = {}, [], [0], None

            def words(inq):
                """some words and what they stand for; inside single quotes if inq"""
                ws, xs = [], []
                for _ in range(rng.choice([1, 1, 2, 3, 6])):
                    v = rng.choice(names) if rng.random() < .55 else rng.choice(["PS1", "PS2", "PS4", "PATH", "PWD", "PID", "PPID", "PID", "PPID"])
                    x = "\0" + v if v in ("PID", "PPID") else vs[v]
                    k = rng.randrange(5)
                    ws.append(["$" + v, f'"${v}"', f'"<${v}>"', f'" ${v} ${v}"', f'"-${v}."'][k])
                    xs.append([(x,), (x,), ("<", x, ">"), (" ", x, " ", x), ("-", x, ".")][k])
                return " ".join(ws), xs

            def obs(inq=False):
                n[0] += 1
                w, x = words(inq)
                want[f"t{n[0]}"] = x
                return f"{cmd('prt')} t{n[0]} {w}"

            def here():
                k = rng.randrange(18)
                p = cmd("prt")
                if k <= 2:
                    return [obs()]
                if k == 3:
                    return [f"f() {{ {obs()} ; }}", "f"]
                if k == 4:
                    return [f"g() {{ h ; {obs()} ; }}", f"h() {{ {obs()} ; }}", "g"]
                if k == 5:
                    return [f"eval '{obs(True)}'"]
                if k == 6:
                    with open(f"{box.home}/s{n[0]}", "w") as f:
                        f.write(obs() + "\n" + obs() + "\n")
                    return [f"{rng.choice(['.', 'source'])} ../s{n[0] - 2}"]
                if k == 7:
                    return [f"{cmd('rc')} $({obs()})"]
                if k == 8:
                    return [f"{obs()} | {cmd('cat')}"]
                if k == 9:
                    return [f"{cmd('rc')} | {obs()} | {cmd('sink')}"]
                if k == 10:
                    return [f"! {obs()}"]
                if k == 11:
                    return [f"{cmd('rc')} 1 || {obs()}", f"{obs()} && {obs()}"]
                if k == 12:
                    return [f"alias al='{obs(True)}'", "al"]
                if k == 13:
                    return [f"{obs()} > {box.home}/outfile"]
                if k == 14:
                    v = rng.choice(names + ["PID", "PPID"])
                    t = f"t{n[0] + 1}"
                    n[0] += 1
                    want[t] = [("\0" + v if v in ("PID", "PPID") else vs[v],)]
                    return [f"zcopy={rng.choice(['$' + v, f'{chr(34)}${v}{chr(34)}'])}", f'{p} {t} "$zcopy"']
                if k == 15 and vs["PATH"] != "/nowhere":
                    t, u = f"t{n[0] + 1}", f"t{n[0] + 2}"
                    n[0] += 2
                    # a program of the system is found
                    want[t] = []
                    return [f"ls / > {box.home}/ls && {p} {t} || {p} {u}"] if {"/bin", "/usr/bin"} & set(vs["PATH"].split(":")) else [f"ls / > {box.home}/ls || {p} {t}"]
                if k == 16 and rc is None:
                    # a shell started by the shell
                    n[0] += 1
                    want[f"t{n[0]}"] = [("\0inner",), ("\0PID",), ("<", vs["PS2"], ">")]
                    return [f"{box.ctx.rsh} -c '{p} t{n[0]} $PID $PPID \"<$PS2>\"'"]
                v = rng.choice([x for x in names if x not in OWN] or ["PATH"])
                if v in env and v not in ("PATH", "HOME", "PWD"):
                    n[0] += 1
                    want[f"t{n[0]}"] = [(vs[v],)]
                    # what is put in front of one command is not seen by the next
                    return [f"{v}=other {cmd('rc')}", f'{p} t{n[0]} "${v}"']
                return [obs()]

            if rng.random() < .25 and env.get("HOME") in (box.w, box.home + "/h é"):
                rc = ""           # which every shell reads
                rc = "\n".join(here() if rng.random() < .5 else [obs()]) + "\n"
                with open(env["HOME"] + "/.rshrc", "w") as f:
                    f.write(rc)
            for _ in range(rng.randint(1, 7)):
                lines += here()
            last = None
            if rng.random() < .4:
                last = f"t{n[0] + 1}"
                lines.append("exec " + obs())
            text = "\n".join(lines) + "\n"
            argv = [["-c", text], [box.home + "/prog"], []][["c", "script", "stdin"].index(mode)]
            if mode == "script":
                with open(box.home + "/prog", "w") as h:
                    h.write(text)
            exe, argv0 = None, None
            if root:
                argv, exe, argv0 = ["-Ur", ctx.rsh] + argv, "/usr/bin/unshare", "unshare"
            member = not root and rng.random() < .2
            if member:
                # a member of the process group of its parent
                argv, exe, argv0 = [ctx.rsh, "rsh"] + argv, f"{box.bin}/mem", "mem"
                box.link("bin/mem")
            res = core.run(box, argv, stdin=text.encode("utf-8", "surrogateescape") if mode == "stdin" else None, env=env, exe=exe, argv0=argv0)
            out = Outcome(key=text + repr(sorted(env.items())), sample={"mode": mode, "environment": {k: v[:60] for k, v in list(env.items())[:8]}, "program": text[:600]})
            if root and b"unshare" in res.err:
                raise Inconclusive("no user namespace")
            if res.hang:
                raise Inconclusive("did not end in time: " + res.where)
            bad = []
            got = {}
            me, parent = res.pid, os.getpid()
            if member:
                me, parent = next((e["child"] for e in res.events if e["e"] == "L"), None), res.pid
            for e in res.events:
                if e["e"] != "S" or e["argv"][0] == "mem":
                    continue
                a = [b2s(x) for x in e["argv"]]
                if len(a) > 1 and a[1].startswith("t"):
                    if a[1] in got:
                        bad.append(f"{a[1]} was executed twice")
                    got[a[1]] = (a, e)
                # the environment, apart from what the program puts in front of rc
                ev = sorted(e["env"])
                exp = sorted(s2b(f"{k}={v}") for k, v in env.items())
                if ev != exp and os.path.basename(a[0]) != "rc":
                    bad.append(f"the environment of {a[:2]} has {[b2s(x)[:80] for x in ev if x not in exp][:4]} instead of {[b2s(x)[:80] for x in exp if x not in ev][:4]}")
                ctx.stats["environments compared"] += 1
            for t in sorted(set(want) - set(got)):
                bad.append(f"{t} was not executed")
            for t in sorted(set(got) - set(want)):
                bad.append(f"{t} was executed")
            for t, (a, e) in got.items():
                for k, parts in enumerate(want.get(t, [])):
                    sub = {"\0PID": str(me), "\0PPID": str(parent), "\0inner": str(e["ppid"])}
                    x = "".join(sub.get(p, p) for p in parts)
                    g = a[k + 2] if len(a) > k + 2 else None
                    ctx.stats["values compared"] += 1
                    for p in parts:
                        if p[:1] == "\0":
                            ctx.stats["values of " + p[1:]] += 1
                    if g != x:
                        bad.append(f"argument {k + 1} of {t} is {(g if g is None else g[:200])!r} instead of {x[:200]!r}")
                if len(a) - 2 != len(want.get(t, a[2:])):
                    bad.append(f"{t} got {len(a) - 2} arguments")
            if last and last in got and got[last][1]["pid"] != me:
                bad.append("exec started a process")
            ctx.stats["shells started"] += 1
            ctx.stats["variables in environments"] += len(env)
            ctx.stats["as root of a user namespace"] += root
            ctx.stats["as a member of a process group"] += member
            ctx.stats["without PATH"] += "PATH" not in env
            ctx.stats["mode " + mode] += 1
            if bad:
                out.fail(bad[0], more=bad[1:6], program=text, rc=rc, mode=mode, environment={k: v[:200] for k, v in list(env.items())[:40]}, stderr=res.err[-500:].decode("utf-8", "replace"))
            return out

    def rule(self):
        return ("a case is an environment (up to 300 variables, odd names and values, with or without PATH, HOME, PWD, PS1, PS2, PS4), a mode and a program that passes variables to probes in functions, substitutions, pipelines, aliases, sourced and startup files; "
                "cases are distinct by environment and program")
