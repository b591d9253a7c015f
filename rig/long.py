"""Long sessions: what a shell that has done something many thousand times looks like."""
import os
import core, model
from core import Check, Inconclusive, Outcome, b2s

# lines that leave the shell as they found it, when done again and again; F are without processes, P with them
F = ["a=x", "a=xyz b=$a", "a=$a", "a=\"$a\" ; c=\"<$b>\"", "export E=v", "E=w", "export E", "unset u", "u=1 ; unset u", "readonly r", "r=2", "f", "f x 'y z'", "f $a ; f \"$b\"", "g 1 2 3", "h 1", "k && k || f", "! k", "n1 q", "l ; l",
     "m x", "alias al=f", "al x", "alias al2='f 1' ; al2 2 ; unalias al2", "alias bl=f ; unalias bl", "unalias nothere", "cd d ; cd ..", "cd ./d && cd .. || cd /", "cd no_such_dir", "pwd", "eval 'a=1'", "eval f x", "eval 'eval f'", "eval '| x'",
     ". ./lib", ". ./lib 1 2", "source ./lib 'a b' \"$a\" 3 4 5 6", "bk", "bk x y || f", "eval '{ a=1 ; }'", ". ./br", "source ./bad", ". ./none", ". lib2", "export context c=./lib ; unset -c c", "export context c=./lib", "export context c=./none", "export context c=./br", "prtc=$c::lx", "c2::lf 1", "export context self ; unset -c self", "c2::lf && c2::lf",
     "jobs", "fg 99", "fg %7", "bg %7", "fg", "no_such_command", "no_such_command a b || a=1", "/no/such x", "./d", "exec no_such_command", "exec -c ./none x", "| x", "f ( x", "f() { ", "\"open", "# comment", "", "   ", "f # comment", "> out", ">> out2", "< none",
     "q() { f 1; }", "q() { f 1; } ; q ; unset -f q", "unset -f nothere", "return", "w() { w2() { a=1; } ; w2 ; } ; w ; w", "PATH=$PATH", "PS1='$ '", "cd", "cd $HOME", "unset c::x", "f 'a b' \"$a $b\" c d e f g h i j k"]
P = ["nop", "nop 3", "nop 0 ; nop 1 || nop", "nop && nop 2 || f", "nop | nop", "nop | nop 1 | nop | nop 5", "! nop | nop", "a=\"$(nop 0 text)\"", "f $(nop 0 'a b c')", "a=\"$(f x)\"", "f `nop 0 x`", "a=\"$(nop 0 $(nop 0 y))\"", "nop 0 x > out", "nop 0 x >> /dev/null",
     "nop < in", "nop < none", "nop > /no/such", "A=1 B=$a nop", "fn", "al3", "eval 'nop ; nop'", ". ./libn", "nki", "nki | nop", "nop | nki || f", "nop | no_such_command", "no_such_command | nop", "exec ./d/notexec", "./notexec", "b=\"$(no_such_command)\"",
     "a=\"$(cd d ; pwd)\"", "c2::ln", "nop x 3> out 4< in", "> out nop", "nop 0 text > out 2> out4 < in"]
I = ["nop &", "nop 1 &", "nop | nop &", "nki &", "no_such_command &", "fn &", "a=1 nop &"]
S = ["nst\nfg %1", "nst 3\nfg %1\njobs", "nst | nst\nfg %1", "nst | nop\nfg %1", "nop | nst 2\njobs\nfg %1"]
DEFS = ["f() { lv=1 ; lw=$1 ; }", "g() { f $1 ; f $2 $3 ; return 0 ; }", "h() { k && return 3 ; f ; }", "k() { return 0 ; a=2 ; }", "bk() { lb=$1 ; { a=2 ; } ; a=3 ; }", "n1() { n2 $1 a ; }", "n2() { n3 $2 b ; n3 $1 ; }", "n3() { lz=$1 ; return ; }", "l() { lq=1 ; unset lq ; export LE=1 ; }",
        "m() { inner() { lx=$1 ; } ; inner $1 ; unset -f inner ; }", "fn() { nop 3 ; return 2 ; }", "alias al=f", "alias al3='nop 0'", "a=x b=y", "readonly r=1", "export context c2=./lib"]
FILES = {"lib": "lx=1\nly=$lx\nlf() {\n  lz=$1\n}\nln() { nop 0 ; }\n", "libn": "nop 1\nlx=2\nnop\n", "bad": "a=1\n| x\n", "br": "a=1\n{ a=2 ; }\n", "in": "text\n", "p/lib2": "la=1\n", "d/x": "", "notexec": "text", "d/notexec": "\x7fELF"}


class C31(Check):
    id = "C31"
    technique = "runtime monitoring: memory, descriptors, processes and processor time of the shell after thousands of repetitions"
    note = ("The memory of the shell, its descriptors, its threads, its children and the processor time it needs are measured from within the session at four points; between the last ones the shell does the same things thousands of times. "
            "A growth of less than the tolerance (100 to 400 bytes per line) is not seen.")
    quick_n, thorough_n = 200, 3000
    quick_s = 110
    assumptions = ["/proc tells the memory and the processor time of the shell truthfully", "what the C library's allocator keeps stays below the tolerance"]

    def case(self, rng, i, ctx):
        with ctx.box(core.NAMES + ["nop", "nst", "nki", "pst"]) as box:
            for f, t in FILES.items():
                p = f"{box.w}/{f}"
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as h:
                    h.write(t)
            for f in ("notexec", "d/notexec"):
                os.chmod(f"{box.w}/{f}", 0o755)
            mode = rng.choice(["stdin", "stdin", "script"])
            kind = rng.choice(["F", "F", "P"] + (["I", "S"] if mode == "stdin" else []))
            pool = {"F": F, "P": P, "I": I, "S": S}[kind]
            one = [l for l in pool if mode == "script" or model.balanced(l)]
            lines = [one[(i * 7 + 3) % len(one)]] if i % 2 else [rng.choice(one) for _ in range(rng.choice([2, 3, 5]))]
            if kind != "F" and rng.random() < .3:
                lines.append(rng.choice([l for l in F if l and (mode == "script" or model.balanced(l))]))
            reps = {"F": 6000, "P": 900, "I": 700, "S": 700}[kind] // len(lines)
            if ctx.tier == "thorough":
                reps *= 2
            block = ("\n".join(lines) + "\n") * reps
            pst = "pst\n"
            text = "\n".join(DEFS) + "\n" + "\n".join(lines) + "\n" + pst + block + pst + block + pst + block + pst
            env = box.env(PATH=f"{box.bin}:{box.w}/p", E="e")
            if mode == "stdin":
                if len(text) > 900000:
                    return Outcome(nontrivial=False)
                res = core.run(box, [], stdin=text.encode() + b"exit\n", env=env, timeout=80)
            else:
                with open(f"{box.home}/prog", "w") as h:
                    h.write(text)
                res = core.run(box, [f"{box.home}/prog"], stdin=None, env=env, timeout=80)
            out = Outcome(key="\n".join(lines) + mode, sample={"mode": mode, "repeated": lines, "times": 3 * reps})
            if res.panic:
                out.fail("the shell panicked", lines=lines, mode=mode, err=model.esc(res.err[-600:]))
                return out
            ms = [e for e in res.events if e["e"] == "S" and "rss" in e]
            if res.hang or len(ms) != 4:
                raise Inconclusive(f"{len(ms)} of 4 measurements: {lines} {res.hang and res.where}")
            n = reps * len(lines)
            ctx.stats["sessions " + mode] += 1
            ctx.stats["lines executed"] += 3 * n
            grow = [ms[k + 1]["rss"] - ms[k]["rss"] for k in range(3)]
            cpu = [ms[k + 1]["user"] + ms[k + 1]["sys"] - ms[k]["user"] - ms[k]["sys"] for k in range(3)]
            if os.environ.get("RIG_DEBUG"):
                print(mode, lines, n, [m["rss"] for m in ms], [m["data"] for m in ms], cpu, [m["nfd"] for m in ms], [m["others"] for m in ms], flush=True)
            limit = 300
            what = None
            if ms[3]["nfd"] != ms[1]["nfd"]:
                what = f"the shell has {ms[3]['nfd']} open descriptors after {3 * n} lines, {ms[1]['nfd']} after {n}"
            elif ms[3]["threads"] != ms[1]["threads"]:
                what = f"the shell has {ms[3]['threads']} threads after {3 * n} lines, {ms[1]['threads']} after {n}"
            elif ms[3]["others"] > 40 and ms[3]["others"] > ms[1]["others"] + 20:
                what = f"the shell has {ms[3]['others']} children left after {3 * n} lines, {ms[1]['others']} after {n}"
            elif grow[1] > limit and grow[2] > limit:
                what = f"the shell grows: by {grow[0]}, {grow[1]} and {grow[2]} kB in blocks of {n} lines"
            elif cpu[2] > 2.5 * cpu[0] + 30 and cpu[2] > 1.2 * cpu[1]:
                what = f"the shell becomes slower: {cpu[0]}, {cpu[1]} and {cpu[2]} hundredths of a second for blocks of {n} lines"
            if what:
                out.fail(what, lines=lines, mode=mode)
            return out

    def rule(self):
        return ("a case is a session or script in which a few lines are repeated thousands of times in three equal blocks; the shell's memory, descriptors, children and processor time are compared between the blocks; "
                "cases are distinct by the lines and the mode")
