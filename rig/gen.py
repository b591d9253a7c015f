"""Random programs in the language the properties speak about, each statement tried out on the model first."""
import os, re
import model
from model import BAD, BadSyntax, BUILTINS, File, KEYWORDS, NAME, Shell, Unspec, balanced, tokenize, wordch

PLAIN = ["pr", "pa", "pb", "pc", "pd", "pe", "pf", "pg"]
ODD = ["bare_é", "x.y-z", "for_", "@at", "+plus", ",c", "%p", "^h", "~t"]
HOSTILE = ["", " ", "  ", "a b", " a", "b ", "a  b", "\ta", "$HOME", "$a", "${a}", "$1", "a=b", "=", "==x", "x==", "*", "?", "[a]", "#", "#x", "a#b", "a;b", "x|y", "&&", "a&",
           ">f", "<", "(x)", "{x}", "!", "!x", "~", "~/x", "-n", "--", "-", "-a", "-c", "-p", "\\", "\\n", "a\\", "\\\"", "it's", "'q'", "\"q\"", "\"", "'", "`x`", "$(pr)", "%s", "%n",
           "é", "日本語", "🦀", "a\u00a0b", "\u00a0", "ß", "é", "for", "in", "while", "done", "if", "fi", "then", "do", "case", "esac", "until", "else", "elif", "0", "1", "00", "-1", "9" * 25,
           "true", "exit", "cd", "return", "export", "alias", "source", ".", "..", "/", "//", "...", "a:b", ":", "::", "a::b", ",", "^", "@", "%1", "+x", "x" * 300, "1>", "2", "$", "a$", "$$", "&",
           "a\nb", "\n", "a\n", "\na\n\n", "a\rb", "\r", "a\r", "\x0b", "a\x0cb", "\x1b[1m", "a\x01b", "\x7f", "a'b\"c", "' '", "\" \"", "a\\ b", "x'", "x\"", "function", "{", "}", "self", "context", "context=1", "name=a b", "PATH=/", "0=1"]
VARS = ["a", "b", "c", "ab", "abc", "x1", "x11", "x2", "foo", "foo_bar", "foobar", "BAR", "_u", "Q", "LONG_variable_name_0123456789", "v9", "HOMEX", "PATHS", "e1", "e2", "E3", "e_4"]
FUNS = ["f", "g", "h", "k1", "fun_2", "go", "f.x", "ff"]
ALS = ["al", "al2", "ll", "gg", "a.b", "x-y", "alx", "pr2"]


def anchor(n):
    return [n - 1, n, n + 1]


class Gen:
    def __init__(self, rng, box, mode, weights, **opts):
        self.r, self.box, self.mode = rng, box, mode
        self.w = weights
        self.o = opts
        self.lines = []
        self.setup()
        self.m = Shell(box, mode, env=self.env, script=opts.get("script"), args=opts.get("args", ()), dirs=self.dirs, links=self.links)
        self.m.files = {k: File(v) for k, v in self.files.items()}
        self.m.perm_denied = self.denied()
        self.m.allow = set(opts.get("allow", ()))
        self.std = set(self.files)
        self.fresh = 0
        self.arity = {}
        self.nsfiles = {}

    # -- the world
    def setup(self):
        w, r = self.box.w, self.r
        self.dirs = {f"{w}/{d}" for d in ("d", "d/e", "d/e/f", "d 2", "ünï", "src", "p1", "p2", "-d", "d ", " d", "d\t", "p1 ")}
        self.links = {f"{w}/ln": "d/e", f"{w}/l 2": f"{w}/d 2", f"{w}/d/up": ".."}
        self.files = {f"{w}/in": b"some text\nsecond line\n", f"{w}/in 2": b"two", f"{w}/d/data": b"\x00\xff\n" * 9, f"{w}/empty": b"", f"{w}/d 2/x": b"x", f"{w}/ro": b"only to be read\n", f"{w}/wo": b"only to be written\n"}
        self.perms = {f"{w}/ro": 0o444, f"{w}/wo": 0o222}
        self.env = self.box.env(LANGX="C", e1="one", E3="a b")
        if r.random() < .4:
            self.env["e2"] = r.choice(["", "a\udcffb", "a\nb\n", "x\n", "\n", "\ta\r", "$a", "x y  z", "é", "a'b", 'say "hi"', "=", "-"])

    def denied(self):
        """what the permissions of files forbid: (path, reading)"""
        return {(f, False) for f, m in self.perms.items() if not m & 0o200} | {(f, True) for f, m in self.perms.items() if not m & 0o400}

    def materialize(self):
        for d in sorted(self.dirs):
            os.makedirs(d, exist_ok=True)
        for l, t in self.links.items():
            os.symlink(t, l)
        for f, b in self.files.items():
            os.makedirs(os.path.dirname(f), exist_ok=True)
            if f in self.perms and os.path.exists(f):
                os.unlink(f)
            with open(f, "wb") as fh:
                fh.write(b)
            if f in self.perms:
                os.chmod(f, self.perms[f])

    def newfile(self, path, data):
        """a file that is there before the shell starts"""
        if path in self.m.files or path in self.files:
            return False
        self.files[path] = data
        self.m.files[path] = File(data)
        return True

    # -- building
    def ok(self, lines):
        """tries the lines out; the state moves on if they are within what is specified"""
        t = self.m.fork_state()
        try:
            for k, l in enumerate(lines):
                if "\n" in l and self.mode != "c":
                    return False
                t.run_unit(l)
                if t.exited is not None and k < len(lines) - 1:
                    return False
        except (Unspec, RecursionError):
            return False
        except BadSyntax:
            return False
        if self.mode == "c" and any(model.has_bad(l) for l in lines):
            return False
        self.m = t
        self.lines += lines
        return True

    def build(self, n, tries=12):
        names = list(self.w)
        ws = [self.w[k] for k in names]
        made = 0
        for _ in range(n * tries):
            if made >= n or self.m.exited is not None:
                break
            k = self.r.choices(names, ws)[0]
            t = getattr(self, "s_" + k)()
            if t is None:
                continue
            if isinstance(t, str):
                t = [t]
            if self.ok(t):
                made += 1
        return self

    def text(self):
        return "\n".join(self.lines) + ("\n" if self.mode != "c" and self.lines else "")

    def replay(self):
        """the model of a run of the whole text"""
        m = Shell(self.box, self.mode, env=self.env, script=self.o.get("script"), args=self.o.get("args", ()), dirs=self.dirs, links=self.links)
        m.files = {k: File(v) for k, v in self.files.items()}
        m.perm_denied = self.denied()
        m.allow = self.m.allow
        return m

    # -- words
    def lit(self):
        r = self.r
        x = r.random()
        if x < .03:
            return str(r.choice([0, 1, 2, 7, 9, 10, 42, 255, 1024, 999999]))
        if x < .45:
            return "".join(r.choice("abcdefgxyz0189_-./,+@:") for _ in range(r.randint(1, 7)))
        if x < .85:
            return r.choice(HOSTILE)
        if x < .9:
            return r.choice(HOSTILE) + r.choice(HOSTILE)
        if x < .93:
            return "".join(r.choice("ab \t'\"$`\\#;|&<>(){}!*=~é🦀\u2003") for _ in range(r.randint(1, 9)))
        if x < .935:
            return "y" * r.choice([255, 256, 1023, 4096, 4097, 30000])
        return "".join(chr(r.choice([r.randint(33, 126), r.randint(0xa1, 0x2ff), r.randint(0x4e00, 0x4eff)])) for _ in range(r.randint(1, 5)))

    def spell(self, v, bare=True, value=False):
        """a way to write a value; None if there is none"""
        r, ways = self.r, []
        if "\n" in v and self.mode != "c":
            return None
        if value and all(wordch(c) or c == "=" for c in v) and "'" not in v and '"' not in v:
            return v if r.random() < .5 else self.spell(v)
        if bare and v and all(wordch(c) for c in v) and not v.startswith("#") and "'" not in v and '"' not in v:
            ways += ["b"] * 3
        if "'" not in v:
            ways.append("s")
        if not any(c in v for c in "\"$`"):
            ways.append("d")
        if not ways:
            return None
        k = r.choice(ways)
        return v if k == "b" else f"'{v}'" if k == "s" else f'"{v}"'

    def vars_(self):
        return sorted({n for c in self.m.ctxs for n in c if n in VARS})

    def dq(self):
        r, s = self.r, ""
        vs = self.vars_()
        for _ in range(r.randint(1, 4)):
            if vs and r.random() < .5:
                s += "$" + r.choice(vs) + r.choice(["", " ", "-", "/", ".", "'", "=", ",", "$HOME", "  ", "\\", "é"[:0] + "#", ";", "|"])
            else:
                v = self.lit()
                if not any(c in v for c in "\"$`\n"):
                    s += v + r.choice(["", " "])
        return f'"{s}"'

    def arg(self, sub=.05):
        r = self.r
        x = r.random()
        vs = self.vars_()
        if x < .18 and vs:
            return "$" + r.choice(vs)
        if x < .28 and vs:
            return '"$' + r.choice(vs) + '"'
        if x < .4:
            return self.dq()
        if x < .4 + sub:
            return self.substitution()
        if x < .5 + sub / 2 and r.random() < .4:
            v = self.spell(self.lit(), value=True)
            if v is not None:
                return r.choice(["a", "name", "x1", "foo", "--opt", "1", "-D", "a.b", "é"]) + "=" + v
        return self.spell(self.lit()) or "zz"

    def args(self, lo=0, hi=5, **k):
        return [self.arg(**k) for _ in range(self.r.randint(lo, hi))]

    def esc(self, v):
        return "".join("\\s" if c == " " else "\\n" if c == "\n" else "\\t" if c == "\t" else c if c.isalnum() and ord(c) < 128 else
                       "".join("\\x%02x" % b for b in c.encode("utf-8", "surrogateescape")) for c in v)

    def sp(self, l):
        return " ".join(x for x in l if x is not None)

    def substitution(self, body=None):
        r = self.r
        b = body or self.subbody()
        k = r.random()
        if k < .4:
            return f"$({b})"
        if k < .75 and '"' not in b:
            return f'"$({b})"'
        if k < .85 and "`" not in b:
            return f"`{b}`"
        if '"' in b or "`" in b:
            return f"$({b})"
        return f'"`{b}`"' if r.random() < .6 else f'"x $({b}) y"'

    def subbody(self):
        r = self.r
        x = r.random()
        if x < .45:
            return "put '" + self.esc(r.choice(["", "\n\n", "x", "a b", " a  b ", "\ta\n\n", "$a", "$(pr)", "`x`", "it's", "\"q\"", "a\nb\nc", "é 🦀", "*", "\\n", "#x y", "a\n", "&& x", "> f"]
                                               + [self.lit()])) + "'"
        if x < .55:
            return "prt " + self.sp(self.args(1, 3, sub=0))
        if x < .65:
            return "put 'a\\sb' ; pr " + r.choice(["x", "y"])
        if x < .75:
            return "put 'line1\\nline2\\n' | cat"
        fs = self.funs()
        if x < .85 and fs:
            return self.call(r.choice(fs))
        if x < .92:
            return r.choice(["pwd", "pcwd", "pv e1", "pv PATHS"])
        return "a=inner ; prt $a"

    # -- commands
    def cmd(self, **k):
        r = self.r
        x = r.random()
        n = r.choice(PLAIN if x < .8 else ODD)
        if r.random() < .02:
            return self.sp([n] + [f"{i}" for i in range(r.choice([40, 99, 101, 300, 600, 1100, 2100, 5000]))])
        return self.sp([n] + self.args(**k))

    def stat(self):
        """a command made for its status"""
        r = self.r
        x = r.random()
        if x < .4:
            return "rc 0"
        if x < .75:
            return f"rc {r.choice([1, 1, 1, 2, 3, 126, 127, 128, 129, 130, 137, 254, 255, r.randint(1, 255)])}"
        if x < .83:
            return f"die {r.choice([1, 2, 3, 4, 6, 8, 9, 10, 11, 13, 14, 15, 31, 34, 50, 64])}"
        if x < .9:
            return r.choice(["no_such_command", "nope x y", "no/such/file", "./nothing", "/no/such"])
        if x < .95:
            return r.choice(["cd", "cd .", "pwd", "cd no_such_dir", "alias zz=pr", "unalias no_such", "export e1=1"])
        return r.choice(["a=1", "b='x y'", "pr | rc 0", "pr | rc 3", "rc 3 | rc 0", "rc 0 | rc 200", "pr | no_such_command"])

    def funs(self):
        return [f for f in self.arity if self.m.function(f) is not None]

    def call(self, f, **k):
        n = self.arity.get(f, 0)
        return self.sp([f] + [self.arg(sub=0) for _ in range(n + self.r.choice([0, 0, 0, 1, 3]))])

    def simple(self):
        r = self.r
        x = r.random()
        if x < .35:
            return self.cmd(lo=0, hi=3)
        if x < .6:
            return self.stat()
        if x < .7:
            return "prt " + self.sp(self.args(1, 2))
        fs = self.funs()
        if x < .8 and fs:
            return self.call(r.choice(fs))
        if x < .9:
            return self.asg()
        return r.choice([self.pipe(small=True), self.redir(), "pwd", self.cdtext()])

    def s_cmd(self):
        return self.cmd()

    def s_prt(self):
        return "prt " + self.sp(self.args(1, 5))

    def s_argedge(self):
        """words at the edges of their forms"""
        r = self.r
        v = r.choice(HOSTILE)
        ways = [f"'{v}'"] if "'" not in v else []
        if not any(c in v for c in "\"$`"):
            ways.append(f'"{v}"')
        if v and all(wordch(c) for c in v) and v[0] != "#" and "'" not in v and '"' not in v:
            ways.append(v)
        if not ways:
            ways = ["$(put '" + self.esc(v) + "')"]
        k = r.randint(1, 4)
        return self.sp([r.choice(PLAIN)] + [r.choice(ways) if r.random() < .7 else self.arg() for _ in range(k)])

    def s_chain(self):
        r = self.r
        s = ("! " if r.random() < .15 else "") + self.stat()
        for _ in range(r.choice([1, 1, 2, 2, 3, 4, 5, 7])):
            op = r.choice(["&&", "||"])
            nl = "\n" if self.mode == "c" and r.random() < .1 else " "
            s += f" {op}{nl}" + ("! " if r.random() < .15 else "") + (self.stat() if r.random() < .6 else self.simple())
        return s

    def s_list(self):
        r = self.r
        return r.choice([" ; ", "; ", ";"]).join(self.simple() for _ in range(r.randint(2, 6))) + r.choice(["", ";", " ;"])

    def s_tight(self):
        """operators right behind their words"""
        r = self.r
        w = lambda: r.choice(["0", "1", "2", "9", "10", "42", "x", "1x", "x1", "'q'", '"q"', "a=1", "$e1", "-1", "+1", "1.5", "é", "a=2", "a=22"])
        c = lambda: self.sp([r.choice(["prt", "pr", "prt"])] + [w() for _ in range(r.randint(1, 3))])
        x = r.random()
        if x < .3:
            return c() + "|" + r.choice(["", " "]) + r.choice(["cat", "cat|cat", "cnt", "cnt 0|cat"])
        if x < .5:
            return c() + r.choice(["&&", "||", ";"]) + c() + r.choice(["", ";"])
        if x < .65:
            return f"pr $({c()}) \"$({c()})\" `{c()}`"
        if x < .8:
            k = self.fresh
            self.fresh += 1
            return [f"tf{k}(){{ {c()};}}", f"tf{k} {w()};tf{k} {w()}&&prt {w()}"]
        return r.choice([f"rc {r.randint(0, 9)}&&prt y||prt n", f"rc {r.randint(0, 9)}|cat|rc 3||prt 5", f"prt {w()}>o1;cat<o1", f"prt 'x'>o2;cat <o2|cnt;prt 1"])

    def s_bang(self):
        return "! " + self.r.choice([self.stat(), self.cmd(hi=2), self.pipe(small=True)]) + self.r.choice(["", " && pr yes || pr no"])

    def s_stat(self):
        return self.stat() + self.r.choice(["", "", " && prt yes", " || prt no", " && prt yes || prt no"])

    def s_notfound(self):
        return self.r.choice(["no_such_command a b", "./none", "/nothing/here", "d", "./d", "nope | pr", "pr | nope", "rc 0 | nope | cat"])

    # -- variables
    def value(self):
        r = self.r
        x = r.random()
        vs = self.vars_()
        if x < .15 and vs:
            return r.choice(['"$%s"', "$%s"]) % r.choice(vs)
        if x < .3:
            return self.dq()
        if x < .4:
            b = self.subbody()
            return f'"$({b})"' if '"' not in b else f"$({b})"
        v = self.spell(self.lit(), value=True)
        return "''" if v is None else v

    def asg(self):
        return self.r.choice(VARS) + "=" + self.value()

    def s_asg(self):
        r = self.r
        n = r.choice([1, 1, 1, 1, 2, 3, 10])
        ws = [self.asg() for _ in range(n)]
        if n > 1 and r.random() < .4:
            # of an earlier one
            k = r.randrange(1, n)
            m = ws[r.randrange(k)].split("=")[0]
            ws[k] = ws[k].split("=")[0] + "=" + r.choice(["$%s", '"$%s"', '"<$%s> $%s"', '"$(prt $%s)"']).replace("%s", m)
        return self.sp(ws)

    def s_show(self):
        vs = self.vars_()
        if not vs:
            return None
        r = self.r
        k = [r.choice(vs) for _ in range(r.randint(1, 4))]
        return r.choice(["pr ", "prt ", "pa "]) + " ".join(r.choice(["$%s", '"$%s"', '"[$%s]"', '"$%s "']) % v for v in k)

    def s_showall(self):
        vs = self.vars_()
        return "prt " + " ".join(f'"$%s"' % v for v in vs) if vs else None

    def s_unset(self):
        r = self.r
        vs = self.vars_()
        if not vs:
            return None
        if len(vs) > 1 and r.random() < .35:
            ns = r.sample(vs, min(len(vs), r.choice([2, 2, 3, 5])))
            return [r.choice(["unset ", "unset -v ", "unset "]) + self.sp(ns)] + [f"pv {n}" for n in ns] + ([f"pr ${r.choice(ns)} $" + r.choice(ns)] if "dead" in self.m.allow else [])
        v = r.choice(vs)
        k = r.choice(["unset ", "unset -v ", "unset "]) + v
        if "dead" in self.m.allow and r.random() < .7:
            return [k, r.choice([f"pr ${v}", f'pr "${v}"', f"pv {v}", f"pr x ${v} y"])]
        return [k, f"pv {v}"]

    def s_manyvars(self):
        n = self.r.choice([30, 60, 120])
        return [f"m{i}=v{i * 7}" for i in range(n)] + ["prt " + " ".join(f"$m{i}" for i in range(n))]

    # -- environment
    def s_export(self):
        r = self.r
        x = r.random()
        vs = self.vars_()
        if x < .45:
            return "export " + self.sp([f"{r.choice(VARS)}={self.value()}" for _ in range(r.choice([1, 1, 2, 3]))])
        if x < .8 and vs:
            return "export " + self.sp(r.sample(vs, min(len(vs), r.choice([1, 1, 2]))))
        if x > .9:
            return r.choice(["export", "export -p"])
        return None

    def s_prefix(self):
        r = self.r
        n = r.choice([1, 1, 2, 3])
        return self.sp([self.asg() for _ in range(n)]) + " " + r.choice([self.cmd(hi=2), f"pv {r.choice(VARS)}", self.cmd(hi=1)])

    def s_pv(self):
        return f"pv {self.r.choice(VARS + ['HOME', 'PATH', 'PS1', 'LANGX'])}"

    def s_prefixpipe(self):
        r = self.r
        return f"{self.asg()} pv {r.choice(VARS)} | {self.asg()} cat | {r.choice(['cnt', 'cat', self.asg() + ' cnt'])}"

    # -- readonly
    def s_readonly(self):
        r = self.r
        vs = self.vars_()
        x = r.random()
        if x < .2:
            ns = r.sample(VARS, r.choice([2, 2, 3]))
            return "readonly " + self.sp([n if n in vs and r.random() < .5 else f"{n}={self.spell(self.lit()) or 'q'}" for n in ns])
        if x < .4:
            return f"readonly {r.choice(VARS)}={self.spell(self.lit()) or 'q'}"
        if x < .7 and vs:
            return f"readonly {r.choice(vs)}"
        return "readonly -p"

    def s_roattack(self):
        r = self.r
        ro = sorted(n for n in self.m.ro if n in VARS)
        if not ro:
            return None
        v = r.choice(ro)
        a = r.choice([f"{v}=new", f"{v}=''", f"{v}='{r.randint(0, 99)}'", f"a=1 {v}=2", f"export {v}=3", f"export {v}", f"unset {v}", f"unset -v {v}", f"readonly {v}=4", f"readonly {v}",
                      f"eval {v}=5", f"eval 'unset {v}'", f"{v}=6 pr", f"{v}=7 ; prt ${v}", f"eval export {v}=8", f"{v}=9 {v}=10"])
        fs = [f"rof{self.fresh}() {{ {a}; prt ${v}; }}", f"rof{self.fresh}"]
        self.fresh += 1
        out = fs if r.random() < .3 else self.sourced([a]) if r.random() < .2 else [a]
        return out + [r.choice([f"prt ${v}", f'prt "${v}"', f"pr ${v}", "readonly -p", f"pr $(prt ${v})"])]

    # -- functions
    def body(self, n=None, arity=0, src=False):
        r, out = self.r, []
        for _ in range(n or r.randint(1, 4)):
            x = r.random()
            if x < .35 and arity:
                k = r.randint(1, arity)
                out.append(r.choice(["pr ", "prt ", "pa x "]) + " ".join(r.choice(["$%d", '"$%d"', '"<$%d>"']) % r.choice([k, arity, r.randint(1, arity)]) for _ in range(r.randint(1, 3))))
            elif x < .45 and not src:
                out.append(r.choice(["pr $0", 'prt "$0"']))
            elif x < .55:
                v = r.choice(VARS)
                out.append(f"{v}={r.choice([self.value(), '$1' if arity else 'w'])}")
                if r.random() < .5:
                    out.append(f"prt ${v}")
            elif x < .62:
                out.append(self.stat() + r.choice(["", " && pr y", " || pr n"]))
            elif x < .72 and not src:
                out.append(r.choice(["return", "return 0", f"return {r.choice([1, 2, 42, 127, 128, 254, 255])}", "rc 3 && return 9", "rc 0 || return 8", "rc 0 && return 7", "rc 5 || return"]))
            elif x < .82 and self.funs():
                out.append(self.call(r.choice(self.funs())))
            else:
                out.append(self.simple())
        return out

    def define(self, f, body):
        r = self.r
        if self.mode == "c" and r.random() < .25:
            return f"{f}()" + r.choice([" ", "\n", "\n\n"]) + "{\n" + "\n".join(body) + "\n}"
        return f"{f}(){r.choice([' ', ''])}{{ " + r.choice(["; ", " ; ", ";"]).join(body) + r.choice(["; }", " ; }", ";}", " }"])

    def s_func(self):
        r = self.r
        f = r.choice(FUNS)
        ar = r.choice([0, 0, 1, 2, 3, 9, 10, 12, 25])
        old = self.arity.get(f)
        self.arity[f] = ar
        d = self.define(f, self.body(arity=ar))
        lines = [d, self.call(f) + r.choice(["", "", " && pr ok || pr ko", " ; pr after", " || prt no"])]
        if self.m.function(f) is None and old is None:
            pass
        if self.ok(lines):
            return None
        if old is None:
            del self.arity[f]
        else:
            self.arity[f] = old
        return None

    def s_manyargs(self):
        """a function (or sourced file, or eval) with very many parameters"""
        r = self.r
        k = self.fresh
        self.fresh += 1
        n = r.choice([26, 64, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 513, 1000])
        refs = sorted({r.randint(1, n) for _ in range(5)} | {n, max(1, n - 1), n // 2, min(n, 10), min(n, 100)})
        b = ["pr " + " ".join(f"${i}" for i in refs), f'prt "${refs[-1]} x" "$1-${refs[0]}"']
        args = " ".join(r.choice([f"w{i}", f"w{i}", f"'v {i}'", f'"{i}"']) for i in range(1, n + 1))
        return [self.define(f"many{k}", b), f"many{k} {args}", "pr"]

    def s_deep(self):
        """a long chain of functions, at the end of which there is still everything"""
        r = self.r
        k = self.fresh
        self.fresh += 1
        n = r.choice([5, 8, 9, 10, 12, 16, 17, 20, 33, 50])
        v = r.choice(VARS + ["lo"])
        lines = [f"{v}=top{k}", self.define(f"base{k}", [f'prt base $1 ${v}', r.choice([f"{v}=changed{k}", "pr $0", "rc 3", "return 5"])])]
        lines.append(self.define(f"d{k}_0", [f"prt ${v} $1", f"base{k} x$1"[:0] + f'base{k} "x $1"', f'pr ${v} "$1"']))
        for i in range(1, n):
            b = [f'd{k}_{i - 1} "{r.choice(["$1", str(i)])}"' + r.choice(["", "", " || pr no"])]
            if r.random() < .2:
                b.insert(0, f"l{i % 7}=w{i}")
            if r.random() < .2:
                b.append(f"prt $0 $1 ${v}")
            lines.append(self.define(f"d{k}_{i}", b))
        return lines + [f"d{k}_{n - 1} first && pr yes || pr no", f"prt ${v}"]

    def s_nogroup(self):
        """a `{ list }` as a command, which the shell says it does not implement: what is around it ends as it does after any failure"""
        r = self.r
        k = self.fresh
        self.fresh += 1
        grp = lambda: r.choice(["", "", "", "true && ", "rc 0 && ", "rc 3 || ", f"g{k}=z ; "]) + r.choice(["{ pr not ; }", "{ pr not; pr no; }", "{ bv=not ; } && pr not", "{ pr not ; } || pr not", "! { pr not ; }"])
        after = r.choice(["prt failed", "prt failed \"$a\"" if "a" in self.vars_() else "prt failed"])
        tail = lambda c: c + r.choice([f" || {after}", f" || {after}", f" && pr not || {after}", " ; pr on", ""])
        b = ["prt $0 $1 $2"[:r.choice([6, 9])]] * r.randint(0, 1) + [r.choice([f"lo{k}=$1", "a=x$1", "rc 4", "pr $1"])] + [grp()] + r.choice([[], ["pr not"], ["bv=not", "return 0"]])
        x = r.random()
        if x < .55:
            f = f"bk{k}"
            lines = [self.define(f, b)]
            call = tail(f"{f} {self.arg(sub=0)} w{k}")
        elif x < .7:
            lines = []
            src = [l for l in b if "return" not in l]
            call = tail(self.sourced(src, args=f" s{k} {self.arg(sub=0)} 'u v'")[0])
        elif x < .85:
            lines = []
            call = tail("eval '" + " ; ".join(l.replace("'", "") for l in b if "return" not in l and "$" not in l) + "'")
        elif x < .93:
            lines = []
            if not self.newfile(f"{self.box.w}/cb{k}", f"cv=1\n{grp()}\ncv=2\n".encode()):
                return "pr"
            call = tail(f"export context cb{k}={self.box.w}/cb{k}")
        else:
            # the rest of the line (of the text of -c) is not run
            if self.mode == "stdin":
                return "pr"
            return [f"pr a{k} ; {grp()} ; pr not"] + ["prt next"] * (self.mode != "c")
        if r.random() < .5:
            # within a function, which has parameters of its own
            o = f"ok{k}"
            lines.append(self.define(o, [f"lv{k}=$2", call, r.choice(["prt $0 $1 $2", f'prt "$1" $2 $lv{k}', f"pr $lv{k}"]), r.choice([f"return {r.randint(1, 255)}", "return", "pr end", f"lv{k}=2"])]))
            call = f"{o} {self.arg(sub=0)} o{k}" + r.choice(["", " && prt yes || prt no", " || prt no", " ; pr on"])
        lines.append(call)
        return lines + r.choice([[], ["pr x"], ["pwd"], [f"eval prt z{k}"]])

    def s_call(self):
        fs = self.funs()
        return self.call(self.r.choice(fs)) + self.r.choice(["", " && prt yes || prt no", " ; pr $a"]) if fs else None

    def s_nest(self):
        """functions that call each other with parameters of their own"""
        r = self.r
        k = self.fresh
        self.fresh += 1
        depth = r.choice([2, 3, 4])
        lines = []
        nm = [f"n{k}_{i}" for i in range(depth)]
        for i in range(depth - 1, -1, -1):
            own = r.choice(["lo", f"v{i}", r.choice(VARS)])
            b = [f"prt $0 $1", f"{own}=l{i}$1" if r.random() < 0 else f'{own}="l{i} $1"']
            if i < depth - 1:
                b.append(r.choice([f"{nm[i + 1]} s{i} t{i} u{i}", f'{nm[i + 1]} "$1" $2 $1']) + r.choice(["", " && pr ok", " || pr no"]))
            b += [r.choice([f"prt ${own} $1 $2", "prt $0 $2"])]
            x = r.random()
            if x < .5:
                b.insert(r.randint(1, len(b)), r.choice(["return", f"return {r.randint(0, 255)}", "rc 0 && return 5", "rc 1 || return 6", "rc 1 && return 7"]))
            lines.append(self.define(nm[i], b))
        lines.append(f"{nm[0]} {self.arg(sub=0)} two three" + r.choice(["", " && prt yes || prt no", " ; pr end", " || pr bad"]))
        if r.random() < .3:
            lines.append(f"prt $a" if "a" in self.vars_() else "pr")
        return lines

    def s_scope(self):
        r = self.r
        k = self.fresh
        self.fresh += 1
        v = r.choice(VARS)
        new = f"nv{k}"
        lines = [f"{v}=before", f"s{k}() {{ {new}=local; {v}=changed; prt ${v} ${new}; t{k}; }}", f"t{k}() {{ prt ${new} ${v}; {new}=inner; {v}=$1; }}" if r.random() < .0 else
                 f"t{k}() {{ prt ${new} ${v}; {new}=inner; {v}=again; }}", f"s{k} x", f"prt ${v}"]
        if "dead" in self.m.allow:
            lines.append(f"pr ${new}")
        return lines

    def s_twin(self):
        """a variable, a function, an alias, a file and a namespace of the same name have nothing to do with each other"""
        r = self.r
        k = self.fresh
        self.fresh += 1
        n = f"tw{k}"
        out = [f"{n}=v{k}", f"{n}() {{ prt fun ${n} $1; }}"]
        if r.random() < .3 and self.newfile(f"{self.box.w}/{n}", b"text\n"):
            pass
        r.shuffle(out)
        out.append(f"{n} x")
        if r.random() < .4:
            out.append(f"{n}=other")
        if r.random() < .3:
            out += [f"alias {n}='pr al'", f"{n} y", f"unalias {n}", f"{n} z ${n}"]
        x = r.random()
        if x < .3:
            out += [f"unset {n}", r.choice([f"{n}=again", f"readonly {n}=again", f"export {n}=again"]), f"{n} u"]
        elif x < .6:
            out += [f"unset -f {n}", f"prt ${n}", f"{n} gone || prt ${n}"]
        elif x < .7:
            out += [f"readonly {n}", f"{n}() {{ prt new ${n}; }}", f"{n} r"]
        elif x < .8:
            out += [f"{n}() {{ {n}=in; prt ${n}; }}", n, f"prt ${n}"]
        return out

    def s_unsetf(self):
        fs = self.funs()
        if not fs:
            return None
        if len(fs) > 1 and self.r.random() < .4:
            f = self.r.sample(list(fs), self.r.choice([2, min(3, len(fs))]))
            return ["unset -f " + self.sp(f)] + [g + " x" for g in f]
        f = self.r.choice(fs)
        return [f"unset -f {f}", f + " x"]

    def s_fixed(self):
        """a function keeps what it is, whatever is redefined afterwards"""
        r = self.r
        k = self.fresh
        self.fresh += 1
        x = r.random()
        if x < .35:
            # redefined while a function runs
            d = f"fx{k}() {{ pr two $1 {r.choice(['x', '$0', ''])}; }}"
            inner = r.choice([[d], [f"eval '{d}'"], None, None])
            if inner is None:
                inner = self.sourced([d.replace("$0", "0")]) if r.random() < .5 else [f"fy{k}"]
            out = [f"fx{k}() {{ pr one $1; }}"]
            if inner == [f"fy{k}"]:
                out.append(f"fy{k}() {{ {d}; fx{k} deep; }}")
            out.append(f"fw{k}() {{ " + r.choice(["", f"fx{k} a; "]) + inner[0] + "; " + r.choice(["", f"fx{k} b; "]) + "}")
            return out + [f"fw{k} p", f"fx{k} c"] + r.choice([[], [f"prt $(fx{k} d)"], [f"fx{k}() {{ pr three; }}", f"fx{k} e", f"fw{k} q", f"fx{k} g"]])
        if x < .5:
            return [f"w{k}=one", f"fx{k}() {{ prt $w{k}; }}", f"fx{k}", f"w{k}=two", f"fx{k}"]
        if x < .7:
            return [f"fx{k}() {{ pr first $1; }}", f"fx{k} a", f"fx{k}() {{ pr second $1; }}", f"fx{k} b"]
        return [f"in{k}() {{ pr i1; }}", f"fx{k}() {{ in{k}; pr o; }}", f"fx{k}", f"in{k}() {{ pr i2; }}", f"fx{k}", f"unset -f in{k}", f"fx{k} || pr"]

    # -- aliases
    def s_alias(self):
        r = self.r
        n = r.choice(ALS)
        v = r.choice([self.cmd(hi=2), "pr 'a b' c", "prt \"x $a\"", "pr $a", "prt", "pr --flag=1 x=y", "cd d", "rc 3", "put 'q\\n'", "eval pr", "export zz=1", "pr ' ' ''", "prt $foo 'it is'", "unalias " + r.choice(ALS),
                      "pwd", "no_such_thing a"] + self.funs() + [a + " x" for a in self.m.aliases] + [n + " again"])
        if r.random() < .25:
            # other white space between the words (up to the first quote)
            k = min([v.find(q) for q in "'\"" if q in v], default=len(v))
            v = re.sub(" ", lambda _: r.choice(["\t", "  ", " \t", " "]), v[:k]) + v[k:]
            v = r.choice(["", "", " ", "\t"]) + v + r.choice(["", "", " ", "\t"])
        if "'" in v and not any(c in v for c in "\"$`"):
            t = f'"{v}"'
        elif "'" not in v:
            t = f"'{v}'"
        else:
            return None
        return f"alias {n}={t}" + r.choice(["", "", f" {r.choice(ALS)}='pr two'"])

    def s_alcover(self):
        """an alias in front of a command, function or builtin of the same name"""
        r = self.r
        n = r.choice(["pr", "pa", "pb", "pwd", "cd", "rc", "prt"] + self.funs())
        return [f"alias {n}='{r.choice(['pa', 'pb x', 'prt q', 'pr in', n + ' 1', n])}'", f"{n} y", r.choice([f"unalias {n}", "unalias -a", "alias", "pr"])]

    def s_aluse(self):
        al = list(self.m.aliases)
        if not al:
            return None
        r = self.r
        a = r.choice(al)
        x = r.random()
        if x < .6:
            return self.sp([a] + self.args(0, 3))
        if x < .7:
            return f"{a} x | cat"
        if x < .8:
            return f"rc 0 && {a} y || {a} n"
        if x < .9:
            return f"'{a}' q"
        return f"pr {a} \"{a}\" {a}"

    def s_alfunc(self):
        r = self.r
        k = self.fresh
        self.fresh += 1
        a = r.choice(ALS)
        return [f"alias {a}='pr one'", f"af{k}() {{ {a} x; }}", f"af{k}", f"alias {a}='pr two'", f"af{k}", f"unalias {a}", r.choice(["alias", "pr"])]

    def s_unalias(self):
        al = list(self.m.aliases)
        if not al:
            return None
        r = self.r
        a = r.choice(al)
        return r.choice([[f"unalias {a}", f"{a} x"], ["unalias -a", f"{a} x"], [f"unalias {a}", "alias"]])

    def s_allist(self):
        r = self.r
        if r.random() < .4:
            # whatever the value is: it is listed, and replaced by a later one
            n = r.choice([f"em{self.fresh}", "odd", "odd2", "o+1", "o@x"])
            self.fresh += 1
            v = r.choice(["", " ", "\t", n, n + " x", "=", "a=b", "#x", "; pr not", "pr | cat", "pr > o1 &", "$", "x=1 pr", "|", "(", "{ pr"]) if r.random() < .6 else self.lit()
            t = self.spell(v)
            if t is None or "=" in n or v == "" and t == "":
                return None
            return [f"alias {n}={t}", r.choice(["alias", "alias -p"])] + r.choice([[], [f"unalias {n}", "alias"]])
        return r.choice(["alias", "alias", "alias -p"])

    # -- substitution
    def s_subst(self):
        r = self.r
        x = r.random()
        if x < .06:
            # the same substitution several times: each is executed
            k = self.fresh
            self.fresh += 1
            b = r.choice([f"put x >> again{k} ; cnt < again{k} ", f"put x >> again{k} ; cat < again{k} ", self.subbody()])
            if '"' in b or "`" in b:
                b = "prt z"
            d = f"$({b})"
            t = r.choice([f'prt "{d} {d}"', f'prt "{d}{d}{d}"', f'prt "`{b}` {d}"', f'prt {d} {d}', f'prt "{d}" "{d}"', f'prt "`{b}``{b}`"', f'x1="{d}" ; x2="{d}" ; prt "$x1" "$x2"'])
            return [t] + r.choice([[], [t]])
        if x < .5:
            return self.sp([r.choice(["pr", "prt"])] + [self.substitution() if r.random() < .7 else self.arg() for _ in range(r.randint(1, 3))])
        if x < .75:
            v = r.choice(VARS)
            b = self.subbody()
            return [f'{v}="$({b})"' if '"' not in b else f"{v}=$({b})", f'prt "${v}" ${v}']
        if x < .9:
            n = r.choice([1, 100, 4095, 4096, 4097, 65535, 65536, 65537, 100000])
            if r.random() < .08:
                # more than an argument can hold
                n = r.choice([140000, 262145, 1048577, 2500000])
                return [f'alias big="$(gen {n} 2)"', "alias", "unalias big"]
            return r.choice([f'pr "$(gen {n} 7)" && prt ok', f"pr $(gen {n} 3)"]) if r.random() < .5 else f'a="$(gen {n} 5)" ; prt "$a"'
        return r.choice(["pr $(rc 3) x", "pr a$(put x)"[:0] + "pr \"a $(put x) b\"", "pr $(put 'a\\sb\\sc' ) \"$(put 'a\\sb')\" `put d`", "prt \"$(put '\\n\\nx\\n\\n')\"", "pr $(put '')", "prt \"$(put '')\""])

    def s_subeffect(self):
        """what happens in a substitution stays there"""
        r = self.r
        k = self.fresh
        self.fresh += 1
        v = r.choice(VARS)
        f = f"sf{k}"
        return r.choice([
            [f"{v}=out", f"prt $({v}=in ; prt ${v}) ${v}", f"prt ${v}"],
            ["pr $(cd d ; pcwd)", "pcwd", "pwd"],
            [f"prt $(alias {r.choice(ALS)}x=pr ; put z)", "alias"],
            [f"{f}() {{ prt one; }}", f"prt $({f}a ) $({f})"[:0] + f"prt $({f}) $({f})", f],
            [f"{v}=o", f"{f}() {{ {v}=i; prt ${v}; }}", f'prt "$({f})" ${v}', f],
            [f"export {v}=x", f"pr $(export {v}=y ; pv {v})", f"pv {v}"],
            [f"prt $(put 'a' ; rc 3) && prt $({v}=1 ; put '{k}')"],
            [f"pr $(exit 3) b", "prt $(put a ; exit 4 ; put b)"],
            [f"prt $(put a | cat | cat)", f"prt $(put a > sub{k} ; cat < sub{k} )", f"cat < sub{k}"],
        ])

    # -- directories
    def cdtext(self):
        r = self.r
        ds = ["d", "d/e", "d/e/f", "..", ".", "./d", "d/../d", "d//e", "d/", "'d 2'", '"d 2"', "ünï", "ln", "ln/..", "ln/f", "'l 2'", "d/up", "d/up/d", "no_such", "in", "d/none", "../w", "../../" + os.path.basename(self.box.home) + "/w",
              self.box.w, f"{self.box.w}/d/e", "d/data", "no/../d", "'-d'", "./-d", "", "d/e/../../d 2"[:0] + "src", "in/..", "/no_such", "'d '", "' d'", "'d\t'", "'d /../d'", "'d/ '", "' '"]
        x = r.choice(ds)
        return "cd " + x if x else "cd"

    def s_cd(self):
        r = self.r
        return self.cdtext() + r.choice(["", "", " && pwd", " ; pwd", " || prt failed", " && pcwd || pr no"])

    def s_pwd(self):
        return self.r.choice(["pwd", "pcwd", "pr", "prt $(pwd)", "put x > here", "cat < in", "pr $(pcwd)", "pr > o_$a"[:8]])

    def s_cdfun(self):
        r = self.r
        k = self.fresh
        self.fresh += 1
        t = self.cdtext()
        return r.choice([[f"cf{k}() {{ {t}; pwd; }}", f"cf{k}", "pcwd"], [f"eval '{t}'" if "'" not in t else "pr", "pwd"], [f"pr $({t} ; pcwd)", "pcwd"], [f"{t} && put a > made{k}", "cd", f"pwd"]])

    # -- pipelines
    def data(self):
        r = self.r
        x = r.random()
        if x < .5:
            return r.choice([0, 1, 2, 10, 24, 25, 26, 100, 511, 512])
        if x < .75:
            return r.choice([4095, 4096, 4097, 8192, 65535, 65536, 65537])
        return r.choice([70000, 131072, 131073, 200000, 500000])

    def pipe(self, small=False, n=None):
        r = self.r
        n = n or r.choice([2, 2, 2, 3, 3, 4, 5] + ([] if small else [7, 9, 12]))
        src = r.choice([f"gen {r.choice([0, 5, 300]) if small else self.data()} {r.randint(0, 9)}", f"put '{self.esc(self.lit())}'", "prt " + self.sp(self.args(1, 3, sub=0)), "rc 0", self.cmd(hi=1)])
        mid = [r.choice(["cat", "cat", f"xor {r.randint(0, 255)}", "cat"]) for _ in range(n - 2)]
        if r.random() < .08 and mid:
            mid[r.randrange(len(mid))] = r.choice(["rc 0", "pr x", "head 10", "no_such", "sink", "put zz"])
        end = r.choice(["cnt", "cat", "cnt", f"cnt {r.choice([0, 1, 7, 255])}", f"sink {r.choice([0, 3, 255])}", "head 5", "rc 0", f"rc {r.randint(1, 255)}", "die 9", "die 34", f"xor {r.randint(1, 90)}", "sink"])
        return " | ".join([src] + mid + [end])

    def s_pipe(self):
        return self.pipe() + self.r.choice(["", "", "", " && prt yes || prt no"])

    def s_bigpipe(self):
        return f"gen {self.r.choice([1000000, 1048576, 2500000, 3999999])} 3 | " + self.r.choice(["cnt", "cat | cnt", "xor 5 | xor 5 | cnt 4"])

    def s_widepipe(self):
        r = self.r
        k = r.choice([8, 11, 14, 20, 30, 60])
        st = ["gen 70000 1"] + ["cat"] * k + ["cnt"]
        if r.random() < .4:
            # one of them ends early, or fails
            st[r.randint(1, k + 1)] = r.choice(["rc 0", "rc 3", "die 9", "cat", "pr x"])
        return " | ".join(st) + r.choice(["", "", " ; pfd", " && put ok || put no"])

    # -- redirections
    def fname(self):
        r = self.r
        x = r.random()
        if x < .5:
            return r.choice(["o1", "o2", "o3", "d/o4", "d 2/o5"[:0] + "'d 2/o5'", "'o 6'", "ö7", "./o8", "d/../o1", "ln/o9", "-o", "o.1", "'$a'", "for", "#o"[:0] + "o#"])
        if x < .75:
            return r.choice(["in", "'in 2'", '"in 2"', "d/data", "empty", "d/../in", "ro", "wo", "./ro"])
        if x < .9:
            return r.choice(["no/such", "d", "in/x", "none", "'no such'", "ünï/none", "''"[:0] + "nn/a/b"])
        if x < .95 and self.vars_():
            v = r.choice(self.vars_())
            return r.choice([f"${v}", f'"${v}"', f'"o $' + v + '"'])
        return r.choice(["$(put o1)", '"$(put \'o\\s6\')"'[:0] + "$(put o2)", f"{self.box.w}/oabs", "/dev/null"])

    def redir(self):
        r = self.r
        x = r.random()
        pre = lambda t: r.choice([t + " ", t + " ", t + " "])
        o = lambda fd="": f"{fd}{r.choice(['>', '>', '>>'])}{r.choice([' ', '', '  '])}{self.fname()}"
        i = lambda fd="": f"{fd}<{r.choice([' ', ''])}{self.fname()}"
        if x < .2:
            return f"put '{self.esc(self.lit())}' {o()}"
        if x < .3:
            return f"cat {i()}" + r.choice(["", " " + o()])
        if x < .33:
            return f"{o()} put a b"
        if x < .38:
            # before and behind the command
            fd = r.choice(["", "", "", "1", "3", "2"])
            k = fd or "1"
            c = {"1": "put ab", "3": "wfd 3 cd", "2": "pute e"}[k]
            return r.choice([f"{o(fd)} {c} {o(fd)}", f"{o(fd)} {o(fd)} {c} {o(fd)}", f"{o(fd)} {c} {o(fd)} {o(fd)}", f"{i()} cat {i()}", f"{i()} cat {i()} {o()}", f"{o()} {i()} cat {i()} {o()}"])
        if x < .46:
            fd = r.choice([3, 4, 5, 6, 7, 8, 9, 0, 2])
            return f"wfd {fd} '{self.esc(self.lit())}' {o(fd)}" + r.choice(["", " " + i(r.choice([8, 3]))])
        if x < .54:
            fd = r.choice([0, 3, 4, 9, 1, 2])
            return f"rfd {fd} {i(fd)}"
        if x < .62:
            return f"put x {o()} {o()}" + r.choice(["", f" {o()}"])
        if x < .68:
            return f"pute 'err\\n' {o(2)}" + r.choice(["", " " + o()])
        if x < .76:
            return f"gen {r.choice([10, 5000, 70000])} 2 {o()} | cat | cnt"
        if x < .82:
            return f"gen 100 1 | cat {i()} | cnt"
        if x < .88:
            return f"put q | cat {o()}" + r.choice([" | cnt", ""])
        if x < .92:
            return r.choice([o(), i(), o(3), f"{o()} {o()}"])
        if x < .96:
            return f"{i()} {o()} cat"
        return f"wfd 3 a 3> o3 4> o4 5> o5 6>> o6 ; wfd 4 b {o(4)} {i(0)}"

    def s_redir(self):
        return self.redir() + self.r.choice(["", "", "", " && prt yes || prt no", " ; put after\\n"])

    def s_catall(self):
        fs = [f for f in self.m.files if f.startswith(self.box.w + "/o") and len(self.m.files[f].data)]
        if not fs:
            return None
        n = os.path.relpath(self.r.choice(fs), self.m.cwd)
        s = self.spell(n)
        return f"cnt < {s}" if s else None

    # -- eval and source
    def s_eval(self):
        r = self.r
        t = self.simple() if r.random() < .7 else self.s_list()
        x = r.random()
        if x < .4 and "'" not in t:
            return f"eval '{t}'" + r.choice(["", " ; pr $a"[:0], " && prt y || prt n"])
        if x < .7:
            if any(c in t for c in "'\"$`;&|<>()#"):
                return None
            return "eval " + t
        if x < .8:
            return ["a=1 b=pr", r.choice(["eval pr '$a'", "eval '$b' x", 'eval "$b $a" z', "eval 'c=2' ; prt $c", "eval 'pr \"a  b\"' ' c'", "eval pr 'a;' pa b", "eval 'pr a' '&& pa b'"])]
        if x < .9:
            return r.choice(["eval 'eval \"pr x\"'", "eval 'q() { pr $1; }' ; q z", "eval 'alias al9=pr' ; al9 1", "eval 'cd d' ; pwd", "eval 'rc 7' || prt $e1", "eval 'export e1=9' ; pv e1", "eval '! rc 0' || pr f"])
        return "eval '" + r.choice(BAD) + "'" + r.choice([" || prt bad", ""])

    def pad(self, sizes=(3000, 9000, 20000, 70000, 140000)):
        """comments, for texts that do not fit into a buffer"""
        r = self.r
        n, out = r.choice(sizes) + r.randrange(5000), []
        while n > 0:
            l = "#" + r.choice(["x", " ab", "é", "\u2028", "漢字", "\U0001f980", "; pr no ", " ' "]) * r.choice([1, 10, 50, 150])
            n -= len(l.encode()) + 1
            out.append(l)
        return out

    def s_pad(self):
        return self.pad((500, 3000, 8000, 16000)) + [r for r in [self.cmd()] if r]

    def sourced(self, lines, pos=None, args=""):
        self.fresh += 1
        r = self.r
        if r.random() < .03:
            k = r.randint(0, len(lines))
            lines = lines[:k] + self.pad() + lines[k:]
        name = r.choice([f"src/s{self.fresh}", f"s{self.fresh}.sh", f"src/s {self.fresh}", f"src/é{self.fresh}"])
        text = "\n".join(lines) + r.choice(["\n", "", "\n\n", "\n# end"])
        if not self.newfile(f"{self.box.w}/{name}", text.encode()):
            return ["pr"]
        full = r.choice([f"./{name}", f"{self.box.w}/{name}"]) if self.m.cwd == self.box.w else f"{self.box.w}/{name}"
        return [f"{r.choice(['.', 'source'])} {self.spell(full)}{args}"]

    def s_source(self):
        r = self.r
        x = r.random()
        if x < .6:
            k = r.choice([0, 0, 1, 3, 10])
            ls = self.body(arity=k, src=True, n=r.choice([1, 2, 4, 8]))
            args = "".join(" " + self.arg(sub=0) for _ in range(k + (r.choice([0, 2]) if k else 0)))
            if r.random() < .3:
                f = r.choice(FUNS)
                self.arity.setdefault(f, 0)
                ls.insert(0, f"{f}()\n{{\n  pr from source\n}}")
            return self.sourced(ls, args=args) + [r.choice(["pr $a" if "a" in self.vars_() else "pr", "pwd", "prt done"])]
        if x < .66:
            return self.s_srcargs()
        if x < .7:
            return self.sourced(["a=sourced", "export e1=sourced", "alias al7='pr al'", "cd d", "rc 9"]) + ["prt $a", "pv e1", "al7 x", "pwd"]
        if x < .78:
            return self.sourced(["rc 5"])[0] + " || prt failed"
        if x < .86:
            ls = self.sourced(["pr before", r.choice([b for b in BAD if not b.endswith("|")]), "pr after"])
            return ls[0] + r.choice([" || prt bad", ""])
        if x < .93:
            return r.choice([". ./no_such_file", "source no_such_file", ". d", "source /no/such"]) + r.choice([" || prt missing", ""])
        return self.s_srcpath()

    def s_srcargs(self):
        """the arguments of a sourced file are only there for it"""
        r = self.r
        k = self.fresh
        self.fresh += 1
        n = r.choice([1, 1, 2, 3, 10])
        inner = [r.choice(["prt ", "pr "]) + " ".join(f"${i + 1}" for i in range(n))]
        if r.random() < .3:
            inner += self.sourced(["prt deeper $1"], args=" " + self.arg(sub=0)) + [f"prt still $1"]
        if r.random() < .3:
            self.arity.setdefault(f"sh{k}", 1)
            inner += [f"sh{k}() {{ prt sh $1; }}", f"sh{k} " + self.arg(sub=0), "prt back $1"]
        if r.random() < .15:
            inner.append(r.choice(["rc 3", "return 4", "no_such_command"]))
        ls = self.sourced(inner, args="".join(" " + self.arg(sub=0) for _ in range(n)))
        m = r.choice([0, 1, 1, n, n + 1])
        after = "; ".join(f"prt after ${i + 1}" for i in range(m)) or "pr after"
        x = r.random()
        if x < .7:
            f = [f"sa{k}() {{ {'prt before $1; ' if m else ''}{ls[0]}; {after}; }}", f"sa{k} " + " ".join(self.arg(sub=0) for _ in range(m))]
            if r.random() < .4:
                f += [f"sb{k}() {{ sa{k} {' '.join(self.arg(sub=0) for _ in range(m))}; prt outer $1; }}", f"sb{k} top"]
            return f
        return ls + (["pr $1"] if "dead" in self.m.allow or self.mode == "script" else []) + ls

    def s_srcpath(self):
        """a file found along PATH"""
        r = self.r
        self.fresh += 1
        d = r.choice(["p1", "p2"])
        n = f"lib{self.fresh}"
        self.newfile(f"{self.box.w}/{d}/{n}", b"prt from path $1\nlv=5\n" if r.random() < .5 else b"prt lib\n")
        if r.random() < .5:
            self.newfile(f"{self.box.w}/{n}", b"prt from here\n")
        return [f"PATH={self.box.bin}:{self.box.w}/p1:{self.box.w}/p2", f". {n} arg", f"PATH={self.box.bin}", r.choice(["pr", f". {n} arg", f". ./{n} arg"])]

    # -- lookup
    def s_path(self):
        r = self.r
        ds = [self.box.bin] + r.sample([f"{self.box.w}/p1", f"{self.box.w}/p2", f"{self.box.w}/d", f"{self.box.w}/none", f"{self.box.w}/in", f"{self.box.w}/d 2", f"{self.box.w}/ln", "p1", "d"] + [f"{self.box.w}/{x}" for x in ("p1 ", " d", "d ", "ünï")], r.choice([0, 1, 2, 3, 4]))
        r.shuffle(ds)
        if r.random() < .2:
            ds = [d + r.choice(["/", "", "//"]) for d in ds]
        v = ":".join(ds)
        return r.choice(["PATH=", "export PATH="]) + f"'{v}'"

    def s_newprog(self):
        r = self.r
        d = r.choice(["p1", "p2", "d", "'d 2'", ".", r.choice(["'p1 '", "'d '", "' d'", "ünï"])])
        n = r.choice(PLAIN + ["newprog", "rc", "prt", "xx-1"])
        x = r.random()
        w = self.box.w
        dst = f"'{w}/{d[1:-1]}/{n}'" if d[0] == "'" else f"{w}/{n}" if d == "." else f"{w}/{d}/{n}"
        if x < .25:
            t = r.choice([f"{self.box.bin}/{n if n not in ('newprog', 'xx-1') else 'pr'}", f"{self.box.bin}/pr", "../../bin/pa", "../in", "nowhere", "../d", n, f"../p2/{n}", f"../p1/{n}", "../p1/../../bin/pb"])
            more = r.choice([[], [], [f"del {dst}", f"{n} 9"], [f"lnk '{self.box.bin}/pc' {w}/p2/{n}", f"{n} 9"], [f"sln '{self.box.bin}/pd' {w}/p1/{n}", f"{n} 9"]])
            return [f"sln '{t}' {dst}", f"{n} 8"] + more
        if x < .5:
            return [f"lnk '{self.box.bin}/{r.choice([n, 'pr']) if n not in ('newprog', 'xx-1') else 'pr'}' {dst}", f"{n} 1"]
        if x < .6:
            return [f"del {dst}", f"{n} 2"]
        if x < .7:
            return [f"mkd {dst}", f"{n} 3"]
        if x < .8:
            return [f"put '{r.choice(['text', '', '#!'])}' > {dst}", f"{n} 4"]
        if x < .9:
            return [f"ren {dst} {w}/p2/moved{self.fresh}", f"moved{self.fresh} 5", f"{n} 6"]
        return f"{n} 7"

    def s_bypath(self):
        r = self.r
        n = r.choice(PLAIN)
        rel = os.path.relpath(self.box.bin, self.m.cwd)
        return r.choice([f"{self.box.bin}/{n}", f"{rel}/{n}", f"./{rel}/{n}", f"{self.box.bin}//{n}", f"{self.box.bin}/../bin/{n}", "./d", "d/none", "./in", "/", f"{self.box.bin}/", "p1/pr", "./pr", "d/pa"]) + " a" + r.choice(["", " || prt no"])

    def s_lookup(self):
        r = self.r
        n = r.choice(PLAIN + ["rc", "newprog"])
        return r.choice([f"{n} x", f"'{n}' y", f'"{n}" z', f"lk={n} ; $lk w", f"rc 0 | {n} p", f"{n}() {{ prt fun; }} ; {n} q ; unset -f {n} ; {n} r", f"alias {n}='pr al' ; {n} s ; unalias {n}"])

    def s_cmdvar(self):
        r = self.r
        return r.choice(["cv='pr a b' ; $cv c", "cv=pr ; $cv", "cv='prt  x   y' ; $cv \"$cv\"", "cv=no_such ; $cv x", "cv=' pr q ' ; $cv", "cv='pr $a' ; $cv", "cv=\"pr 'a b'\" ; $cv", "\"pr\" x", "'pr' x", "cv=pr ; \"$cv\" 1"])

    # -- contexts
    def s_context(self):
        r = self.r
        self.fresh += 1
        ns = r.choice(["n1", "n2", "lib", "L_3", "n", "N1", "n11", "li", "lib1", f"m{self.fresh}"])
        vs = r.sample(["a", "b", "va", "vb", "val", "x9"], r.choice([1, 2, 3]))
        fs = r.sample(["f", "g", "go", "show"], r.choice([0, 1, 2]))
        if r.random() < .2:
            # a variable and a function of the same name
            fs = sorted(set(fs) | {r.choice(vs)})
        lines = [f"{v}={self.spell(self.lit()) or 'zz'}" for v in vs] + [f"{f}() {{ prt {ns}_{f} $1; rc {r.choice([0, 3])}; }}" for f in fs]
        r.shuffle(lines)
        if r.random() < .03:
            k = r.randint(0, len(lines))
            lines = lines[:k] + self.pad() + lines[k:]
        x = r.random()
        # what the file creates must not exist in the shell already
        if x < .08:
            lines.append(r.choice([b for b in BAD if not b.endswith("|")]))
        name = f"src/c{self.fresh}" if r.random() < .7 else f"ctx{self.fresh}"
        if r.random() < .15:
            name = f"src/{self.fresh}{r.choice(['self', 'myself', '.self', '.context', '-f', '-p', '_'])}"
        if x > .9:
            name = f"missing{self.fresh}"
        elif not self.newfile(f"{self.box.w}/{name}", ("\n".join(lines) + "\n").encode()):
            return None
        out = [f"export context {ns}={self.box.w}/{name}" if r.random() < .8 or "/" in name or self.m.cwd != self.box.w else f"export context {name}"]
        if out[0].endswith("context " + name):
            ns = name
        if r.random() < .3:
            out[0] += r.choice([" || prt failed", " && prt worked"])
        if x < .08 or x > .9:
            u = self.s_ctxuse() or "pr"
            return out + ([u] if isinstance(u, str) else u)
        self.nsfiles.setdefault(ns, (set(), set()))
        self.nsfiles[ns] = (set(vs), set(fs))
        for v in vs:
            out.append(r.choice([f"prt ${ns}::{v}", f'pr "${ns}::{v}"', f'prt "<${ns}::{v}>"']))
        for f in fs:
            out.append(f"{ns}::{f} arg" + r.choice(["", " && prt y || prt n"]))
        if r.random() < .4:
            out += self.ctxmiss(ns)
        return out

    def ctxmiss(self, ns):
        """a name that the namespace does not have, but something else has"""
        r = self.r
        self.fresh += 1
        k = self.fresh
        v, f = r.choice(["a", "b", "va", f"mv{k}"]), f"mf{k}"
        out = []
        if ns in self.m.ns and (v in self.m.ns[ns][0]):
            v = f"mv{k}"
        if r.random() < .6:
            out += [f"{v}=shell{k}value", r.choice([f"pr ${ns}::{v}", f'pr "${ns}::{v}" x'])]
        if r.random() < .6:
            out += [f"{f}() {{ prt shell {f}; }}", f"{ns}::{f} x" + r.choice([" || prt missing", ""])]
        others = [(n, x) for n in sorted(self.m.ns) if n != ns for x in sorted(self.m.ns[n][0]) if x in ("a", "b", "va", "vb", "val", "x9")]
        if others:
            n, x = r.choice(others)
            out.append(f"pr ${ns}::{x} ${n}::{x}")
        if r.random() < .3:
            out.append(f"alias al{ns}='prt al' ; {ns}::al{ns} x")
        return out

    def s_ctxuse(self):
        if not self.m.ns:
            return None
        r = self.r
        ns = r.choice(sorted(self.m.ns))
        c, f = self.m.ns[ns]
        opts = [f"prt ${ns}::{v}" for v in c if v not in "0123456789" and "\0" not in v][:6] + [f"{ns}::{x} 1" for x in f] + [f"{v}=shell ; prt ${ns}::{v} ${v}" for v in c if v in VARS][:2]
        opts += [f"{x} plain" for x in f if self.m.function(x) is None]
        if r.random() < .3:
            return self.ctxmiss(ns)
        return r.choice(opts) if opts else None

    def s_ctxself(self):
        r = self.r
        k = self.fresh
        self.fresh += 1
        v = r.choice(VARS)
        return [f"{v}=pub{k}", f"pf{k}() {{ prt pf $1; }}", f"export context me{k}=self", f"prt $me{k}::{v}", f"me{k}::pf{k} z", f"{v}=later{k}", f"prt $me{k}::{v} ${v}"]

    def s_ctxnear(self):
        """two namespaces with names that resemble each other: one goes, or changes, the other has to stay"""
        r = self.r
        self.fresh += 1
        k = self.fresh
        n = r.choice(["n", "lib", "q", "L_", "ns"]) + str(k)
        m = r.choice([n + "x", n + "1", n + "_", n.upper() if n.upper() != n else n + "Y", "x" + n, n[:-1] + "z", n + n])
        if not (self.newfile(f"{self.box.w}/one{k}", f"v=one{k}\nw=w{k}\ngo() {{ prt go one; }}\n".encode()) and self.newfile(f"{self.box.w}/two{k}", f"v=two{k}\ngo() {{ prt go two; }}\n".encode())):
            return None
        ab = [f"export context {n}={self.box.w}/one{k}", f"export context {m}={self.box.w}/two{k}"]
        r.shuffle(ab)
        a, b = r.choice([(n, m), (m, n)])
        act = r.choice([f"unset -c {a}", f"unset -c {a}", f"unset {a}::v", f"unset -f {a}::go", f"export context {a}={self.box.w}/two{k}", f"export context {a}={self.box.w}/one{k}"])
        return ab + [f"prt ${n}::v ${m}::v", act, f"prt ${b}::v", f"{b}::go x"] + ([f"{a}::go y"] if r.random() < .6 else [])

    def s_ctxunset(self):
        if not self.m.ns:
            return None
        r = self.r
        ns = r.choice(sorted(self.m.ns))
        c, f = self.m.ns[ns]
        vs = [v for v in c if NAME.match(v) and v not in ("PATH", "HOME")]
        x = r.random()
        if x < .4 and vs:
            v = r.choice(sorted(vs))
            others = [f"prt ${n2}::{v}" for n2 in sorted(self.m.ns) if n2 != ns and v in self.m.ns[n2][0]]
            return [f"unset {ns}::{v}"] + ([f"{ns}::{v} left"] if v in f else []) + others[:1] + ([f"prt ${v}"] if v in self.vars_() else [])
        if x < .7 and f:
            g = r.choice(sorted(f))
            others = [f"{n2}::{g} o" for n2 in sorted(self.m.ns) if n2 != ns and g in self.m.ns[n2][1]]
            return [f"unset -f {ns}::{g}", f"{ns}::{g} x"] + ([f"prt ${ns}::{g}"] if g in c else []) + others[:1]
        if len(self.m.ns) > 1 and r.random() < .3:
            two = r.sample(sorted(self.m.ns), 2)
            gone = [f"{n2}::{g} x" for n2 in two for g in sorted(self.m.ns[n2][1])[:1]]
            rest = [f"{n2}::{g} o" for n2 in sorted(self.m.ns) if n2 not in two for g in sorted(self.m.ns[n2][1])[:1]]
            return ["unset -c " + " ".join(two)] + gone + rest[:1]
        if len(vs) > 1 and r.random() < .3:
            two = r.sample(sorted(vs), 2)
            return [f"unset {ns}::{two[0]} {ns}::{two[1]}"] + ([f"pr ${ns}::{v}" for v in two] if "dead" in self.m.allow else [])
        fx = [f"{ns}::{g} x" for g in f][:1]
        others = [f"{n2}::{g} o" for n2 in sorted(self.m.ns) if n2 != ns for g in self.m.ns[n2][1]][:1]
        return [f"unset -c {ns}"] + fx + others

    # -- ends
    def s_exit(self):
        r = self.r
        x = r.random()
        t = r.choice(["exit", f"exit {r.choice([0, 1, 2, 126, 127, 128, 254, 255, r.randint(0, 255), r.randint(0, 255), r.choice([256, 257, 512, 1000, 32768, 65535, 65536, 65537, 70001, 2147483647])])}"])
        if x < .5:
            return r.choice(["", self.stat() + " ; "]) + t + r.choice(["", " ; pr not", " && pr not", " || pr not"])
        if x < .7:
            return [f"ef() {{ pr in; {t}; pr not; }}", r.choice(["ef", "rc 7 ; ef ; pr not", "rc 9 || ef"])]
        if x < .8:
            return f"eval '{t}' ; pr not"
        if x < .9:
            return self.sourced(["pr in source", t, "pr not"])
        return r.choice([f"rc 3 || {t}", f"rc 0 && {t}", f"{self.stat()} && {t} || {t}", "exit abc ; exit 5"])

    def s_exec(self):
        r = self.r
        c = r.choice([self.cmd(), "prt " + self.sp(self.args(1, 3)), f"rc {r.choice([0, 3, 255])}", "pcwd", "pv e1", "die 15", "pr", f"{self.box.bin}/pr x"])
        fl = r.choice(["", "", "", "-c", "-l", "-a name", "-a ''"[:0] + "-a 'x y'", "-cl", "-cla nm", "-la nm", "-ca zero", "-c -a nm", "-l -a nm", "-c -l", "-l -c", "-c -la nm", "-l -ca 'n m'", "-cl -a nm", "-c -a 'x y'",
                       "-a nm -l", "-a nm -c", "-a 'n m' -cl", "-c -l -a nm", "-l -c -a nm", "-a nm -l -c", "-al nm", "-a x -a nm", "-c -a nm -l", "-l -l", "-ac nm -l"])
        return f"exec {fl} {c}" + r.choice(["", " ; pr not", " && pr not", " || pr not"]).replace("  ", " ")

    def s_execfail(self):
        r = self.r
        return "exec " + r.choice(["no_such_command", "./none a", "-c nope", "-a x nope", "/no/such", "d", "./d", "in", "-l nope"]) + r.choice(["", " || prt failed", " ; prt on"])

    def s_bad(self):
        return self.r.choice(BAD)

    def s_badfun(self):
        return self.r.choice(["cd a b"[:0] + "cd no_such", "unalias nope", "export context n=nofile", "cd in"]) + self.r.choice([" || prt bad", " && prt good", ""])
