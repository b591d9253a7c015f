"""Reference model: what a program must do, written from the properties (not from rsh's code).

It parses and executes the part of the language that the properties speak about; everything else raises
Unspec, so that a generated program that wanders into it is thrown away instead of judged.
"""
import collections, copy, os, re, zlib

WS = set("\t\n\x0b\x0c\r \x85\xa0\u1680\u2028\u2029\u202f\u205f\u3000") | {chr(c) for c in range(0x2000, 0x200b)}
SPECIAL = set(";&|(){}<>!$`*=")
KEYWORDS = "for in while if then else elif fi do done case esac until".split()
BUILTINS = "cd exit return jobs fg bg alias unalias export eval unset pwd readonly exec . source".split()
NAME = re.compile(r"[A-Za-z_][A-Za-z0-9_]*\Z")
VARNAME = re.compile(r"[A-Za-z0-9_]+(::[A-Za-z0-9_]+)?\Z")
VARPRE = re.compile(r"[A-Za-z0-9_]+(::[A-Za-z0-9_]+)?")
# texts that no shell grammar accepts; a generator may use them to provoke a parse error
BAD = ["| pr", "pr | | pr", "&& pr", "pr && || pr", "pr ||", "pr )", "( pr", "} pr", "pr >", "pr > > x", "for pr", "pr |", ";; pr", "pr & & pr",
       "! ! |", "f( { pr; }", "f() { pr", "pr < ;", "while", "pr (", "done pr", "pr;; pr"]


class NotImpl(Exception):
    """a `{ list }` that is run: the shell says that it does not implement it"""


class Brace:
    def __init__(self, body):
        self.body = body


class Unspec(Exception):
    pass


class BadSyntax(Exception):
    pass


def wordch(c):
    return c not in SPECIAL and c not in WS


# ------------------------------------------------------------------ lexer
def tokenize(s, spans=None):
    """tokens of a text; spans, if given, receives their (start, end)"""
    toks, i, n = [], 0, len(s)

    def delim(j):
        if j < n and s[j] not in WS and s[j] not in ";&|<>)}":
            raise Unspec("adjacent words")

    def quoted(i):
        q = s[i]
        j = s.find(q, i + 1)
        if j < 0:
            raise Unspec("unterminated quote")
        body = s[i + 1:j]
        delim(j + 1)
        if q == "'":
            return ("sq", body), j + 1
        return ("dq", dqparts(body)), j + 1

    def value(i):
        """a word at i: quoted, substitution, variable or bare; returns (word, next)"""
        c = s[i]
        if c in "'\"":
            return quoted(i)
        if c == "`":
            j = s.find("`", i + 1)
            if j < 0:
                raise Unspec("unterminated")
            delim(j + 1)
            return ("sub", s[i + 1:j]), j + 1
        if c == "$":
            if i + 1 < n and s[i + 1] == "(":
                j = s.find(")", i + 1)
                if j < 0:
                    raise Unspec("unterminated")
                delim(j + 1)
                return ("sub", subtext(s[i + 2:j])), j + 1
            j = i + 1
            while j < n and wordch(s[j]):
                j += 1
            name = s[i + 1:j]
            if not VARNAME.match(name):
                raise Unspec("odd variable name")
            delim(j)
            return ("var", name), j
        if wordch(c):
            j = i
            while j < n and wordch(s[j]):
                j += 1
            w = s[i:j]
            if "'" in w or '"' in w:
                raise Unspec("quote inside a word")
            return ("bare", w), j
        raise Unspec(f"unexpected {c!r}")

    start = 0
    while i < n:
        if spans is not None and len(spans) < len(toks):
            spans.append((start, i))
        c, start = s[i], i
        if c == "\n":
            toks.append(("nl",))
            i += 1
        elif c in WS:
            i += 1
        elif c == "#":
            while i < n and s[i] != "\n":
                i += 1
        elif s.startswith(("&&", "||", ">>"), i):
            toks.append(("op", s[i:i + 2]))
            i += 2
        elif c in ";|&(){}!":
            toks.append(("op", c))
            i += 1
        elif c in "<>":
            if i + 1 < n and s[i + 1] in "<>&|":
                raise Unspec("redirection operator")
            toks.append(("op", c))
            i += 1
        elif c == "=":
            if i and s[i - 1] not in WS:
                raise Unspec("stray =")
            j = i
            while j < n and (wordch(s[j]) or s[j] == "="):
                j += 1
            if "'" in s[i:j] or '"' in s[i:j]:
                raise Unspec("quote inside a word")
            delim(j)
            toks.append(("word", ("bare", s[i:j])))
            i = j
        else:
            w, j = value(i)
            if w[0] == "bare" and j < n and s[j] in "<>" and w[1].isdigit():
                if len(w[1]) > 1:
                    raise Unspec("io number")
                toks.append(("io", int(w[1])))
                i = j
                continue
            if w[0] == "bare" and j < n and s[j] == "=":
                j += 1
                if j >= n or s[j] in WS or s[j] in ";&|<>)":
                    v = ("bare", "")
                elif s[j] in "({}!*":
                    raise Unspec("odd assignment")
                elif s[j] in "'\"$`":
                    v, j = value(j)
                else:
                    k = j
                    while k < n and (wordch(s[k]) or s[k] == "="):
                        k += 1
                    t = s[j:k]
                    if "'" in t or '"' in t:
                        raise Unspec("odd assignment")
                    delim(k)
                    v, j = ("bare", t), k
                toks.append(("asg", w[1], v))
                i = j
                continue
            if w[0] == "bare":
                delim(j) if j < n and s[j] != "(" else None
            toks.append(("word", w))
            i = j
    if spans is not None and len(spans) < len(toks):
        spans.append((start, n if start < n and toks[-1][0] != "nl" and s[start:].strip() and "#" not in s[start + 1:] else i))
    return toks


def subtext(t):
    # what is between $( and the first ) has to be complete by itself
    for q in "'\"`":
        if t.count(q) % 2:
            raise Unspec("quotes in substitution")
    if "(" in t:
        raise Unspec("parenthesis in substitution")
    return t


def dqparts(b):
    parts, i, lit = [], 0, ""
    while i < len(b):
        c = b[i]
        if c == "`":
            j = b.find("`", i + 1)
            if j < 0:
                raise Unspec("unterminated")
            parts += [("lit", lit), ("sub", b[i + 1:j])]
            lit, i = "", j + 1
        elif c == "$":
            if b.startswith("$(", i):
                j = b.find(")", i)
                if j < 0:
                    raise Unspec("unterminated")
                parts += [("lit", lit), ("sub", subtext(b[i + 2:j]))]
                lit, i = "", j + 1
                continue
            m = VARPRE.match(b, i + 1)
            if not m:
                raise Unspec("$ without name")
            j = m.end()
            if j < len(b) and (b[j].isalnum() or b[j] in "_:"):
                raise Unspec("where does the name end")
            parts += [("lit", lit), ("var", m.group(0))]
            lit, i = "", j
        else:
            lit += c
            i += 1
    parts.append(("lit", lit))
    return [p for p in parts if p != ("lit", "")]


# ------------------------------------------------------------------ parser
Simple = collections.namedtuple("Simple", "assigns pre name args")      # args: words, ('asg',..), ('redir',..)
Func = collections.namedtuple("Func", "name body")
Pipe = collections.namedtuple("Pipe", "bang cmds bg")
AndOr = collections.namedtuple("AndOr", "first rest")


def has_bad(text):
    return any(b in [l.strip() for l in re.split(r"\n", text)] for b in BAD)


def parse(text):
    if has_bad(text):
        raise BadSyntax()
    if "\0" in text:
        raise Unspec("NUL")
    p = P(tokenize(text))
    items = p.list_(None)
    if p.i < len(p.t):
        raise Unspec("syntax")
    return items


class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ("eof",)

    def op(self, o):
        if self.peek() == ("op", o):
            self.i += 1
            return True
        return False

    def nls(self):
        k = 0
        while self.peek()[0] == "nl":
            self.i += 1
            k += 1
        return k

    def list_(self, end):
        items = []
        self.nls()
        if self.peek()[0] == "eof" or (end and self.peek() == ("op", end)):
            if end:
                raise Unspec("empty group")
            return items
        while True:
            items.append(self.andor())
            sep = self.op(";")
            nl = self.nls()
            if self.peek()[0] == "eof" or (end and self.peek() == ("op", end)):
                return items
            if not sep and not nl:
                raise Unspec("syntax")

    def andor(self):
        first, rest = self.pipe(), []
        while self.peek() in (("op", "&&"), ("op", "||")):
            o = self.peek()[1]
            self.i += 1
            self.nls()
            rest.append((o, self.pipe()))
        return AndOr(first, rest)

    def pipe(self):
        bang = self.op("!")
        cmds = [self.command()]
        while self.op("|"):
            cmds.append(self.command())
        bg = self.op("&")
        if bg and self.peek()[0] not in ("nl", "eof"):
            raise Unspec("& in the middle of a line")
        return Pipe(bang, cmds, bg)

    def command(self):
        a, b = self.peek(), self.peek(1)
        if a[0] == "word" and b == ("op", "("):
            if a[1][0] != "bare" or a[1][1] in KEYWORDS or a[1][1] in BUILTINS or self.peek(2) != ("op", ")"):
                raise Unspec("function name")
            self.i += 3
            self.nls()
            if not self.op("{"):
                raise Unspec("function body")
            body = self.list_("}")
            if not self.op("}"):
                raise Unspec("function body")
            if self.peek()[0] in ("word", "asg", "io") or self.peek() in (("op", ">"), ("op", "<"), ("op", ">>")):
                raise Unspec("redirected function")
            return Func(a[1][1], body)
        if self.op("{"):
            body = self.list_("}")
            if not self.op("}") or self.peek()[0] in ("word", "asg", "io") or self.peek()[1:] in ((">",), ("<",), (">>",), ("|",)):
                raise Unspec("group")
            return Brace(body)
        assigns, pre, name, args = [], [], None, []
        while True:
            t = self.peek()
            if t[0] == "asg" and name is None:
                if not NAME.match(t[1]):
                    raise Unspec("assignment to an odd name")
                assigns.append(t)
                self.i += 1
            elif t[0] == "io" or t in (("op", ">"), ("op", "<"), ("op", ">>")):
                fd = None
                if t[0] == "io":
                    fd = t[1]
                    self.i += 1
                o = self.peek()[1]
                self.i += 1
                w = self.peek()
                if w[0] != "word":
                    raise Unspec("redirection target")
                self.i += 1
                (pre if name is None else args).append(("redir", fd, o, w[1]))
            elif t[0] == "word":
                if name is None:
                    if t[1][0] == "bare" and t[1][1] in KEYWORDS:
                        raise Unspec("keyword")
                    name = t[1]
                else:
                    args.append(t[1])
                self.i += 1
            elif t[0] == "asg":
                args.append(t)
                self.i += 1
            else:
                break
        if name is None and not assigns and not pre:
            raise Unspec("no command")
        return Simple(assigns, pre, name, args)


# ------------------------------------------------------------------ data
def gen_data(n, seed):
    k = n // 25 + 1
    return b"".join(b"%08x:%015d;" % (seed, i) for i in range(k))[:n]


def unesc(s):
    out, i = b"", 0
    b = s.encode("utf-8", "surrogateescape")
    while i < len(b):
        c = b[i:i + 1]
        if c == b"\\" and i + 1 < len(b):
            i += 1
            d = b[i:i + 1]
            if d in b"nts":
                out += {b"n": b"\n", b"t": b"\t", b"s": b" "}[d]
            elif d == b"x" and i + 2 < len(b):
                if not re.fullmatch(b"[0-9a-fA-F]{2}", b[i + 1:i + 3]):
                    raise Unspec("odd escape")
                out += bytes([int(b[i + 1:i + 3], 16)])
                i += 2
            else:
                out += d
            i += 1
        else:
            out += c
            i += 1
    return out


class Wild(str):
    """the value of a variable that has none any more: anything but the values it had"""
    olds = ()


NZ, ANY = "NZ", "ANY"          # some status other than 0, a status that is not specified
STDIN, STDOUT, STDERR = "stdin", "stdout", "stderr"


class File:
    def __init__(self, data=b""):
        self.data = bytearray(data)


class Ofd:
    """an open file"""

    def __init__(self, kind, file=None, mode="r", data=b"", path=None):
        self.kind, self.file, self.mode, self.off, self.buf, self.path = kind, file, mode, 0, bytearray(data), path


class Ev:
    """a command that has to be started"""

    def __init__(self, **k):
        self.__dict__.update(k)

    def __repr__(self):
        return f"{self.exe.rsplit('/', 1)[-1]}{self.argv[1:]}"


class Shell:
    def __init__(self, box, mode, env=None, script=None, args=(), dirs=None, links=None):
        self.box_bin, self.home, self.w = box.bin, box.home, box.w
        self.mode = mode
        self.env = dict(env if env is not None else box.env())
        base = {"PS1": "$ ", "PS2": "> ", "PS4": "+ "}
        # a value that is not text is a variable as far as it can be shown
        base.update({k: v.encode("utf-8", "surrogateescape").decode("utf-8", "replace") for k, v in self.env.items()})
        self.ctxs = [base, {"0": script or "rsh"}]
        self.fctx = [{}, {}]               # functions, parallel to ctxs
        self.isfn = [False, False]
        if mode == "script":
            for k, a in enumerate(args):
                self.ctxs[0][str(k + 1)] = a
        self.aliases, self.ns, self.ro, self.dead = {}, {}, set(), {}
        self.cwd = box.w
        self.status = 0
        self.files = {}
        self.dirs = {box.w, box.home, box.bin, "/"} | set(dirs or ())
        up = box.home
        while up != "/":
            up = os.path.dirname(up)
            self.dirs.add(up)
        self.dirs.add(box.ctl)
        self.links = dict(links or {})
        self.progs = {f"{box.bin}/{n}": 1 for n in os.listdir(box.bin)}    # the probes; what one does depends on its name
        self.noexec = set()
        self.events, self.out, self.errs = [], [b""], 0
        self.stderr_data = False
        self.feat = collections.Counter()
        self.exited = None
        self.returning = False
        self.depth = self.calls = 0
        self.insub = 0
        self.insrc = 0
        self.steps = 0
        self.group = None
        self.bg = set()                    # lines that only start background commands
        self.allow = set()
        self.perm_denied = set()
        self.nox = set()                   # directories without permission to search

    # -- variables
    def lookup(self, name):
        if "::" in name:
            ns, v = name.split("::")
            if ns in self.ns and v in self.ns[ns][0]:
                self.feat["namespace variable"] += 1
                return self.ns[ns][0][v]
            if "dead" in self.allow:
                # what it gives is not specified, except that it is nobody else's value
                w = Wild("\0")
                own = [c[v] for c in [*self.ctxs, *(c for c, _ in self.ns.values())] if v in c and c[v] is not ANY]
                w.olds = tuple(sorted(o for o in own if o not in "$" + name))
                self.feat["name that a namespace does not have"] += 1
                return w
            raise Unspec("unset " + name)
        if name.isdigit() and name != "0":
            # a function sees its own parameters; what it sees if there are too few is not specified
            for c, f in zip(reversed(self.ctxs), reversed(self.isfn)):
                if f:
                    if name not in c:
                        raise Unspec("parameter")
                    v = c[name]
                    break
            else:
                v = next((c[name] for c in reversed(self.ctxs) if name in c), None)
            if v is None or v is ANY:
                raise Unspec("parameter")
            self.feat["parameter"] += 1
            if int(name) > 9:
                self.feat["parameter above 9"] += 1
            return v
        for c in reversed(self.ctxs):
            if name in c:
                v = c[name]
                if v is ANY:
                    raise Unspec("unspecified value")
                return v
        if name in self.dead and "dead" in self.allow:
            w = Wild("\0")
            w.olds = tuple(sorted(self.dead[name]))
            return w
        raise Unspec("unset " + name)

    def isset(self, name):
        return any(name in c for c in self.ctxs)

    def assign(self, name, value):
        if isinstance(value, Wild) or name in ("PWD", "PPID", "PID", "PS1", "PS2", "PS4"):
            raise Unspec("special variable")
        if name in self.ro:
            self.feat["assignment to a readonly variable"] += 1
            self.status = ANY
            return
        for c in reversed(self.ctxs):
            if name in c:
                if c[name] is not ANY:
                    self.dead.setdefault(name, set()).add(c[name])
                c[name] = value
                break
        else:
            self.ctxs[-1][name] = value
        self.dead.setdefault(name, set()).discard(value)
        if name in self.env:
            self.env[name] = value
            self.ctxs[0][name] = value
            self.feat["assignment to an exported variable"] += 1

    # -- expansion
    def expand(self, w):
        k = w[0]
        if k == "bare" or k == "sq":
            if k == "sq":
                self.feat["single-quoted word"] += 1
            return [w[1]]
        if k == "asg":
            v = self.expand(w[2])
            if w[2][0] == "sub" and len(v) != 1:
                raise Unspec("unquoted substitution in name=value")
            return [w[1] + "=" + self.join(v)]
        if k == "var":
            self.feat["unquoted variable"] += 1
            return [self.lookup(w[1])]
        if k == "sub":
            return self.subst(w[1])[1].split()
        if k == "dq":
            self.feat["double-quoted word"] += 1
            if len(w[1]) == 1 and w[1][0][0] == "var":
                return [self.lookup(w[1][0][1])]
            s = ""
            for p in w[1]:
                if p[0] == "lit":
                    s += p[1]
                elif p[0] == "var":
                    v = self.lookup(p[1])
                    if isinstance(v, Wild):
                        raise Unspec("unset in a text")
                    s += v
                else:
                    s += self.subst(p[1])[1]
            return [s]
        raise Unspec(k)

    def join(self, words):
        if any(isinstance(w, Wild) for w in words):
            raise Unspec("unset value")
        return " ".join(words)

    def subst(self, text):
        self.feat["substitution"] += 1
        sub = self.clone()
        sub.out = [b""]
        sub.insub = self.insub + 1
        sub.isolate()
        errs = sub.errs
        try:
            items = parse(text)
        except BadSyntax:
            raise Unspec("syntax error in a substitution")
        sub.exited = None
        try:
            sub.run_list(items)
        except NotImpl:
            raise Unspec("group in a substitution")
        if sub.errs != errs or sub.stderr_data != self.stderr_data:
            raise Unspec("message inside a substitution")
        if any(not isinstance(c, bytes) for c in sub.out):
            raise Unspec("unordered output inside a substitution")
        out = b"".join(sub.out).replace(b"\0", b"")
        if len(out) > 65536:
            self.feat["substitution larger than a pipe"] += 1
        try:
            t = out.decode("utf-8")
        except UnicodeDecodeError:
            raise Unspec("output that is not text")
        return sub, t.strip()

    def clone(self):
        s = copy.copy(self)
        s.ctxs = [dict(c) for c in self.ctxs]
        s.fctx = [dict(c) for c in self.fctx]
        s.isfn = list(self.isfn)
        s.env = dict(self.env)
        s.aliases = dict(self.aliases)
        # namespaces share the contexts that are still on the stack
        m = {id(a): b for a, b in list(zip(self.ctxs, s.ctxs)) + list(zip(self.fctx, s.fctx))}
        s.ns = {k: (m.get(id(v[0])) if id(v[0]) in m else dict(v[0]), m.get(id(v[1])) if id(v[1]) in m else dict(v[1])) for k, v in self.ns.items()}
        s.ro = set(self.ro)
        s.dead = {k: set(v) for k, v in self.dead.items()}
        return s

    def isolate(self):
        """a substitution works on the same files and adds to the same events"""

    def fork_state(self):
        """a deep copy to try out a statement on"""
        s = self.clone()
        s.files = {k: File(v.data) for k, v in self.files.items()}
        s.dirs = set(self.dirs)
        s.links = dict(self.links)
        s.progs = dict(self.progs)
        s.noexec = set(self.noexec)
        s.events = list(self.events)
        s.out = list(self.out)
        s.feat = collections.Counter(self.feat)
        return s

    # -- running
    def run_text(self, text):
        """a program: what is given to -c, or the lines of a script or of a session"""
        if self.mode == "c":
            self.run_unit(text)
        else:
            for line in text.split("\n"):
                if self.exited is None:
                    self.run_unit(line)

    def run_unit(self, text):
        if text in self.bg:
            self.status = 0
            self.feat["background"] += 1
            return
        if self.mode == "stdin" and not balanced(text):
            raise Unspec("brackets")
        try:
            items = parse(text)
        except BadSyntax:
            self.feat["syntax error"] += 1
            self.errs += self.mode != "stdin"
            self.status = NZ if self.mode != "stdin" else ANY
            return
        try:
            self.run_list(items)
        except NotImpl:
            if self.mode == "stdin":
                raise Unspec("group at a prompt")
            self.errs += 1
            self.status = NZ

    def run_list(self, items):
        for it in items:
            self.andor(it)
            if self.exited is not None or self.returning:
                return

    def andor(self, it):
        self.pipeline(it.first)
        for o, p in it.rest:
            if self.exited is not None or self.returning:
                return
            if self.status is ANY:
                raise Unspec("depends on an unspecified status")
            self.feat["&&" if o == "&&" else "||"] += 1
            if (o == "&&") == (self.status == 0):
                self.pipeline(p)
            else:
                self.feat["skipped command"] += 1

    def pipeline(self, p):
        self.steps += 1
        if self.steps > 3000:
            raise Unspec("too long")
        if p.bg:
            raise Unspec("background")
        if len(p.cmds) == 1:
            self.single(p.cmds[0])
        else:
            self.multi(p.cmds)
        if p.bang and self.exited is None:
            if self.returning:
                raise Unspec("! return")
            if self.status is ANY:
                raise Unspec("depends on an unspecified status")
            self.feat["!"] += 1
            self.status = 1 if self.status == 0 else 0

    def prepare(self, c):
        """alias, assignments, redirections and words of a simple command -> (assigns, redirs, words)"""
        name, args = c.name, c.args
        if name is not None and name[0] == "bare" and name[1] in self.aliases:
            if c.assigns or c.pre:
                raise Unspec("alias after a prefix")
            self.feat["alias"] += 1
            toks = tokenize(self.aliases[name[1]])
            if not toks or any(t[0] not in ("word", "asg") for t in toks) or toks[0][0] != "word":
                raise Unspec("odd alias")
            ws = [t[1] if t[0] == "word" else t for t in toks]
            if any(w[0] == "sub" for w in ws) or (ws[0][0] == "bare" and ws[0][1] in KEYWORDS):
                raise Unspec("odd alias")
            if "#" in self.aliases[name[1]] and any(w.startswith("#") for w in self.aliases[name[1]].split()):
                raise Unspec("comment in an alias")
            name, args = ws[0], ws[1:] + list(args)
        assigns = []
        for a in c.assigns:
            # without a command each of them sees the ones before it
            assigns.append((a[1], a[2] if name is None else self.value(a[2])))
        redirs = []
        for r in list(c.pre) + [a for a in args if a[0] == "redir"]:
            f = self.expand(r[3])
            if len(f) != 1 or isinstance(f[0], Wild) or f[0] == "":
                raise Unspec("file name")
            redirs.append((r[1], r[2], f[0]))
        words = []
        if name is not None:
            words = self.expand(name)
            if name[0] == "var":
                if isinstance(words[0], Wild):
                    raise Unspec("unset command")
                words = words[0].split()
                if len(words) > 1:
                    self.feat["variable holding a whole command"] += 1
            if not words:
                raise Unspec("empty command")
            for a in args:
                if a[0] != "redir":
                    words += self.expand(a)
            if words[0] == "" or isinstance(words[0], Wild):
                raise Unspec("empty command")
        return assigns, redirs, words

    def value(self, w):
        """the value of an assignment"""
        v = self.expand(w)
        if w[0] == "sub" and len(v) > 1:
            raise Unspec("unquoted substitution of several words in an assignment")
        return self.join(v)

    def single(self, c):
        if isinstance(c, Func):
            return self.define(c)
        if isinstance(c, Brace):
            self.feat["group that is not implemented"] += 1
            raise NotImpl
        assigns, redirs, words = self.prepare(c)
        if not words:
            return self.bare_assign(assigns, redirs)
        name = words[0]
        if name in BUILTINS:
            if redirs or assigns:
                raise Unspec("builtin with a redirection or assignment")
            self.feat["builtin " + name] += 1
            return self.builtin(name, words)
        f = self.function(name)
        if f is not None:
            if redirs or assigns:
                raise Unspec("function with a redirection or assignment")
            return self.call(name, f, words)
        self.externals([(assigns, redirs, words)])

    def multi(self, cmds):
        self.feat["pipeline"] += 1
        if len(cmds) > 5:
            self.feat["long pipeline"] += 1
        stages = []
        for c in cmds:
            if isinstance(c, (Func, Brace)):
                raise Unspec("function definition in a pipeline")
            a, r, w = self.prepare(c)
            if not w or w[0] in BUILTINS or self.function(w[0]) is not None:
                raise Unspec("builtin or function in a pipeline")
            stages.append((a, r, w))
        self.externals(stages)

    def bare_assign(self, assigns, redirs):
        self.status = 0
        for r in redirs:
            if assigns:
                raise Unspec("assignment with redirection")
            if r[0] not in (None, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9):
                raise Unspec("fd")
            o = self.open(r)
            self.feat["redirection without command"] += 1
            if o is None:
                self.status = NZ
                self.errs += 1
                return
        for k, (n, w) in enumerate(assigns):
            self.feat["assignment"] += 1
            if any(mentions(w, m) for m, _ in assigns[:k]):
                self.feat["assignment that depends on another on the line"] += 1
            self.assign(n, self.value(w))
        if len(assigns) > 1 and self.status is not ANY:
            self.feat["several assignments"] += 1

    # -- files
    def path(self, f):
        """the place a file name stands for (parts may be missing), following symbolic links"""
        return self.resolve(f)[0]

    def resolve(self, f, last=True, hops=0):
        """(path, do all directories on the way exist)"""
        cur, ok = ("/" if f.startswith("/") else self.cwd), True
        parts = f.split("/")
        for k, part in enumerate(parts):
            if part in ("", "."):
                ok = ok and (cur in self.dirs or (k == 0 and not part))
                continue
            ok = ok and cur in self.dirs
            if part == "..":
                cur = os.path.dirname(cur)
                continue
            if len(part.encode("utf-8", "surrogateescape")) > 255:
                ok = False
            nxt = cur.rstrip("/") + "/" + part
            if nxt in self.links and (last or k < len(parts) - 1):
                if hops > 20:
                    return nxt, False
                t = self.links[nxt]
                here = self.cwd
                self.cwd = cur
                try:
                    cur, o = self.resolve(t, True, hops + 1)
                finally:
                    self.cwd = here
                ok = ok and o
            else:
                cur = nxt
        return cur, ok

    def open(self, r):
        fd, o, f = r
        if f == "/dev/null":
            return Ofd("null", mode="r" if o == "<" else "w")
        p, ok = self.resolve(f)
        if not p.startswith(self.home) and not (o == "<" and not os.path.lexists(p)):
            raise Unspec("outside")
        if p in self.progs:
            raise Unspec("a program as a file")
        if p in self.dirs:
            if o == "<":
                raise Unspec("reading a directory")
            return None
        if not ok or f.endswith("/") or os.path.dirname(p) not in self.dirs or len(os.path.basename(p).encode()) > 255:
            return None
        if (p, o == "<") in self.perm_denied or (os.path.dirname(p), False) in self.perm_denied and o != "<" and p not in self.files:
            return None
        if o == "<":
            if p not in self.files:
                return None
            return Ofd("file", self.files[p], "r", path=p)
        if p not in self.files:
            self.files[p] = File()
        elif o == ">":
            self.files[p].data[:] = b""
        return Ofd("file", self.files[p], "a" if o == ">>" else "w", path=p)

    # -- external commands
    def find(self, name):
        """the program a name stands for; None if there is none, or a file that cannot be run"""
        if "/" in name:
            p, ok = self.resolve(name)
            return p if ok and self.isprog(p) else None
        path = self.lookup("PATH")
        if isinstance(path, Wild):
            raise Unspec("PATH")
        if path == "":
            raise Unspec("empty PATH")
        for d in path.split(":"):
            if d == "":
                raise Unspec("empty PATH entry")
            p, ok = self.resolve(d + "/" + name)
            if ok and self.isfile(p):
                if p in self.noexec or p in self.files:
                    self.feat["file that cannot be executed"] += 1
                    return None
                if self.resolve(d + "/" + name, last=False)[0] in self.links:
                    self.feat["program that is a symbolic link"] += 1
                return p
        return None

    def isfile(self, p):
        if p in self.progs or p in self.files:
            return True
        if not p.startswith(self.home) and os.path.isfile(p):
            raise Unspec("a program of the system")
        return False

    def isprog(self, p):
        return self.isfile(p) and p in self.progs and p not in self.noexec

    def limits(self, words, env):
        if any(len(x.encode("utf-8", "surrogateescape")) > 131000 for x in words + [k + v for k, v in env.items()]):
            raise Unspec("more than the system allows")
        if sum(len(x) for x in words + list(env.values())) > 400000:
            raise Unspec("more than the system allows")

    def externals(self, stages):
        group, data, st = [], None, 0
        n = len(stages)
        used = []                    # (stage, file, writes) of the files that the stages have open
        for k, (assigns, redirs, words) in enumerate(stages):
            last = k == n - 1
            fds = {0: Ofd(STDIN if k == 0 else "pipe", data=data or b""), 1: Ofd(STDOUT if last else "pipe"), 2: Ofd(STDERR)}
            st, failed = 0, False
            pipe_out = fds[1]
            for r in redirs:
                o = self.open(r)
                if o is None:
                    failed = True
                    break
                fds[r[0] if r[0] is not None else 0 if r[1] == "<" else 1] = o
                if o.kind == "file":
                    used.append((k, o.file, r[1] != "<"))
                self.feat["redirection " + r[1]] += 1
            data = b""
            for k1, f1, w1 in used:
                if any(f2 is f1 and (w1 or w2) and k2 != k1 for k2, f2, w2 in used):
                    raise Unspec("commands of a pipeline share a file")
            mine = [o for o in fds.values() if o.kind == "file"]
            if any(a.file is b.file and a.mode == "r" and b.mode != "r" for a in mine for b in mine):
                raise Unspec("reading and writing the same file")
            if failed:
                if fds.get(2) is None or fds[2].kind != STDERR:
                    raise Unspec("where the message goes")
                if n > 1:
                    # files that this stage opened already and the neighbours' ends of the pipes: fine
                    self.feat["failed redirection in a pipeline"] += 1
                self.feat["failed redirection"] += 1
                self.errs += 1
                st = NZ
                for e in group:
                    e.x = None
                continue
            env = dict(self.env)
            for a, v in assigns:
                if a == "PATH":
                    raise Unspec("PATH for one command")
                env[a] = v
                self.feat["assignment in front of a command"] += 1
            exe = self.find(words[0])
            if exe is None:
                self.feat["command not found"] += 1
                self.errs += 1
                st = NZ
                for e in group:
                    e.x = None
                continue
            if any("\0" in w for w in words if not isinstance(w, Wild)):
                raise Unspec("NUL")
            self.limits(words, env)
            ev = Ev(argv=words, exe=exe, env=env, cwd=self.cwd, fds=fds, pos=(k, n), sub=self.insub, x=None, exec_=False, pre=len(assigns))
            group.append(ev)
            self.feat["commands"] += 1
            st = self.simulate(ev, fds, k > 0, group)
            if not last:
                data = bytes(pipe_out.buf)
                if len(data) > 65536:
                    self.feat["more than a pipe buffer through a pipe"] += 1
        if group:
            self.events.append(group)
        self.status = st

    def simulate(self, ev, fds, piped, group):
        """what the probe does with its descriptors; returns the exit status"""
        name, a = os.path.basename(ev.exe), [str(x) for x in ev.argv[1:]]
        rd = bytearray()
        wr = bytearray()
        if any(isinstance(x, Wild) for x in ev.argv) and name in ("put", "pute", "prt", "wfd", "pv"):
            raise Unspec("printing an unset variable")
        a1, a2 = (a + ["", ""])[:2]

        def out(fd, b):
            o = fds.get(fd)
            if o is None or (o.kind in ("file", "null") and o.mode == "r") or (o.kind == STDIN) or (fd == 0 and o.kind == "pipe"):
                raise Unspec("writing to what is not open for it")
            wr.extend(b)
            if o.kind == "file":
                if o.mode == "a":
                    o.off = len(o.file.data)
                if o.off > len(o.file.data):
                    o.file.data.extend(b"\0" * (o.off - len(o.file.data)))
                o.file.data[o.off:o.off + len(b)] = b
                o.off += len(b)
            elif o.kind == STDOUT:
                self.emit(b)
            elif o.kind == STDERR:
                self.stderr_data = True
                self.errs += 0
            elif o.kind == "pipe":
                o.buf.extend(b)

        def inp(fd):
            o = fds.get(fd)
            if o is None or o.kind in (STDIN, STDOUT, STDERR) or (o.kind in ("file", "null") and o.mode != "r") or (o.kind == "pipe" and fd != 0):
                raise Unspec("reading from what is not open for it")
            if o.kind == "null":
                return b""
            b = bytes(o.file.data[o.off:]) if o.kind == "file" else bytes(o.buf)
            o.off += len(b)
            rd.extend(b)
            return b

        code, reads = 0, False
        num = lambda s: int(s) if s.isdigit() else 0 if s == "" else bad()

        def bad():
            raise Unspec("number")
        if name == "rc":
            code = num(a1) & 255
        elif name == "die":
            if not 1 <= num(a1) <= 64 or num(a1) in (17, 18, 19, 20, 21, 22, 23, 28, 32, 33):
                raise Unspec("signal")
            self.feat["killed command"] += 1
            ev.x = None
            if piped and group and len(group) > 1:
                for e in group[:-1]:
                    e.x = None
            return 128 + int(a1)
        elif name in ("put", "pute"):
            for x in a:
                out(1 if name == "put" else 2, unesc(x))
        elif name == "prt":
            for x in a:
                out(1, b"<" + x.encode("utf-8", "surrogateescape") + b">\n")
        elif name == "pv":
            out(1, ev.env.get(a1, "-").encode("utf-8", "surrogateescape") + b"\n")
        elif name == "pcwd":
            out(1, ev.cwd.encode() + b"\n")
        elif name == "gen":
            if num(a1) > 4 << 20:
                raise Unspec("too much")
            out(1, gen_data(num(a1), num(a2)))
        elif name == "cat":
            if a:
                raise Unspec("cat file")
            reads = True
            out(1, inp(0))
        elif name == "xor":
            reads = True
            k = num(a1) & 255
            out(1, inp(0).translate(bytes(i ^ k for i in range(256))))
        elif name in ("sink", "cnt"):
            reads = True
            b = inp(0)
            if name == "cnt":
                out(1, b"%d %08x\n" % (len(b), zlib.crc32(b)))
            code = num(a1) & 255
        elif name == "head":
            b = inp(0)
            out(1, b[:num(a1)])
            reads = len(b) <= num(a1) and False
        elif name == "wfd":
            for x in a[1:]:
                out(num(a1), unesc(x))
        elif name == "rfd":
            inp(num(a1))
            reads = num(a1) == 0
        elif name == "slp":
            if num(a1) > 200:
                raise Unspec("slow")
            code = num(a2) & 255
        elif name in ("lnk", "sln", "del", "ren", "mkd"):
            code = self.fileop(name, a)
        elif name in ("meet", "hold", "stp"):
            raise Unspec(name)
        if piped and (not reads or fds[0].kind != "pipe"):
            if group and len(group) > 1:
                for e in group[:-1]:          # those that write to it may get SIGPIPE, and so on
                    e.x = None
            self.feat["reader that ends early"] += 1
        if len(rd) > 1 << 20 or len(wr) > 1 << 20:
            self.feat["more than 1 MB"] += 1
        ev.x = {"code": code, "rd": len(rd), "rh": zlib.crc32(bytes(rd)), "wr": len(wr), "wh": zlib.crc32(bytes(wr))}
        if name == "head" or (reads is False and rd):
            ev.x = {"code": code}
        return code

    def fileop(self, name, a):
        """lnk OLD NEW, sln TEXT NEW, del FILE, ren OLD NEW, mkd DIR"""
        if len(a) != (2 if name in ("lnk", "sln", "ren") else 1):
            raise Unspec("file operation")
        ps = []
        for f in a if name != "sln" else a[1:]:
            p, ok = self.resolve(f, last=False)
            if not ok or f == "" or f.endswith("/") or not p.startswith(self.home + "/") or os.path.dirname(p) not in self.dirs:
                raise Unspec("file operation")
            ps.append(p)
        self.feat["file operation"] += 1
        p = ps[0]
        if name in ("mkd", "sln"):
            if p in self.dirs or self.isfile(p) or p in self.links or (name == "sln" and a[0] == ""):
                raise Unspec(name)
            if name == "mkd":
                self.dirs.add(p)
            else:
                self.links[p] = a[0]
            return 0
        if p in self.links:
            if name != "del":
                raise Unspec("file operation")
            del self.links[p]
            return 0
        if p in self.dirs or not self.isfile(p):
            raise Unspec("file operation")
        if name != "del":
            q = ps[1]
            if q in self.dirs or self.isfile(q) or q in self.links:
                raise Unspec("file operation")
            for t in (self.progs, self.files):
                if p in t:
                    t[q] = t[p]
            if p in self.noexec:
                self.noexec.add(q)
        if name != "lnk":
            self.progs.pop(p, None)
            self.files.pop(p, None)
            self.noexec.discard(p)
        return 0

    def emit(self, b):
        if isinstance(self.out[-1], bytes):
            self.out[-1] = self.out[-1] + b
        else:
            self.out.append(b)

    # -- functions
    def function(self, name):
        if "::" in name:
            ns, f = name.split("::", 1)
            if ns in self.ns and f in self.ns[ns][1]:
                self.feat["namespace function"] += 1
                return self.ns[ns][1][f]
            return None
        for c in reversed(self.fctx):
            if name in c:
                return c[name]
        return None

    def define(self, c):
        if any(self.isfn) and self.function(c.name) is None:
            raise Unspec("function defined in a function")
        if len(self.fctx) > 2 and not self.isfn[-1] and self.function(c.name) is not None:
            raise Unspec("file of a context redefines a function")
        self.feat["function definition"] += 1
        for k in reversed(self.fctx):
            if c.name in k:
                self.feat["function redefinition"] += 1
                k[c.name] = c.body
                break
        else:
            self.fctx[-1][c.name] = c.body
        self.status = 0

    def call(self, name, body, words):
        self.feat["function call"] += 1
        self.depth += 1
        self.calls += 1
        if self.depth > 64 or self.calls > 3000:
            raise Unspec("deep recursion")
        if self.depth > 1:
            self.feat["nested function call"] += 1
        if self.depth > 12:
            self.feat["function call more than 12 deep"] += 1
        if any(isinstance(w, Wild) for w in words):
            raise Unspec("unset value")
        self.ctxs.append({"0": name, **{str(i + 1): a for i, a in enumerate(words[1:])}})
        self.fctx.append({})
        self.isfn.append(True)
        src, self.insrc = self.insrc, 0
        if self.status is ANY:
            pass
        height = len(self.ctxs)
        try:
            self.run_list(body)
        except NotImpl:
            assert height == len(self.ctxs)
            self.errs += 1
            self.status = NZ
        self.insrc = src
        self.ctxs.pop()
        self.fctx.pop()
        self.isfn.pop()
        self.returning = False
        self.depth -= 1

    # -- builtins
    def err(self):
        self.errs += 1
        self.status = NZ
        self.feat["failing builtin"] += 1

    def builtin(self, name, words):
        a = words[1:]
        if any(isinstance(w, Wild) for w in words):
            raise Unspec("unset value")
        getattr(self, "b_" + {".": "source"}.get(name, name))(a)

    def b_cd(self, a):
        if len(a) > 1:
            raise Unspec("cd with several arguments")
        d = a[0] if a else self.lookup("HOME")
        if d is None or d == "":
            raise Unspec("HOME")
        p, ok = self.resolve(d)
        if not p.startswith(self.home) and os.path.exists(p):
            raise Unspec("outside")
        if ok and p in self.dirs and p not in self.nox:
            self.cwd = p
            self.status = 0
            self.feat["cd"] += 1
            if ".." in d.split("/"):
                self.feat["cd with .."] += 1
        else:
            self.feat["failing cd"] += 1
            self.err()

    def b_pwd(self, a):
        if a:
            raise Unspec("pwd with arguments")
        self.emit(self.cwd.encode() + b"\n")
        self.status = 0

    def b_exit(self, a):
        if len(a) > 1:
            raise Unspec("exit with several arguments")
        if not a:
            self.feat["exit without argument"] += 1
            self.exited = self.status
        elif re.fullmatch(r"\d{1,10}", a[0]) and int(a[0]) < 1 << 31:
            self.feat["exit N"] += 1
            self.exited = int(a[0]) % 256
        elif re.fullmatch(r"[a-z][a-z0-9]*", a[0]):
            self.err()
        else:
            raise Unspec("exit argument")
        if self.exited is not None:
            self.status = self.exited

    def b_return(self, a):
        if not any(self.isfn) or not self.isfn[-1] or self.insrc:
            raise Unspec("return outside of a function")
        if len(a) > 1:
            raise Unspec("return with several arguments")
        if a:
            if re.fullmatch(r"[a-z][a-z0-9]*", a[0]):
                return self.err()
            if not re.fullmatch(r"\d{1,3}", a[0]) or int(a[0]) > 255:
                raise Unspec("return argument")
            self.status = int(a[0])
            self.feat["return N"] += 1
        else:
            self.feat["return without argument"] += 1
        self.returning = True

    def b_alias(self, a):
        if not a or a == ["-p"]:
            lines = ["alias %s='%s'" % kv for kv in self.aliases.items()]
            if any("\n" in l for l in lines):
                raise Unspec("newline")
            self.out += [collections.Counter(lines), b""]
            self.feat["alias listing"] += 1
            self.status = 0
            return
        for x in a:
            if "=" not in x or x.startswith("-") or x.startswith("="):
                raise Unspec("alias argument")
            n, v = x.split("=", 1)
            if not re.fullmatch(r"[A-Za-z0-9_.+@%,:-]+", n):
                raise Unspec("alias name")
            if n in self.aliases:
                self.feat["alias redefinition"] += 1
            if not v.strip():
                self.feat["alias of no text"] += 1
            self.aliases[n] = v
        self.status = 0

    def b_unalias(self, a):
        if len(a) != 1:
            raise Unspec("unalias arguments")
        if a[0] == "-a":
            self.aliases.clear()
        elif a[0].startswith("-") or a[0] not in self.aliases:
            raise Unspec("unalias argument")
        else:
            del self.aliases[a[0]]
        self.status = 0

    def b_export(self, a):
        if not a or a == ["-p"]:
            lines = collections.Counter(f"{k}={v}" for k, v in self.env.items())
            if any("\n" in l or "\udc80" <= max(l) <= "\udcff" for l in lines) or len(self.out) > 200:
                raise Unspec("newline")
            self.out += [lines, b""]
            self.feat["export listing"] += 1
            self.status = 0
            return
        if a[0] == "context":
            return self.context(a[1:])
        for x in a:
            if x.startswith("-"):
                raise Unspec("export flag")
            n, eq, v = x.partition("=")
            if not NAME.match(n) or n == "context" or n in ("PWD", "PS1", "PS2", "PS4", "PPID", "PID", "LD_PRELOAD"):
                raise Unspec("export name")
            if n in self.ro:
                if eq and len(a) > 1:
                    raise Unspec("export of a readonly variable among others")
                if eq:
                    self.feat["export of a readonly variable"] += 1
                    self.errs += 1
                    self.status = ANY
                    return
            if eq:
                if self.isset(n) or not any(self.isfn):
                    pass
                else:
                    raise Unspec("export of a new variable in a function")
                self.feat["export name=value"] += 1
                if self.isset(n):
                    self.assign(n, v)
                self.env[n] = v
                self.ctxs[0][n] = v
                self.dead.setdefault(n, set()).discard(v)
            else:
                if not self.isset(n):
                    raise Unspec("export of an unset variable")
                if self.function(n) is not None:
                    raise Unspec("export of a name that is also a function")
                if all(n not in c for c in self.ctxs[:2]) and any(n in c for c in self.ctxs[2:]):
                    raise Unspec("export of a local variable")
                self.feat["export name"] += 1
                v = self.lookup(n)
                self.env[n] = v
                self.ctxs[0][n] = v
        self.status = 0

    def context(self, a):
        if len(a) != 1:
            raise Unspec("export context arguments")
        ns, eq, f = a[0].partition("=")
        if not eq:
            ns, f = (self.lookup("0"), "self") if a[0] == "self" else (a[0], a[0])
        if not re.fullmatch(r"[A-Za-z0-9_]+", ns):
            raise Unspec("name of a namespace")
        if f == "self":
            self.feat["export context self"] += 1
            self.ns[ns] = (self.ctxs[-1], self.fctx[-1])
            self.status = 0
            return
        text = self.read_file(f, path=False)
        try:
            if text is None:
                self.feat["export context fails"] += 1
                return self.err()
            items = parse(text)
        except BadSyntax:
            self.feat["export context fails"] += 1
            return self.err()
        self.feat["export context file"] += 1
        before = self.all_visible()
        self.ctxs.append({})
        self.fctx.append({})
        self.isfn.append(False)
        self.insrc += 1
        failed = False
        try:
            self.run_list(items)
        except NotImpl:
            failed = True
        self.insrc -= 1
        c, fn = self.ctxs.pop(), self.fctx.pop()
        self.isfn.pop()
        if self.exited is not None:
            return
        if self.all_visible() != before:
            raise Unspec("the file of a context changes variables of the shell")
        if failed:
            return self.err()
        self.ns[ns] = (c, fn)
        self.status = 0

    def all_visible(self):
        return [dict(c) for c in self.ctxs], [dict(c) for c in self.fctx], dict(self.aliases), self.cwd, dict(self.env)

    def read_file(self, f, path):
        if path and "/" not in f:
            for d in self.lookup("PATH").split(":"):
                p, ok = self.resolve(d + "/" + f)
                if d == "":
                    raise Unspec("empty PATH entry")
                if ok and self.isfile(p):
                    if p not in self.files:
                        raise Unspec("sourcing a program")
                    self.feat["source along PATH"] += 1
                    return self.text_of(p)
        p, ok = self.resolve(f)
        if not p.startswith(self.home) and os.path.exists(p):
            raise Unspec("outside")
        if p in self.dirs or not ok or p not in self.files or (p, True) in self.perm_denied:
            return None
        return self.text_of(p)

    def text_of(self, p):
        try:
            return self.files[p].data.decode("utf-8")
        except UnicodeDecodeError:
            return None

    def b_eval(self, a):
        if not a:
            raise Unspec("eval without arguments")
        self.feat["eval"] += 1
        try:
            items = parse(" ".join(a))
        except BadSyntax:
            self.feat["eval of a text that cannot be parsed"] += 1
            return self.err()
        if not items:
            self.status = ANY
        try:
            self.run_list(items)
        except NotImpl:
            self.err()

    def b_source(self, a):
        if not a:
            raise Unspec("source without arguments")
        ctx, hidden = self.ctxs[-1], {}
        try:
            text = self.read_file(a[0], path=True)
            if text is None:
                self.feat["source of a missing file"] += 1
                self.err()
            else:
                items = parse(text)
                self.feat["source"] += 1
                if not items:
                    self.status = ANY
                for i, x in enumerate(a[1:]):
                    n = str(i + 1)
                    if n in self.ro:
                        raise Unspec("ro")
                    hidden[n] = ctx.get(n)
                    ctx[n] = x
                    self.feat["source with arguments"] += i == 0
                self.insrc += 1
                try:
                    self.run_list(items)
                finally:
                    self.insrc -= 1
                    for n, v in hidden.items():
                        if v is None:
                            ctx.pop(n, None)
                        else:
                            ctx[n] = v
        except NotImpl:
            self.err()
        except BadSyntax:
            self.feat["source of a file that cannot be parsed"] += 1
            self.err()

    def b_unset(self, a):
        opt = a[:1] if a and a[0] in ("-c", "-f", "-v") else []
        names = a[len(opt):]
        if len(names) > 1:
            st = 0
            for n in names:
                self.unset_one(opt + [n])
                st = ANY if self.status is ANY else st
            self.feat["unset of several names"] += 1
            self.status = st
        else:
            self.unset_one(a)

    def unset_one(self, a):
        if a and a[0] == "-c":
            if len(a) != 2 or a[1] not in self.ns:
                raise Unspec("unset -c")
            del self.ns[a[1]]
            self.feat["unset -c"] += 1
            self.status = 0
            return
        if a and a[0] == "-f":
            if len(a) != 2 or self.function(a[1]) is None:
                raise Unspec("unset -f")
            self.feat["unset -f"] += 1
            if "::" in a[1]:
                ns, f = a[1].split("::")
                del self.ns[ns][1][f]
            else:
                for c in reversed(self.fctx):
                    if a[1] in c:
                        del c[a[1]]
                        break
            self.status = 0
            return
        if a and a[0] == "-v":
            a = a[1:]
        if len(a) != 1 or a[0].startswith("-"):
            raise Unspec("unset arguments")
        n = a[0]
        if "::" in n:
            ns, v = n.split("::")
            if ns not in self.ns or v not in self.ns[ns][0]:
                raise Unspec("unset of what is not set")
            if self.ns[ns][0] in self.ctxs and v in self.ro:
                raise Unspec("readonly")
            del self.ns[ns][0][v]
            self.feat["unset ns::name"] += 1
            self.status = 0
            return
        if n in self.ro:
            self.feat["unset of a readonly variable"] += 1
            self.errs += 0
            self.status = ANY
            return
        if n in ("PATH", "PS1", "PS2", "PS4", "PWD", "HOME", "0") or n.isdigit():
            raise Unspec("unset of a special variable")
        if not NAME.match(n):
            raise Unspec("unset of an odd name")
        self.feat["unset"] += 1
        inner = [k for k, c in enumerate(self.ctxs) if n in c]
        if inner:
            if len(inner) > 1 and inner != [0, 1]:
                raise Unspec("shadowed variable")
            if inner == [0, 1] and n not in self.env:
                raise Unspec("shadowed variable")
            for k in inner:
                if self.ctxs[k][n] is not ANY:
                    self.dead.setdefault(n, set()).add(self.ctxs[k][n])
                del self.ctxs[k][n]
        self.env.pop(n, None)
        self.status = 0

    def b_readonly(self, a):
        if a == ["-p"]:
            vals = {n: self.lookup(n) for n in self.ro}
            if any("\n" in v for v in vals.values()):
                raise Unspec("newline")
            for n in sorted(vals):
                self.emit(f"{n}={vals[n]}\n".encode())
            self.feat["readonly -p"] += 1
            self.status = 0
            return
        if len(a) > 1:
            if any(x.startswith("-") for x in a):
                raise Unspec("readonly arguments")
            st = 0
            for k, x in enumerate(a):
                self.b_readonly([x])
                if self.status is not ANY and self.status != 0 and k < len(a) - 1:
                    raise Unspec("readonly goes on or not after an error")
                st = self.status if self.status is ANY or self.status != 0 else st
            self.feat["readonly of several names"] += 1
            self.status = st
            return
        if len(a) != 1 or a[0].startswith("-"):
            raise Unspec("readonly arguments")
        n, eq, v = a[0].partition("=")
        if not NAME.match(n) or n in ("PS1", "PS2", "PS4", "PWD", "PPID", "PID", "PATH", "HOME"):
            raise Unspec("readonly name")
        if n in self.ro:
            self.feat["readonly of a readonly variable"] += 1
            self.status = ANY if eq else 0
            return
        if eq:
            if any(n in c for c in self.ctxs[2:]) or (any(self.isfn) and not self.isset(n)):
                raise Unspec("readonly of a local variable")
            if len([c for c in self.ctxs if n in c]) > (2 if n in self.env else 1):
                raise Unspec("shadowed variable")
            if n in self.env:
                self.feat["readonly name=value of an exported variable"] += 1
            self.assign(n, v)
            self.ro.add(n)
            self.feat["readonly name=value"] += 1
        else:
            if not self.isset(n):
                return self.err()
            if any(n in c for c in self.ctxs[2:]):
                raise Unspec("readonly of a local variable")
            self.ro.add(n)
            self.feat["readonly name"] += 1
        self.status = 0

    def b_exec(self, a):
        clear = dash = False
        rename = None
        i = 0
        while i < len(a) and a[i].startswith("-") and a[i][1:] and set(a[i][1:]) <= set("cla"):
            fl = a[i][1:]
            i += 1
            clear |= "c" in fl
            dash |= "l" in fl
            if "a" in fl:
                if i >= len(a):
                    raise Unspec("exec -a")
                rename = a[i]
                i += 1
        a = a[i:]
        if not a or a[0].startswith("-"):
            raise Unspec("exec arguments")
        if a[0] == "":
            raise Unspec("empty command")
        exe = self.find(a[0])
        if exe is None:
            self.feat["failing exec"] += 1
            return self.err()
        argv0 = ("-" if dash else "") + (rename if rename is not None else a[0])
        self.limits([argv0] + a, {} if clear else self.env)
        fds = {0: Ofd(STDIN), 1: Ofd(STDOUT), 2: Ofd(STDERR)}
        ev = Ev(argv=[argv0] + a[1:], exe=exe, env={} if clear else dict(self.env), cwd=self.cwd, fds=fds, pos=(0, 1), sub=self.insub,
                x=None, exec_=True, pre=0)
        self.feat["exec"] += 1
        for f, b in (("-c", clear), ("-l", dash), ("-a", rename)):
            if b:
                self.feat["exec " + f] += 1
        self.events.append([ev])
        st = self.simulate(ev, fds, False, [ev])
        self.exited = self.status = st

    def b_jobs(self, a):
        raise Unspec("jobs")

    b_fg = b_bg = b_jobs


def mentions(w, name):
    if w[0] == "var":
        return w[1] == name
    if w[0] == "dq":
        return any(p == ("var", name) or p[0] == "sub" for p in w[1])
    return w[0] == "sub"


def balanced(s):
    st = []
    pair = {")": "(", "]": "[", "}": "{"}
    for c in s:
        if c in "([{":
            st.append(c)
        elif c in pair:
            if not st or st.pop() != pair[c]:
                return False
    return not st


# ------------------------------------------------------------------ comparison
def esc(b):
    return repr(b if len(b) < 400 else b[:200] + b"..." + b[-150:])


# what the instrumentation adds to the environment of the shell
HARNESS = re.compile(rb"^(?:LD_PRELOAD|SHIM_[A-Z]+|ASAN_OPTIONS)=.*\n", re.M)


def match_out(chunks, got):
    """does the output consist of the expected pieces? (a Counter stands for lines in any order)"""
    pos = 0
    if any(isinstance(c, collections.Counter) for c in chunks):
        got = HARNESS.sub(b"", got)
    for c in chunks:
        if isinstance(c, bytes):
            if got[pos:pos + len(c)] != c:
                return False
            pos += len(c)
        else:
            n = sum(c.values())
            lines = []
            for _ in range(n):
                e = got.find(b"\n", pos)
                if e < 0:
                    return False
                lines.append(got[pos:e].decode("utf-8", "surrogateescape"))
                pos = e + 1
            if collections.Counter(lines) != c:
                return False
    return pos == len(got)


def same_arg(want, got):
    if isinstance(want, Wild):
        return not any(len(o) >= 4 and o in got for o in want.olds)
    return want == got


def same_argv(want, got):
    return len(want) == len(got) and all(same_arg(a, b) for a, b in zip(want, got))


def norm(res, mode):
    """the log of a run: commands with their S and X events in order of their start"""
    from core import b2s
    if getattr(res, "normed", None) is not None and res.normed[0] is res.events:
        return res.normed[1]
    cmds, by = [], {}
    for n, e in enumerate(res.events):
        e["n"] = n
        if e["e"] == "S":
            e["argv"] = [b2s(a) for a in e["argv"]]
            e["envd"] = {}
            for kv in e["env"]:
                k, _, v = b2s(kv).partition("=")
                e["envd"][k] = v
            e["exe"] = b2s(e["exe"])
            e["cwd"] = b2s(e["cwd"])
            e["X"] = None
            cmds.append(e)
            by[e["pid"]] = e
        elif e["e"] == "X" and e["pid"] in by:
            by[e["pid"]]["X"] = e
    res.normed = (res.events, cmds)
    return cmds


def assign_events(group, got, fields, extra=None):
    """which started process is which expected command (a pipeline's commands start in any order)"""
    def fits(ev, e, strict):
        if not same_argv(ev.argv, e["argv"]) or ("exe" in fields and e["exe"] != ev.exe):
            return False
        if not strict:
            return True
        if "env" in fields and e["envd"] != ev.env or extra and extra(ev, e):
            return False
        return ev.x is None or "x" not in fields or (e["X"] is not None and all(e["X"][k] == v for k, v in ev.x.items()))

    owner = {}                   # index in got -> event

    def place(ev, seen, strict):
        for j, e in enumerate(got):
            if j not in seen and fits(ev, e, strict):
                seen.add(j)
                if j not in owner or place(owner[j], seen, strict):
                    owner[j] = ev
                    return True
        return False

    for strict in (True, False):
        placed = {id(v) for v in owner.values()}
        for ev in group:
            if id(ev) not in placed and any(fits(ev, e, True) for e in got) >= strict:
                place(ev, set(), strict)
                placed = {id(v) for v in owner.values()}
    return {id(v): got[j] for j, v in owner.items()}


def compare(m, res, fields, chatter=False):
    """fields: subset of argv exe env cwd x out rc files err order pid; returns a list of differences"""
    bad = []
    if res.panic:
        bad.append("the shell panicked: " + esc(res.err))
    if res.hang:
        bad.append("the shell did not end: " + res.where)
        return bad
    cmds = norm(res, m.mode)
    pos = 0
    for g, group in enumerate(m.events):
        got = cmds[pos:pos + len(group)]
        pos += len(group)
        pairs = assign_events(group, got, fields)
        for ev in group:
            hit = pairs.get(id(ev))
            if hit is None:
                bad.append(f"command {g + 1} of {len(m.events)}: expected {ev.argv!r}"
                           + (f" from {ev.exe}" if "exe" in fields else "")
                           + f", started: {[e['argv'] if 'exe' not in fields else (e['exe'], e['argv']) for e in got]!r}")
                return bad
            hit["ev"] = ev
            what = f"command {g + 1} {ev.argv!r}"[:300]
            if "env" in fields and hit["envd"] != ev.env:
                d = {k: (ev.env.get(k), hit["envd"].get(k)) for k in set(ev.env) | set(hit["envd"]) if ev.env.get(k) != hit["envd"].get(k)}
                bad.append(f"{what}: environment differs, name: (expected, got) {d!r}")
            if "cwd" in fields and hit["cwd"] != ev.cwd:
                bad.append(f"{what}: directory {hit['cwd']!r} instead of {ev.cwd!r}")
            if "x" in fields and ev.x is not None:
                x = hit["X"]
                if x is None:
                    bad.append(f"{what}: did not end by itself")
                else:
                    d = {k: (v, x[k]) for k, v in ev.x.items() if x[k] != v}
                    if d:
                        bad.append(f"{what}: (expected, got) {d!r}")
            if "pid" in fields and (hit["pid"] == res.pid) != (ev.exec_ and not ev.sub):
                bad.append(f"{what}: runs in {'the shell process' if hit['pid'] == res.pid else 'a process of its own'}")
        if "order" in fields and g:
            start = min(e["n"] for e in got)
            prev = cmds[pos - len(group) - len(m.events[g - 1]):pos - len(group)]
            for e in prev:
                if e.get("ev") is not None and (e["X"] is not None) and e["X"]["n"] > start:
                    bad.append(f"command {g + 1} {got[0]['argv']!r} started before {e['argv']!r} had ended")
    if pos < len(cmds):
        bad.append(f"too many commands: {[e['argv'] for e in cmds[pos:pos + 3]]!r}")
        return bad
    if "out" in fields:
        out = res.out
        if m.mode == "stdin":
            out = strip_chatter(out)
        if not match_out(m.out, out):
            bad.append(f"standard output: expected {[esc(c) if isinstance(c, bytes) else dict(c) for c in m.out]} got {esc(out)}")
    if "rc" in fields and res.rc is not None:
        want = m.exited if m.exited is not None else (0 if m.mode == "stdin" else m.status)
        rc = res.rc if res.rc >= 0 else 128 - res.rc
        if m.exited is None and m.mode == "stdin":
            pass
        elif want == NZ:
            if rc == 0:
                bad.append("exit status 0 after a failure")
        elif want != ANY and rc != want:
            if not (res.rc < 0 and m.events and m.events[-1][0].exec_ and want == rc):
                bad.append(f"exit status {res.rc} instead of {want}")
    if "err" in fields and m.errs and not res.err and not (m.mode == "stdin" and res.out):
        bad.append("no message was printed for what failed")
    if "noerr" in fields and not m.errs and not m.stderr_data and res.err and m.mode != "stdin":
        bad.append(f"unexpected message {esc(res.err)}")
    if "files" in fields:
        from core import files_of
        got = files_of(m.w)
        got = {k: v for k, v in got.items() if m.w + "/" + k not in m.links}
        for k in list(got):
            if m.w + "/" + k in m.progs:
                del got[k]
        want = {os.path.relpath(k, m.w): bytes(v.data) for k, v in m.files.items() if k.startswith(m.w + "/")}
        if got != want:
            for k in sorted(set(got) | set(want)):
                if got.get(k) != want.get(k):
                    bad.append(f"file {k!r}: expected {esc(want[k]) if k in want else 'none'}, got {esc(got[k]) if k in got else 'none'}")
                    break
    return bad


def strip_chatter(out):
    """without what the interactive shell tells about jobs and syntax errors"""
    return re.sub(rb"\[\d+\] (\+ )?\t\t(Done|Stopped|Running) [^\n]* \(SIG[A-Z0-9]+\)( \(core dumped\))?\n|Error: [^\n]*\n", b"", out)
