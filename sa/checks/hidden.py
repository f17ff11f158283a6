"""T02: what the library remembers lies in the objects its callers made"""
from framework import check
from engine import Engine

# libc functions that answer from storage every caller in the process shares
SHARED = set("""strtok gethostbyname gethostbyname2 gethostbyaddr gethostent getnetbyname getnetbyaddr getnetent
getprotobyname getprotobynumber getprotoent getservbyname getservbyport getservent getpwnam getpwuid getpwent getgrnam getgrgid getgrent
inet_ntoa ether_ntoa ether_aton localtime gmtime ctime asctime rand srand random srandom initstate setstate drand48 erand48 lrand48
nrand48 mrand48 jrand48 srand48 seed48 lcong48 ttyname ptsname tmpnam tempnam crypt encrypt setkey ecvt fcvt getlogin l64a hsearch
hcreate hdestroy getopt getopt_long basename getdate ctermid cuserid getutent fgetgrent fgetpwent getmntent""".split())
# functions that change a setting of the whole process
PROCESS = set("""signal sigaction sigprocmask sigset bsd_signal umask chdir fchdir chroot setlocale setenv unsetenv putenv clearenv
alarm ualarm setitimer setrlimit prlimit setuid setgid seteuid setegid setreuid setregid setgroups nice setpriority mlockall munlockall
mallopt tzset atexit on_exit system popen fork vfork daemon setsid setpgid srand48""".split())
ALIAS = ("__isoc99_", "__isoc23_", "__xpg_", "__")
COPY = {"llvm.memcpy": (0, 1), "llvm.memmove": (0, 1), "memcpy": (0, 1), "memmove": (0, 1), "llvm.memset": (0, None), "memset": (0, None),
        "__memcpy_chk": (0, 1), "__memset_chk": (0, None)}
READERS = {"memcmp", "strlen", "strcmp", "strncmp", "strchr", "bcmp"}


def names(x):
    """globals an operand mentions"""
    if isinstance(x, list):
        if len(x) == 3 and x[0] == "g" and isinstance(x[1], str):
            yield x[1]
        else:
            for y in x:
                yield from names(y)


def libc(name):
    n = name.lstrip("@")
    for a in ALIAS:
        if n.startswith(a):
            n = n[len(a):]
    return n[:-4] if n.endswith("@plt") else n


class Uses:
    """who reads and who writes each variable of static storage"""

    def __init__(self, P):
        self.P, self.read, self.write, self.sites = P, {}, {}, 0
        for F in P.funcs.values():
            if F.blocks is not None:
                self.func(F)
        for n, g in P.globals.items():
            for t in names(g.get("init") or []):
                self.note(self.read, t, None, None), self.note(self.write, t, None, None)

    def note(self, d, name, F, loc):
        if name in self.P.globals:
            self.sites += 1
            d.setdefault(name, (F, loc))

    def func(self, F):
        ins = [(("%s:%s" % (Engine.relfile(f or F.file), l)), i) for b in F.blocks for l, f, i in b]
        # registers that hold an address inside a variable
        base = {}
        for _ in range(4):
            for loc, i in ins:
                if i[0] in ("gep", "cast", "phi", "select") and i[1] >= 0:
                    ops = [i[2]] if i[0] == "gep" else [i[3]] if i[0] == "cast" else [v for v, b in i[2]] if i[0] == "phi" else i[3:5]
                    base.setdefault(i[1], set()).update(*[self.of(base, o) for o in ops])
                elif i[0] == "call" and str(i[2]).find("llvm.threadlocal.address") >= 0:
                    base.setdefault(i[1], set()).update(*[self.of(base, o) for o in i[3]])
        users = {}
        for loc, i in ins:
            for o in self.regs(i):
                users.setdefault(o, []).append(i)
        for loc, i in ins:
            if i[0] == "load":
                for g in self.of(base, i[2]):
                    if self.matters(i[1], g, users, base):
                        self.note(self.read, g, F, loc)
            elif i[0] == "store":
                for g in self.of(base, i[3]):
                    self.note(self.write, g, F, loc)
                for g in self.of(base, i[2]):
                    self.note(self.read, g, F, loc), self.note(self.write, g, F, loc)
            elif i[0] == "call":
                callee = next(names(i[2]), "").lstrip("@")
                short = ".".join(callee.split(".")[:2])
                for k, a in enumerate(i[3]):
                    for g in self.of(base, a):
                        if callee.startswith(("llvm.lifetime", "llvm.dbg", "llvm.threadlocal", "llvm.assume")):
                            continue
                        c = COPY.get(short) or COPY.get(callee)
                        if c is None or k == c[1]:
                            self.note(self.read, g, F, loc)
                        if c is None and callee not in READERS or c is not None and k == c[0]:
                            self.note(self.write, g, F, loc)
            elif i[0] in ("other", "ret"):
                for o in (i[3] if i[0] == "other" and len(i) > 3 else i[2:]):
                    for g in self.of(base, o):
                        self.note(self.read, g, F, loc), self.note(self.write, g, F, loc)

    @staticmethod
    def of(base, o):
        if isinstance(o, int):
            return base.get(o, set())
        return set(names(o))

    @staticmethod
    def regs(i):
        if i[0] == "load":
            return [i[2]] if isinstance(i[2], int) else []
        if i[0] == "store":
            return [x for x in i[2:4] if isinstance(x, int)]
        if i[0] == "bin":
            return [x for x in i[3:5] if isinstance(x, int)]
        if i[0] == "cast":
            return [i[3]] if isinstance(i[3], int) else []
        if i[0] == "gep":
            return [x for x in [i[2]] + [v[0] for v in i[4]] if isinstance(x, int)]
        if i[0] == "phi":
            return [v for v, b in i[2] if isinstance(v, int)]
        if i[0] == "call":
            return [x for x in [i[2]] + i[3] if isinstance(x, int)]
        if i[0] == "other":
            return [x for x in (i[3] if len(i) > 3 else []) if isinstance(x, int)]
        if i[0] in ("br", "unreachable", "alloca"):
            return []
        if i[0] == "icmp":
            return [x for x in i[3:5] if isinstance(x, int)]
        if i[0] == "select":
            return [x for x in i[2:5] if isinstance(x, int)]
        if i[0] in ("cbr", "switch", "ret", "extractvalue"):
            return [x for x in i[2:3] if isinstance(x, int)]
        return [x for x in i[2:] if isinstance(x, int)]

    def matters(self, r, g, users, base):
        """a value loaded from g that does more than go back into g"""
        todo, seen = [r], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for i in users.get(x, ()):
                if i[0] in ("bin", "cast", "phi"):
                    todo.append(i[1])
                elif not (i[0] == "store" and i[2] == x and self.of(base, i[3]) == {g}):
                    return True
        return False


@check("T02", 100)
def t02(ctx):
    for cfg in ("epoll", "poll") if ctx.thorough else ("epoll",):
        P = ctx.prog(cfg)
        U = Uses(P)
        for F in P.funcs.values():
            if F.blocks is not None:
                ctx.functions.add(F.name)
        n = 0
        for name, g in sorted(P.globals.items()):
            n += 1
            if g["const"] or name not in U.write or name not in U.read:
                continue
            (wf, wl), (rf, rl) = U.write[name], U.read[name]
            d = g.get("diname") or name.lstrip("@").split(".")[-1]
            F = wf or rf
            ctx.finding("hidden-state", F.short if F else d, wl or rl or "src",
                        "%s is shared by every caller in the process: it is written %s and read %s" % (
                            d, "in %s" % wf.short if wf else "through its address", "in %s" % rf.short if rf else "through its address"))
        ctx.rule("variables of static storage: constant, or not both written and read [%s]" % cfg, n)
        k = 0
        for F in P.funcs.values():
            for b in F.blocks or ():
                for line, f, i in b:
                    if i[0] != "call":
                        continue
                    k += 1
                    ctx.callsites += 1
                    for t in set(names(i[2:])):
                        if t in P.funcs and P.funcs[t].blocks is not None or t.lstrip("@") in P.funcs and P.funcs[t.lstrip("@")].blocks is not None:
                            continue
                        c = libc(t)
                        if c in SHARED or c in PROCESS:
                            ctx.finding("hidden-state", F.short, "%s:%s" % (Engine.relfile(f or F.file), line),
                                        "%s is called, which %s" % (c, "answers from storage shared by every caller in the process" if c in SHARED else "changes a setting of the whole process"))
        ctx.rule("calls: none to a function with process-wide state [%s]" % cfg, k)
    return ("Query over the IR of every unit: each variable of static storage that is not constant is followed through address computations to the "
            "instructions that write it and read it; each call is checked against the libc functions that keep or change process-wide state.")
