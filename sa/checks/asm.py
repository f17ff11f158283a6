"""The context switch written in assembly (F04): the assembler source of the
current tree is assembled (GNU as, into a scratch directory), disassembled, and
its instructions are interpreted symbolically over the registers and three
abstract memory regions (the fiber structures and their stacks).  Nothing is
executed."""
import glob
import os
import re
import subprocess
import tempfile

import frontend
from framework import check
from frontend import AnalysisBroken, short

R64 = "rax rbx rcx rdx rsi rdi rbp rsp r8 r9 r10 r11 r12 r13 r14 r15".split()
SUB32 = {"e" + r[1:]: r for r in R64 if r[1] not in "0123456789"}
SUB32.update({"r%dd" % n: "r%d" % n for n in range(8, 16)})
SAVED = "rbx rbp r12 r13 r14 r15".split()
M64 = (1 << 64) - 1


class Bad(Exception):
    def __init__(self, loc, msg):
        self.loc, self.msg = loc, msg


class Code:
    """instructions of every assembler file, by (file, address)"""

    def __init__(self):
        self.ins, self.labels, self.files, self.count = {}, {}, [], 0
        srcs = sorted(glob.glob(os.path.join(frontend.REPO, "src", "fiber", "platform", "*", "x86_64", "*.s")))
        if not srcs:
            raise AnalysisBroken("no x86-64 assembler source under src/fiber/platform")
        with tempfile.TemporaryDirectory(prefix="rcprasm") as d:
            for s in srcs:
                rel = os.path.relpath(s, frontend.REPO)
                o = os.path.join(d, "o.o")
                r = subprocess.run(["as", "-g", "-I", os.path.dirname(s), s, "-o", o], capture_output=True, text=True)
                if r.returncode:
                    raise AnalysisBroken("cannot assemble %s: %s" % (rel, r.stderr[-500:]))
                t = subprocess.run(["objdump", "-d", "-r", "-l", "--no-show-raw-insn", o], capture_output=True, text=True).stdout
                self.parse(rel, t)
                self.files.append(rel)

    def parse(self, rel, text):
        line, prev = 0, None
        for ln in text.splitlines():
            m = re.match(r"^([0-9a-f]+) <([^>]+)>:$", ln)
            if m:
                self.labels[short(m.group(2))] = (rel, int(m.group(1), 16))
                continue
            m = re.match(r"^\S*?[^\s:]+\.(?:s|S|inc):(\d+)", ln)
            if m:
                line = int(m.group(1))
                continue
            m = re.match(r"^\s+[0-9a-f]+: (R_X86_64_\S+)\s+(\S+)", ln)
            if m:
                self.ins[prev]["reloc"] = m.group(2)
                continue
            m = re.match(r"^\s+([0-9a-f]+):\t(.*)$", ln)
            if m:
                a = (rel, int(m.group(1), 16))
                body = m.group(2).split("#")[0].strip()
                self.ins[a] = dict(text=body, loc="%s:%d" % (rel, line), next=None)
                if prev and prev[0] == rel:
                    self.ins[prev]["next"] = a
                prev = a
                self.count += 1


def split_ops(s):
    out, depth, cur = [], 0, ""
    for c in s:
        if c == "," and not depth:
            out.append(cur.strip())
            cur = ""
            continue
        depth += (c == "(") - (c == ")")
        cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


class State:
    """values: ("n", int) constants, ("v", name) opaque, (region, off) for
    region in regions is written ("p", region, off), ("c", (file, addr)) code"""

    def __init__(self, aligns):
        self.r, self.mem, self.log, self.aligns = {}, {}, [], aligns
        self.csr = {"mxcsr": ("v", "mxcsr"), "x87": ("v", "x87")}

    def copy(self):
        s = State(self.aligns)
        s.r, s.mem, s.log, s.csr = dict(self.r), dict(self.mem), list(self.log), dict(self.csr)
        return s

    def store(self, reg, off, size, v, loc):
        for (r2, o2), (z2, _) in list(self.mem.items()):
            if r2 == reg and o2 < off + size and off < o2 + z2 and (o2, z2) != (off, size):
                del self.mem[(r2, o2)]
                for k in range(o2, o2 + z2):
                    self.log.append(("kill", reg, k, 1, loc))
        self.mem[(reg, off)] = (size, v)
        self.log.append(("st", reg, off, size, loc))

    def load(self, reg, off, size):
        e = self.mem.get((reg, off))
        if e and e[0] == size:
            return e[1]
        if any(r2 == reg and o2 < off + size and off < o2 + z2 for (r2, o2), (z2, _) in self.mem.items()):
            return ("v", "mixed bytes at %s%+d" % (reg, off))
        v = ("v", "[%s%+d]/%d" % (reg, off, size))
        self.mem[(reg, off)] = (size, v)
        return v


class Run:
    """interprets from one label until control leaves to a value `stop` accepts"""

    def __init__(self, code, limit=400):
        self.code, self.limit = code, limit
        self.regions = set()

    def addr(self, st, op, nxt, loc):
        if re.match(r"^-?(0x[0-9a-f]+|\d+)$", op):
            return ("n", int(op, 0) & M64)
        m = re.match(r"^(-?0x[0-9a-f]+|-?\d+)?\(([^)]*)\)$", op)
        if not m:
            raise AnalysisBroken("%s: operand %s is not understood" % (loc, op))
        off = int(m.group(1) or "0", 0)
        parts = [p.strip() for p in m.group(2).split(",")]
        if len(parts) > 1:
            raise AnalysisBroken("%s: indexed operand %s is not understood" % (loc, op))
        base = parts[0].lstrip("%")
        if base == "rip":
            return ("c", (nxt[0], nxt[1] + off))
        return self.plus(st.r[base], off)

    @staticmethod
    def plus(v, n):
        if n >= 1 << 63:
            n -= 1 << 64
        if v[0] == "p":
            return ("p", v[1], v[2] + n)
        if v[0] == "n":
            return ("n", (v[1] + n) & M64)
        return ("v", "%s%+d" % (v[1], n)) if n else v

    def read(self, st, op, size, nxt, loc):
        if op.startswith("$"):
            return ("n", int(op[1:], 0) & M64)
        if op.startswith("%"):
            r = op[1:]
            if r in R64:
                return st.r[r]
            if r in SUB32:
                v = st.r[SUB32[r]]
                return ("n", v[1] & 0xffffffff) if v[0] == "n" else ("v", "low 32 bits of %s" % (v,))
            raise AnalysisBroken("%s: register %s is not understood" % (loc, op))
        a = self.addr(st, op, nxt, loc)
        return self.loadat(st, a, size, loc)

    def loadat(self, st, a, size, loc):
        if a[0] != "p":
            raise Bad(loc, "reads memory at an address that is neither a fiber nor a fiber's stack (%s)" % (a[1],))
        return st.load(a[1], a[2], size)

    def write(self, st, op, size, v, nxt, loc):
        if op.startswith("%"):
            r = op[1:]
            if r in R64:
                st.r[r] = v
            elif r in SUB32:
                st.r[SUB32[r]] = ("n", v[1] & 0xffffffff) if v[0] == "n" else ("v", "low 32 bits of %s" % (v,))
            else:
                raise AnalysisBroken("%s: register %s is not understood" % (loc, op))
            return
        a = self.addr(st, op, nxt, loc)
        if a[0] != "p":
            raise Bad(loc, "writes memory at an address that is neither a fiber nor a fiber's stack (%s)" % (a[1],))
        st.store(a[1], a[2], size, v, loc)

    def size(self, mn, ops):
        for o in ops:
            if o.startswith("%"):
                return 8 if o[1:] in R64 else 4
        return {"q": 8, "l": 4, "w": 2, "b": 1}.get(mn[-1], 8)

    def go(self, st, pc):
        """every way control can leave: list of (state, target value, loc, how)"""
        out, work = [], [(st, pc, 0)]
        while work:
            st, pc, n = work.pop()
            while True:
                n += 1
                i = self.code.ins.get(pc)
                if i is None:
                    out.append((st, ("v", "past the end of the code"), "%s" % pc[0], "falls"))
                    break
                loc, nxt = i["loc"], i["next"]
                if n > self.limit:
                    raise Bad(loc, "does not leave the routine within %d instructions" % self.limit)
                w = i["text"].split(None, 1)
                mn, ops = w[0], split_ops(w[1]) if len(w) > 1 else []
                if mn in ("bnd", "notrack"):
                    w = w[1].split(None, 1)
                    mn, ops = w[0], split_ops(w[1]) if len(w) > 1 else []
                fall = nxt or (pc[0], pc[1] + 1)
                if mn in ("nop", "nopw", "nopl", "endbr64", "data16", "xchg") and (mn != "xchg" or ops == ["%ax", "%ax"]):
                    pass
                elif mn in ("mov", "movq", "movl", "movabs"):
                    z = self.size(mn, ops)
                    self.write(st, ops[1], z, self.read(st, ops[0], z, fall, loc), fall, loc)
                elif mn in ("lea", "leaq"):
                    self.write(st, ops[1], 8, self.addr(st, ops[0], fall, loc), fall, loc)
                elif mn in ("add", "addq", "sub", "subq"):
                    a, b = self.read(st, ops[0], 8, fall, loc), self.read(st, ops[1], 8, fall, loc)
                    if a[0] == "n":
                        k = a[1] - (1 << 64) if a[1] >= 1 << 63 else a[1]
                        v = self.plus(b, k if mn.startswith("add") else -k)
                    else:
                        v = ("v", "%s of %s and %s" % (mn, b, a))
                    self.write(st, ops[1], 8, v, fall, loc)
                elif mn in ("and", "andq"):
                    a, b = self.read(st, ops[0], 8, fall, loc), self.read(st, ops[1], 8, fall, loc)
                    v = ("v", "and of %s and %s" % (b, a))
                    if a[0] == "n" and b[0] == "n":
                        v = ("n", a[1] & b[1])
                    elif a[0] == "n" and b[0] == "p":
                        low = (~a[1]) & M64
                        al = st.aligns.get(b[1], 1)
                        if (low & (low + 1)) == 0 and low < al:
                            v = ("p", b[1], b[2] - (b[2] & low))
                    self.write(st, ops[1], 8, v, fall, loc)
                elif mn in ("xor", "xorl", "xorq") and ops[0] == ops[1]:
                    self.write(st, ops[1], 8, ("n", 0), fall, loc)
                elif mn in ("push", "pushq"):
                    v = self.read(st, ops[0], 8, fall, loc)
                    st.r["rsp"] = self.plus(st.r["rsp"], -8)
                    self.write(st, "(%rsp)", 8, v, fall, loc)
                elif mn in ("pop", "popq"):
                    v = self.read(st, "(%rsp)", 8, fall, loc)
                    st.r["rsp"] = self.plus(st.r["rsp"], 8)
                    self.write(st, ops[0], 8, v, fall, loc)
                elif mn in ("stmxcsr", "fnstcw", "fstcw"):
                    k, z = ("mxcsr", 4) if mn == "stmxcsr" else ("x87", 2)
                    self.write(st, ops[0], z, st.csr[k], fall, loc)
                elif mn in ("ldmxcsr", "fldcw"):
                    k, z = ("mxcsr", 4) if mn == "ldmxcsr" else ("x87", 2)
                    st.csr[k] = self.read(st, ops[0], z, fall, loc)
                elif mn in ("ret", "retq", "repz"):
                    v = self.read(st, "(%rsp)", 8, fall, loc)
                    st.r["rsp"] = self.plus(st.r["rsp"], 8)
                    out.append((st, v, loc, "jump"))
                    break
                elif mn in ("jmp", "jmpq"):
                    if ops[0].startswith("*"):
                        v = self.read(st, ops[0][1:], 8, fall, loc)
                    elif i.get("reloc"):
                        v = ("f", re.sub(r"[-+]0x[0-9a-f]+$", "", i["reloc"]))
                    else:
                        v = ("c", (pc[0], int(ops[0].split()[0], 16)))
                    if v[0] == "c" and not ops[0].startswith("*"):
                        pc = v[1]
                        continue
                    out.append((st, v, loc, "jump"))
                    break
                elif re.match(r"^j[a-z]+$", mn):
                    work.append((st.copy(), (pc[0], int(ops[0].split()[0], 16)), n))
                elif mn in ("call", "callq"):
                    v = ("f", re.sub(r"[-+]0x[0-9a-f]+$", "", i.get("reloc") or ops[0]))
                    if ops[0].startswith("*"):
                        v = self.read(st, ops[0][1:], 8, fall, loc)
                    out.append((st, v, loc, "call"))
                    break
                elif mn in ("hlt", "ud2", "int3"):
                    out.append((st, ("v", "a trap"), loc, "trap"))
                    break
                elif mn in ("cmp", "cmpq", "test", "testq", "cld"):
                    pass
                else:
                    raise AnalysisBroken("%s: instruction '%s' is not understood" % (loc, i["text"]))
                pc = fall
        return out


def fresh(tag, aligns):
    st = State(aligns)
    for r in R64:
        st.r[r] = ("v", "%s@%s" % (r, tag))
    st.csr = {k: ("v", "%s@%s" % (k, tag)) for k in ("mxcsr", "x87")}
    return st


def clobber(st, tag, keep=()):
    """everything the C code on another stack may have done to the registers"""
    for r in R64:
        if r not in keep:
            st.r[r] = ("v", "%s@%s" % (r, tag))
    st.csr = {k: ("v", "%s@%s" % (k, tag)) for k in ("mxcsr", "x87")}


class Checker:
    def __init__(self, ctx):
        self.ctx = ctx
        self.P = ctx.prog()
        self.code = Code()
        for l in ("fiber_switch", "fiber_make"):
            if l not in self.code.labels:
                raise AnalysisBroken("%s is not defined in the assembler sources" % l)
        self.off = {f: self.P.offset("fiber", f) for f in
                    ("stack_ptr", "restore_discipline_id", "restore_reason_code", "restore_param")}
        self.n = 0

    def need(self, ok, loc, func, msg, rule):
        self.ctx.rule(rule)
        if not ok:
            self.ctx.finding("asm", func, loc, msg)

    def at(self, label):
        a = self.code.labels[label]
        return self.code.ins[a]["loc"]

    def call(self, st, func, args):
        """control at the first instruction of func, return address on the stack"""
        for r, v in zip(("rdi", "rsi", "rdx", "rcx", "r8"), args):
            st.r[r] = v
        del st.log[:]
        try:
            return Run(self.code).go(st, self.code.labels[func])
        except Bad as b:
            self.need(False, b.loc, func, b.msg, "every access is to a fiber or its stack")
            return []

    def writes(self, st, func, allowed, rule):
        """every write of the routine lies in one of the allowed (region, lo, hi)"""
        for k, reg, off, size, loc in st.log:
            if k != "st":
                continue
            ok = any(reg == r and lo <= off and off + size <= hi for r, lo, hi in allowed)
            self.need(ok, loc, func, "writes %d bytes at offset %d of %s, outside what belongs to it" % (size, off, reg), rule)

    def fields(self, fib, names):
        return [(fib, self.off[n], self.off[n] + 8) for n in names]

    def switch(self, st, prev, next, tag, sp):
        """one fiber_switch call on a stack whose rsp is sp; (state, target)*"""
        st.r["rsp"] = sp
        msg = [("v", "id@" + tag), ("v", "event@" + tag), ("v", "param@" + tag)]
        res = []
        for s, tgt, loc, how in self.call(st, "fiber_switch", [("p", prev, 0), ("p", next, 0)] + msg):
            self.need(how == "jump", loc, "fiber_switch", "does not transfer control to the next fiber", "leaves to the next fiber")
            self.writes(s, "fiber_switch", self.fields(prev, ["stack_ptr"]) +
                        self.fields(next, ["restore_discipline_id", "restore_reason_code", "restore_param"]) +
                        [(sp[1], sp[2] - 128, sp[2])], "writes only its own frame and the two fibers' switch fields")
            stored = s.mem.get((prev, self.off["stack_ptr"]), (0, ("v", "?")))[1]
            self.need(stored[0] == "p" and stored[1] == sp[1], loc, "fiber_switch",
                      "does not save the stack pointer of the fiber it leaves", "stack pointer saved")
            if stored[0] == "p":
                # what was saved has to lie at or above the saved stack pointer less the red zone
                for k, reg, off, size, l in s.log:
                    if k == "st" and reg == sp[1]:
                        self.need(off >= stored[2] - 128, l, "fiber_switch", "saves a register below the stack it leaves behind", "saved above the stack pointer")
            for f, v in zip(("restore_discipline_id", "restore_reason_code", "restore_param"), msg):
                got = s.mem.get((next, self.off[f]), (0, None))
                self.need(got == (8, v), loc, "fiber_switch", "the next fiber's %s is not the argument of the switch" % f, "message stored for the next fiber")
            res.append((s, tgt, loc))
        return res

    def round_trip(self):
        """A switches to B and later B to A: A finds itself as it left"""
        aligns = {"A": 16, "B": 16, "stackA": 16, "stackB": 16, "sched": 16}
        st = fresh("A", aligns)
        before, csr = dict(st.r), dict(st.csr)
        # B is somewhere inside an earlier fiber_switch of its own: get there by the code itself
        b0 = fresh("B0", aligns)
        b0.mem[("X", self.off["stack_ptr"])] = (8, ("p", "stackX", 0))
        b0.mem[("stackB", 0)] = (8, ("v", "return into B"))
        bsave, bcsr = dict(b0.r), dict(b0.csr)
        for s0, _, _ in self.switch(b0, "B", "X", "0", ("p", "stackB", 0)):
            st.mem = {k: v for k, v in s0.mem.items() if k[0] in ("B", "stackB")}
            st.mem[("stackA", 0)] = (8, ("v", "return into A"))
            one = st.copy()
            for s1, tgt, loc in self.switch(one, "A", "B", "1", ("p", "stackA", 0)):
                self.resumed(s1, tgt, loc, bsave, bcsr, ("p", "stackB", 8), ("v", "return into B"))
                # B runs on (deeper or shallower in its stack), then switches back
                for depth in (-4096, 0, 256):
                    two = s1.copy()
                    clobber(two, "B1")
                    two.mem[("stackB", depth)] = (8, ("v", "return into B later"))
                    for s2, tgt2, loc2 in self.switch(two, "B", "A", "2", ("p", "stackB", depth)):
                        self.resumed(s2, tgt2, loc2, before, csr, ("p", "stackA", 8), ("v", "return into A"))
                        self.n += 1

    def resumed(self, s, tgt, loc, regs, csr, sp, ret):
        f = "fiber_switch"
        self.need(tgt == ret, loc, f, "does not continue where the next fiber had left off", "continues at the saved return address")
        self.need(s.r["rsp"] == sp, loc, f, "the resumed fiber's stack pointer is not the one it had", "stack pointer restored")
        for r in SAVED:
            self.need(s.r[r] == regs[r], loc, f, "register %s of the resumed fiber is not the one it had" % r, "callee-saved register restored")
        for k in ("mxcsr", "x87"):
            self.need(s.csr[k] == csr[k], loc, f, "the floating-point control word (%s) of the resumed fiber is not the one it had" % k, "control word restored")

    def first_entry(self):
        """a fiber made with any stack top is entered correctly"""
        for top in range(16):
            aligns = {"N": 16, "P": 16, "stackN": 16, "stackP": 16, "stackC": 16}
            st = fresh("C", aligns)
            st.r["rsp"] = ("p", "stackC", 0)
            st.mem[("stackC", 0)] = (8, ("v", "return from make"))
            st.mem[("N", self.off["stack_ptr"])] = (8, ("p", "stackN", top))
            before, csr = dict(st.r), dict(st.csr)
            for s, tgt, loc, how in self.call(st, "fiber_make", [("p", "N", 0), ("v", "sched"), ("v", "entry")]):
                f = "fiber_make"
                self.need(tgt == ("v", "return from make") and how == "jump", loc, f, "does not return to its caller", "make returns")
                self.need(s.r["rsp"] == ("p", "stackC", 8), loc, f, "returns with a changed stack pointer", "make keeps the caller's stack")
                for r in SAVED:
                    self.need(s.r[r] == before[r], loc, f, "changes the caller's register %s" % r, "make keeps callee-saved registers")
                for k in csr:
                    self.need(s.csr[k] == csr[k], loc, f, "changes the caller's floating-point control word (%s)" % k, "make keeps the control words")
                self.writes(s, f, self.fields("N", ["stack_ptr"]) + [("stackN", top - 256, top), ("stackC", -128, 0)],
                            "make writes only the new stack and the fiber's stack pointer")
                clobber(s, "P")
                s.mem[("stackP", 0)] = (8, ("v", "return into P"))
                for s1, tgt1, loc1 in self.switch(s, "P", "N", "e%d" % top, ("p", "stackP", 0)):
                    self.entered(s1, tgt1, loc1, csr, top)

    def entered(self, s, tgt, loc, csr, top):
        f = "fiber_make"
        outs = [(s, tgt, loc, "jump")]
        if tgt[0] == "c":
            try:
                outs = Run(self.code).go(s, tgt[1])
            except Bad as b:
                self.need(False, b.loc, f, b.msg, "every access is to a fiber or its stack")
                return
        for s2, t2, l2, how in outs:
            if how == "call" and t2 == ("v", "entry"):
                s2.r["rsp"] = Run.plus(s2.r["rsp"], -8)
                s2.mem[(s2.r["rsp"][1], s2.r["rsp"][2])] = (8, ("c", self.code.ins[[a for a, i in self.code.ins.items() if i["loc"] == l2][0]]["next"]))
            self.need(t2 == ("v", "entry") and how in ("jump", "call"), l2, f, "the new fiber does not start in its entry function", "enters the entry function")
            self.need(s2.r["rdi"] == ("v", "sched"), l2, f, "the entry function's first argument is not the scheduler", "entry gets the scheduler")
            self.need(s2.r["rsi"] == ("p", "N", 0), l2, f, "the entry function's second argument is not the fiber", "entry gets the fiber")
            sp = s2.r["rsp"]
            self.need(sp[0] == "p" and sp[1] == "stackN" and sp[2] <= top - 8, l2, f, "the entry function does not run inside the fiber's own stack", "entry runs on the fiber's stack")
            self.need(sp[0] == "p" and sp[2] % 16 == 8, l2, f, "the stack is not aligned as a function may expect it", "entry stack aligned")
            for k in csr:
                self.need(s2.csr[k] == csr[k], l2, f, "the new fiber's floating-point control word (%s) is not its creator's" % k, "entry control words")
            if sp[0] != "p":
                continue
            ret = s2.mem.get((sp[1], sp[2]), (0, ("v", "?")))
            if ret[0] != 8 or ret[1][0] != "c" or ret[1][1] not in self.code.ins:
                self.need(False, l2, f, "the entry function has no place to return to", "entry returns into finish")
                continue
            s3 = s2.copy()
            clobber(s3, "fin", keep=SAVED)
            s3.r["rsp"] = ("p", sp[1], sp[2] + 8)
            try:
                ends = Run(self.code).go(s3, ret[1][1])
            except Bad as b:
                self.need(False, b.loc, f, b.msg, "every access is to a fiber or its stack")
                continue
            for s4, t4, l4, how4 in ends:
                self.need(t4[0] == "f" and t4[1] in ("_exit", "exit", "abort", "_Exit"), l4, f, "a returning entry function does not end the process", "a returning entry function ends the process")
                if t4[0] == "f" and t4[1] != "abort":
                    v = s4.r["rdi"]
                    self.need(v[0] == "n" and v[1] & 0xff, l4, f, "a returning entry function ends the process with success or an undefined code", "with a failure code")
                    al = 0 if how4 == "call" else 8
                    self.need(s4.r["rsp"][0] == "p" and s4.r["rsp"][2] % 16 == al, l4, f, "the process is ended with a misaligned stack", "aligned stack")
            self.n += 1


@check("F04")
def f04(ctx):
    c = Checker(ctx)
    c.round_trip()
    c.first_entry()
    if not c.n and not ctx.findings:
        raise AnalysisBroken("no complete path through the context switch was followed")
    for f in c.code.files:
        ctx.sample("interpreted %s" % f)
    ctx.steps += c.code.count
    for l in ("fiber_switch", "fiber_make"):
        ctx.functions.add(l)
        ctx.entries.add(l)
    ctx.exits += c.n
    ctx.notes.append("%d instructions of %s assembled and interpreted; every stack top alignment 0..15" % (c.code.count, ", ".join(c.code.files)))
