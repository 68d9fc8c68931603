"""The machine code of the context switch (C26): the assembly is assembled from the current source for each way it can be configured,
disassembled, and every instruction path is interpreted over symbolic registers and memory.

A value is (base, offset): base 'R.rdi' is what the register held at the entry, 'ld' terms are what was found in memory, 'al' terms are
addresses rounded down.  Memory maps (base, offset) to (size, value)."""
import os, re, shutil, subprocess, tempfile
import facts
from facts import Broken

R64 = ['rax', 'rbx', 'rcx', 'rdx', 'rsi', 'rdi', 'rbp', 'rsp'] + ['r%d' % i for i in range(8, 16)]
R32 = {'e' + r[1:]: r for r in R64[:8]}
R32.update({'r%dd' % i: 'r%d' % i for i in range(8, 16)})
R16 = {r[1:]: r for r in R64[:8]}
R16.update({'r%dw' % i: 'r%d' % i for i in range(8, 16)})
R8 = {'al': 'rax', 'bl': 'rbx', 'cl': 'rcx', 'dl': 'rdx', 'sil': 'rsi', 'dil': 'rdi', 'bpl': 'rbp', 'spl': 'rsp'}
R8.update({'r%db' % i: 'r%d' % i for i in range(8, 16)})
KEEP = ('rbx', 'rbp', 'r12', 'r13', 'r14', 'r15')
RED = 128
NUM = 'const'
STEPS = 4000


def const(n):
    n &= (1 << 64) - 1
    return (NUM, n - (1 << 64) if n >> 63 else n)


def add(v, n):
    return const(v[1] + n) if v[0] == NUM else (v[0], v[1] + n)


class St:
    def __init__(self, regs, mem=None, ctl=None):
        self.regs, self.mem, self.ctl = dict(regs), dict(mem or {}), dict(ctl or {})
        self.stores = []          # (base, offset, size, rsp at the time, location)

    def copy(self):
        s = St(self.regs, self.mem, self.ctl)
        s.stores = list(self.stores)
        return s


class Obj:
    def __init__(self, path, defs, cc=('gcc',)):
        self.path = path
        d = tempfile.mkdtemp(prefix='verif-asm')
        try:
            o = d + '/x.o'
            r = subprocess.run(list(cc) + ['-c', '-g', '-x', 'assembler-with-cpp', '-I' + facts.REPO + '/include'] + ['-D' + x for x in defs] + [path, '-o', o],
                               capture_output=True, text=True)
            if r.returncode:
                raise Broken('cannot assemble %s: %s' % (path, r.stderr[-500:]))
            t = subprocess.run(['objdump', '-drl', '--no-show-raw-insn', '-w', o], capture_output=True, text=True).stdout
            n = subprocess.run(['nm', o], capture_output=True, text=True).stdout
        finally:
            shutil.rmtree(d, ignore_errors=True)
        self.glob = {}
        for l in n.splitlines():
            a = l.split()
            if len(a) == 3 and a[1] in 'TtWw':
                self.glob[a[2]] = int(a[0], 16)
        self.ins = {}
        order = []
        rel = facts.REPO.rstrip('/') + '/'
        line = 0
        last = None
        for l in t.splitlines():
            m = re.match(r'^\s*([0-9a-f]+):\s+(R_\S+)\s+(\S+)', l)
            if m and last is not None:
                self.ins[last]['rel'] = re.sub(r'[-+]0x[0-9a-f]+$', '', m.group(3))
                continue
            m = re.match(r'^\s+([0-9a-f]+):\s+(.*)$', l)
            if m:
                a = int(m.group(1), 16)
                txt = m.group(2)
                rm = re.search(r'\s+[0-9a-f]+: (R_\S+)\s+(\S+)', txt)
                self.ins[a] = dict(t=re.sub(r'\s+[0-9a-f]+: R_\S+.*$', '', txt).strip(), loc='%s:%d' % (path.replace(rel, ''), line))
                if rm:
                    self.ins[a]['rel'] = re.sub(r'[-+]0x[0-9a-f]+$', '', rm.group(2))
                order.append(a)
                last = a
                continue
            m = re.match(r'^(\S+\.[sS]):(\d+)', l)
            if m:
                line = int(m.group(2))
        for a, b in zip(order, order[1:] + [None]):
            self.ins[a]['next'] = b


def split_ops(s):
    out, cur, dep = [], '', 0
    for c in s:
        if c == ',' and dep == 0:
            out.append(cur.strip())
            cur = ''
            continue
        dep += (c == '(') - (c == ')')
        cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


class Machine:
    """interprets from an address to every place where control leaves the file"""

    def __init__(self, obj, arch_regs=None):
        self.obj = obj
        self.n = 0
        self.fresh_n = 0

    def fresh(self, why):
        self.fresh_n += 1
        return (('?', why, self.fresh_n), 0)

    def reg(self, s):
        """(64 bit register, width)"""
        s = s.lstrip('%')
        if s in R64:
            return s, 8
        for t, w in ((R32, 4), (R16, 2), (R8, 1)):
            if s in t:
                return t[s], w
        return None, 0

    def ea(self, st, op, ins):
        m = re.match(r'^(%\w+:)?(-?0x[0-9a-f]+|-?\d+)?(?:\(([^)]*)\))?$', op)
        if not m:
            return self.fresh('address')
        seg, disp, inner = m.groups()
        d = int(disp, 16 if disp and 'x' in disp else 10) if disp else 0
        if seg and seg not in ('%ss:', '%ds:'):
            return (('seg', seg.strip('%:')), d)
        if inner is None:
            return const(d)
        p = [x.strip() for x in inner.split(',')]
        if p[0] == '%rip':
            cm = re.search(r'#\s+([0-9a-f]+)', ins['t'])
            if ins.get('rel'):
                return (('sym', ins['rel']), 0)
            return (('code',), int(cm.group(1), 16)) if cm else self.fresh('address')
        v = const(0)
        if p[0]:
            v = st.regs[self.reg(p[0])[0]]
        if len(p) > 1 and p[1]:
            i = st.regs[self.reg(p[1])[0]]
            sc = int(p[2]) if len(p) > 2 else 1
            if i[0] == NUM:
                v = add(v, i[1] * sc)
            elif v == const(0) and sc == 1:
                v = i
            else:
                return self.fresh('address')
        return add(v, d)

    def read(self, st, a, size):
        if a[0] == ('seg', 'fs') and a[1] == 0x28:
            return st.ctl['guard']
        m = st.mem.get(a)
        if m and m[0] == size:
            return m[1]
        for (b, o), (s, _) in st.mem.items():
            if b == a[0] and o < a[1] + size and a[1] < o + s:
                return self.fresh('partly overwritten')
        return (('ld', a[0], a[1], size), 0)

    def write(self, st, a, size, v, ins):
        if a[0] == ('seg', 'fs') and a[1] == 0x28:
            st.ctl['guard'] = v
            return
        for k in [k for k, (s, _) in st.mem.items() if k[0] == a[0] and k[1] < a[1] + size and a[1] < k[1] + s]:
            del st.mem[k]
        st.mem[a] = (size, v)
        st.stores.append((a[0], a[1], size, st.regs['rsp'], ins['loc']))

    def get(self, st, op, ins, size=8):
        if op.startswith('$'):
            return const(int(op[1:], 16 if 'x' in op else 10))
        if op.startswith('%') and ':' not in op:
            r, w = self.reg(op)
            if r is None:
                return self.fresh('register ' + op)
            v = st.regs[r]
            if w == 8:
                return v
            if v[0] == NUM:
                return const(v[1] & ((1 << 8 * w) - 1))
            return (('part', v, w), 0)
        return self.read(st, self.ea(st, op, ins), size)

    def put(self, st, op, v, ins, size=8):
        if op.startswith('%') and ':' not in op:
            r, w = self.reg(op)
            if r is None:
                return
            if w == 4 and v[0] == NUM:
                v = const(v[1] & 0xffffffff)
            elif w < 8:
                v = self.fresh('narrow write')
            st.regs[r] = v
        else:
            self.write(st, self.ea(st, op, ins), size, v, ins)

    def width(self, mn, ops):
        for o in ops:
            if o.startswith('%') and ':' not in o:
                r, w = self.reg(o)
                if r:
                    return w
        return {'b': 1, 'w': 2, 'l': 4, 'q': 8}.get(mn[-1], 8)

    def run(self, pc, st):
        """yields (kind, value, state, location)"""
        todo = [(pc, st)]
        out = []
        while todo:
            pc, st = todo.pop()
            while True:
                self.n += 1
                if self.n > STEPS:
                    raise Broken('%s: no end of the code found' % self.obj.path)
                ins = self.obj.ins.get(pc)
                if ins is None:
                    out.append(('off', const(pc), st, self.obj.path))
                    break
                t = re.sub(r'\s+#.*$', '', ins['t'])
                t = re.sub(r'^(bnd|notrack|data16|rep|repz|cs)\s+', '', t)
                a = t.split(None, 1)
                mn, ops = a[0], split_ops(re.sub(r'\s*<[^>]*>', '', a[1])) if len(a) > 1 else []
                w = self.width(mn, ops)
                nx = ins['next']
                loc = ins['loc']
                if mn in ('jmp', 'jmpq'):
                    if ops[0].startswith('*'):
                        out.append(('jmp', self.get(st, ops[0][1:], ins), st, loc))
                        break
                    if ins.get('rel'):
                        out.append(('jmp', (('sym', ins['rel']), 0), st, loc))
                        break
                    pc = int(ops[0], 16)
                    continue
                if re.match(r'^(j\w+|loop\w*)$', mn):
                    todo.append((int(ops[0], 16), st.copy()))
                    pc = nx
                    continue
                if mn in ('ret', 'retq'):
                    v = self.read(st, st.regs['rsp'], 8)
                    st.regs['rsp'] = add(st.regs['rsp'], 8)
                    out.append(('ret', v, st, loc))
                    break
                if mn in ('call', 'callq'):
                    tgt = (('sym', ins['rel']), 0) if ins.get('rel') else self.get(st, ops[0][1:], ins) if ops[0].startswith('*') else (('code',), int(ops[0], 16))
                    if tgt[0] == ('code',):
                        st.regs['rsp'] = add(st.regs['rsp'], -8)
                        self.write(st, st.regs['rsp'], 8, (('code',), nx), ins)
                        pc = tgt[1]
                        continue
                    out.append(('call', tgt, st, loc))
                    break
                if mn in ('hlt', 'ud2', 'int3'):
                    out.append(('stop', const(0), st, loc))
                    break
                self.step(st, mn, ops, w, ins)
                pc = nx
        return out

    def step(self, st, mn, ops, w, ins):
        b = re.sub(r'[bwlq]$', '', mn) if mn not in ('shl', 'sal', 'mul', 'sub', 'rol') else mn
        if mn.startswith(('endbr', 'nop')) or b in ('nop', 'cmp', 'test', 'prefetch', 'mfence', 'lfence', 'sfence', 'fwait', 'cld') or mn in ('fwait', 'cmp', 'test'):
            return
        if b in ('mov', 'movabs', 'movabsq'):
            return self.put(st, ops[1], self.get(st, ops[0], ins, w), ins, w)
        if b == 'lea':
            return self.put(st, ops[1], self.ea(st, ops[0], ins), ins)
        if b == 'push':
            v = self.get(st, ops[0], ins)
            st.regs['rsp'] = add(st.regs['rsp'], -8)
            return self.write(st, st.regs['rsp'], 8, v, ins)
        if b == 'pop':
            v = self.read(st, st.regs['rsp'], 8)
            st.regs['rsp'] = add(st.regs['rsp'], 8)
            return self.put(st, ops[0], v, ins)
        if b == 'xchg':
            x, y = self.get(st, ops[0], ins, w), self.get(st, ops[1], ins, w)
            self.put(st, ops[0], y, ins, w)
            return self.put(st, ops[1], x, ins, w)
        if b in ('add', 'sub'):
            x, y = self.get(st, ops[0], ins, w), self.get(st, ops[1], ins, w)
            if b == 'sub':
                v = add(y, -x[1]) if x[0] == NUM else const(y[1] - x[1]) if x[0] == y[0] else self.fresh(b)
            else:
                v = add(y, x[1]) if x[0] == NUM else add(x, y[1]) if y[0] == NUM else self.fresh(b)
            return self.put(st, ops[1], v, ins, w)
        if b in ('inc', 'dec'):
            return self.put(st, ops[0], add(self.get(st, ops[0], ins, w), 1 if b == 'inc' else -1), ins, w)
        if b == 'and':
            x, y = self.get(st, ops[0], ins, w), self.get(st, ops[1], ins, w)
            if x[0] == NUM and y[0] == NUM:
                v = const(x[1] & y[1])
            elif x[0] == NUM and x[1] < 0 and (-x[1] & (-x[1] - 1)) == 0:
                k = -x[1]
                v = y
                if not (isinstance(y[0], tuple) and y[0][0] == 'al' and y[0][3] % k == 0 and y[1] % k == 0):
                    v = (('al', y[0], y[1], k), 0)
            else:
                v = self.fresh(b)
            return self.put(st, ops[1], v, ins, w)
        if b == 'xor':
            v = const(0) if ops[0] == ops[1] else self.fresh(b)
            if w == 4:
                w = 8
                r = self.reg(ops[1])[0]
                if r and v == const(0):
                    st.regs[r] = v
                    return
            return self.put(st, ops[1], v, ins, w)
        if mn in ('stmxcsr', 'vstmxcsr'):
            return self.write(st, self.ea(st, ops[0], ins), 4, st.ctl['mxcsr'], ins)
        if mn in ('ldmxcsr', 'vldmxcsr'):
            st.ctl['mxcsr'] = self.read(st, self.ea(st, ops[0], ins), 4)
            return
        if mn in ('fnstcw', 'fstcw'):
            return self.write(st, self.ea(st, ops[0], ins), 2, st.ctl['x87'], ins)
        if mn == 'fldcw':
            st.ctl['x87'] = self.read(st, self.ea(st, ops[0], ins), 2)
            return
        # anything else: what it writes is unknown
        if ops and mn not in ('cmp', 'test'):
            self.put(st, ops[-1], self.fresh(mn), ins, w)


def start(extra=None):
    regs = {r: (('R', r), 0) for r in R64}
    return St(regs, {}, dict(mxcsr=(('R', 'mxcsr'), 0), x87=(('R', 'x87'), 0), guard=(('R', 'guard'), 0)))


def show(v):
    if v[0] == NUM:
        return hex(v[1])
    b = v[0]
    n = ('entry value of ' + b[1] if b[0] == 'R' else 'the word at %s%+d' % (show((b[1], 0)), b[2]) if b[0] == 'ld' else
         'code' if b[0] == 'code' else b[1] if b[0] == 'sym' else 'rounded ' + show((b[1], b[2])) if b[0] == 'al' else 'something else')
    return n + ('%+d' % v[1] if v[1] else '')


def top_of(v):
    """(base, largest offset) of an address that was rounded down"""
    o = v[1]
    b = v[0]
    while isinstance(b, tuple) and b[0] == 'al':
        o += b[2]
        b = b[1]
    return b, o


VARIANTS = [('as built', ['LIBCOPP_FCONTEXT_USE_TSX=1']), ('floating point state kept', []),
            ('stack guard kept', ['LIBCOPP_FCONTEXT_TLS_STACK_PROTECTOR=1']),
            ('stack guard kept, no floating point state', ['LIBCOPP_FCONTEXT_TLS_STACK_PROTECTOR=1', 'LIBCOPP_FCONTEXT_USE_TSX=1'])]


class Switch:
    """what jump or ontop does: where each register is kept"""

    def __init__(self, R, obj, name, var, ontop):
        self.R, self.obj, self.var, self.ontop, self.name = R, obj, var, ontop, name
        self.slots = {}
        self.k = None
        self.exits = []

    def ob(self, rule, what, ok, loc, msg):
        self.R.ob(rule, '%s (%s): %s' % (self.name, self.var[0], what), ok, loc, msg + ' (%s)' % self.var[0], fn=self.name)
        return ok

    def check(self):
        R, obj = self.R, self.obj
        m = Machine(obj)
        pc = obj.glob[self.name]
        outs = m.run(pc, start())
        R.count('instructions interpreted', m.n)
        tsx = any('USE_TSX' in d for d in self.var[1])
        tls = any('TLS_STACK' in d for d in self.var[1])
        for kind, tgt, st, loc in outs:
            R.paths += 1
            S, D = ('R', 'rsp'), ('R', 'rdi')
            P = st.regs['rax']
            ok = self.ob('C26.hand', 'the context that was left is handed over', P[0] == S and P[1] <= 0 and st.regs['rdi'] == P, loc,
                         'the context that was left is not handed over: result %s, argument %s' % (show(P), show(st.regs['rdi'])))
            self.ob('C26.hand', 'the data pointer is handed over', st.regs['rdx'] == (('R', 'rsi'), 0) and st.regs['rsi'] == (('R', 'rsi'), 0), loc,
                    'the data pointer is not handed over: result %s, argument %s' % (show(st.regs['rdx']), show(st.regs['rsi'])))
            if not ok:
                continue
            k = -P[1]
            slots = {}

            def kept(r, val, size, cur):
                """val: what r holds when control is left, cur: its entry value"""
                b = val[0]
                if not (isinstance(b, tuple) and b[0] == 'ld' and b[1] == D and b[3] == size and val[1] == 0):
                    return None, 'is not loaded from the context that is entered but is %s' % show(val)
                sv = st.mem.get((S, -k + b[2]))
                if sv != (size, cur):
                    return None, 'is loaded from offset %d, where the other side %s' % (b[2], 'keeps nothing' if sv is None else 'keeps ' + show(sv[1]))
                return b[2], ''
            for r in KEEP:
                o, why = kept(r, st.regs[r], 8, (('R', r), 0))
                self.ob('C26.keep', r + ' survives', o is not None, loc, 'register %s does not survive a switch: it %s' % (r, why))
                if o is not None:
                    slots[r] = o
            for r, size, need in (('mxcsr', 4, not tsx), ('x87', 2, not tsx), ('guard', 8, tls)):
                v = st.ctl[r]
                if v == (('R', r), 0):
                    self.ob('C26.keep', r + ' survives', not need, loc, 'the %s is not restored by a switch' % r)
                    continue
                o, why = kept(r, v, size, (('R', r), 0))
                self.ob('C26.keep', r + ' survives', o is not None, loc, 'the %s does not survive a switch: it %s' % (r, why))
                if o is not None:
                    slots[r] = o
            # where it goes on: at the return address of the call that left, with the stack as after the return
            sp = st.regs['rsp']
            if self.ontop:
                self.ob('C26.target', 'the function runs on top', kind == 'jmp' and tgt == (('R', 'rdx'), 0), loc, 'control goes to %s and not to the function' % show(tgt))
                self.ob('C26.target', 'the function returns to where the context was left', sp == (D, k), loc,
                        'the function is entered with the stack at %s: it does not return to where the context was left' % show(sp))
            else:
                self.ob('C26.target', 'goes on where the context was left', kind in ('jmp', 'ret') and tgt == (('ld', D, k, 8), 0), loc,
                        'control goes to %s and not to where the context was left' % show(tgt))
                self.ob('C26.target', 'the stack is as it was when the context was left', sp == (D, k + 8), loc,
                        'the stack pointer becomes %s; it has to be %s' % (show(sp), show((D, k + 8))))
            self.ob('C26.target', 'the place to go on is kept', (S, 0) not in st.mem, loc, 'the return address of the side that is left is overwritten')
            for b, o, size, rsp, l in st.stores:
                if b == D and 0 <= o and sp[0] == D and o + size <= sp[1]:
                    continue          # what the entered side no longer needs
                self.ob('C26.room', 'store', b == S and o + size <= 0 and rsp[0] == S and o >= min(rsp[1], -k) - RED and (o + size <= -k or rsp[1] <= o + RED), l,
                        'the switch writes to memory that is not its own: %s' % show((b, o)))
            # what is kept must not lie below the stack pointer that is handed over
            for r, o in slots.items():
                self.ob('C26.room', 'place of ' + r, 0 <= o < k, loc, 'the %s is kept outside of the context' % r)
            if self.k is None:
                self.k, self.slots = k, slots
            elif (k, slots) != (self.k, self.slots):
                self.ob('C26.layout', 'one layout', False, loc, 'two paths keep the context in different places')
            self.exits.append((tgt, st, loc))


def subst_ctx(v, mem, base, off):
    """a value of the entered side in terms of the new context at (base, off)"""
    b = v[0]
    if isinstance(b, tuple) and b[0] == 'ld' and b[1] == ('R', 'rdi'):
        m = mem.get((base, off + b[2]))
        if m and m[0] == b[3]:
            return add(m[1], v[1])
        return (('?', 'never stored', b[2]), 0)
    if b == ('R', 'rdi'):
        return (base, off + v[1])
    if isinstance(b, tuple) and b[0] == 'R' and b[1] == 'rsp':
        return (('left',), v[1])
    if isinstance(b, tuple) and b[0] == 'R' and b[1] == 'rsi':
        return (('data',), v[1])
    return v


def check_make(R, obj, name, var, sw):
    def ob(rule, what, ok, loc, msg):
        R.ob(rule, '%s (%s): %s' % (name, var[0], what), ok, loc, msg + ' (%s)' % var[0], fn=name)
        return ok
    tsx = any('USE_TSX' in d for d in var[1])
    m = Machine(obj)
    for kind, tgt, st, loc in m.run(obj.glob[name], start()):
        R.paths += 1
        S, D = ('R', 'rsp'), ('R', 'rdi')
        ob('C26.make', 'returns', kind == 'ret' and tgt == (('ld', S, 0, 8), 0) and st.regs['rsp'] == (S, 8), loc, 'making a context does not return to its caller')
        for r in KEEP:
            ob('C26.make', 'keeps ' + r, st.regs[r] == (('R', r), 0), loc, 'making a context changes register %s of its caller' % r)
        for r in ('mxcsr', 'x87', 'guard'):
            ob('C26.make', 'keeps ' + r, st.ctl[r] == (('R', r), 0), loc, 'making a context changes the %s of its caller' % r)
        P = st.regs['rax']
        b, o = top_of(P)
        if not ob('C26.make', 'the context lies on the new stack', b == D and o <= 0, loc, 'the context that is made does not lie on the new stack: ' + show(P)):
            continue
        for sb, so, size, rsp, l in st.stores:
            if sb == S:
                own = so + size <= 0 and so >= rsp[1] - RED
                ob('C26.make', 'store', own, l, 'making a context writes to the stack of its caller')
                continue
            tb, to = top_of((sb, so))
            ob('C26.make', 'store', tb == D and to + size <= 0 and sb == P[0] and so >= P[1] - 4096, l, 'making a context writes outside of the new stack: ' + show((sb, so)))
        if sw.k is None or not sw.exits:
            continue
        for r, size in (('mxcsr', 4), ('x87', 2), ('guard', 8)):
            if r in sw.slots:
                ob('C26.make', r + ' of a new context', st.mem.get((P[0], P[1] + sw.slots[r])) == (size, (('R', r), 0)), loc,
                   'a new context does not begin with the %s of the thread that made it' % r)
        # enter it
        for tgt2, jst, jloc in sw.exits:
            e = St({r: subst_ctx(v, st.mem, P[0], P[1]) for r, v in jst.regs.items()}, st.mem, st.ctl)
            at = subst_ctx(tgt2, st.mem, P[0], P[1])
            n = 0
            fx = e.regs['rdi']
            work = [(at, e, loc)]
            while work and n < 20:
                n += 1
                at, e, l = work.pop()
                if at == (('R', 'rdx'), 0):
                    ob('C26.enter', 'the function gets the context that was left', e.regs['rdi'] == fx and fx[0] == ('left',) and e.regs['rsi'] == (('data',), 0), l,
                       'the function of a new context does not get the context that was left and the data pointer: %s, %s' % (show(e.regs['rdi']), show(e.regs['rsi'])))
                    sp = e.regs['rsp']
                    tb, to = top_of(sp)
                    al = sp[0][3] if isinstance(sp[0], tuple) and sp[0][0] == 'al' else 1
                    ob('C26.enter', 'the function starts on an aligned stack', al % 16 == 0 and (sp[1] + 8) % 16 == 0, l,
                       'the stack is not aligned for the function of a new context: ' + show(sp))
                    ob('C26.enter', 'the function starts inside of its stack', tb == D and to + 8 <= 0, l, 'the function of a new context starts outside of its stack: ' + show(sp))
                    ra = e.mem.get(sp)
                    if ob('C26.enter', 'the function has a place to return to', bool(ra) and ra[0] == 8 and ra[1][0] == ('code',), l,
                          'the function of a new context returns to a place that was never set'):
                        e2 = e.copy()
                        for r in list(e2.regs):
                            if r not in ('rsp',) + KEEP:
                                e2.regs[r] = (('?', 'after the function', r), 0)
                        e2.regs['rsp'] = add(sp, 8)
                        for k2, t2, s2, l2 in Machine(obj).run(ra[1][1], e2):
                            good = k2 == 'stop' or (k2 in ('call', 'jmp') and isinstance(t2[0], tuple) and t2[0][0] == 'sym' and re.search(r'exit|abort|terminate', t2[0][1]))
                            ob('C26.enter', 'after the function the program ends', bool(good), l2, 'after the function of a context returned, control goes on at %s' % show(t2))
                            if k2 == 'call' and good:
                                q = s2.regs['rsp']
                                ob('C26.enter', 'the stack is aligned when the program ends', q[1] % 16 == 0, l2, 'the stack is not aligned when the program ends')
                                ob('C26.enter', 'the program ends with code zero', s2.regs['rdi'] == const(0) or 'exit' not in t2[0][1], l2, 'the program does not end with code zero after the function returned')
                    continue
                if not ob('C26.enter', 'a new context begins in known code', at[0] == ('code',), l, 'a new context begins at %s' % show(at)):
                    continue
                for k2, t2, s2, l2 in Machine(obj).run(at[1], e):
                    if not ob('C26.enter', 'a new context enters its function', k2 in ('jmp', 'ret'), l2, 'a new context does not enter its function'):
                        continue
                    work.append((t2, s2, l2))
    R.count('instructions interpreted', m.n)


def c26(R):
    R.rule('C26.keep', 'every register that the calling convention preserves (and the floating point control state and the stack guard, where configured) is stored '
           'before the stack is left and loaded from the same place of the context that is entered')
    R.rule('C26.target', 'control goes on at the return address of the call that left, with the stack pointer as after its return; the function of ontop returns to there')
    R.rule('C26.hand', 'the context that was left and the data pointer are both the result of the switch and the argument of a function that starts')
    R.rule('C26.room', 'a switch writes only below the stack pointer of the side it leaves, and what it keeps lies inside of the context it hands over')
    R.rule('C26.layout', 'jump, ontop and make agree where each register is kept')
    R.rule('C26.make', 'make writes only on the new stack, below its top, keeps the registers of its caller, and returns a context on it')
    R.rule('C26.enter', 'entering a new context calls its function on an aligned stack inside of the given one, with the context left and the data; when it returns the program ends')
    R.assume('The machine code for x86-64 System V (ELF), the platform that is built here, is decided; other platforms have files of their own.')
    R.assume('The semantics of the instructions used are those of the x86-64 manual; shadow stacks are not configured.')
    p = R.load()
    tr = [v for c, v in p.recs.items() if c.endswith('fcontext::transfer_t')]
    R.need('declaration of what is handed over', len(tr), 1)
    fl = [f['n'] if isinstance(f, dict) else f[0] for f in tr[0]['fields']]
    R.ob('C26.hand', 'the parts of transfer_t are in the order of the registers', fl == ['fctx', 'data'], 'include/libcopp/fcontext/fcontext.hpp:26',
         'the parts of the result lie in the order %s, the machine code hands over the context first' % ', '.join(fl))
    d = facts.REPO + '/src/libcopp/fcontext/asm/'
    names = {}
    for k in ('jump', 'make', 'ontop'):
        f = d + k + '_x86_64_sysv_elf_gas.S'
        if not os.path.exists(f):
            raise Broken('no ' + f)
        names[k] = f
    for var in VARIANTS:
        o = {k: Obj(f, var[1]) for k, f in names.items()}
        sym = {}
        for k in o:
            s = [n for n in o[k].glob if re.fullmatch(r'copp_%s_fcontext(_v\d+)?' % k, n)]
            if not s:
                raise Broken('%s: no function for %s' % (names[k], k))
            sym[k] = s[0]
            R.fns[s[0] + ' (%s)' % var[0]] = 1
        j = Switch(R, o['jump'], sym['jump'], var, False)
        j.check()
        t = Switch(R, o['ontop'], sym['ontop'], var, True)
        t.check()
        if j.k is not None and t.k is not None:
            diff = sorted(r for r in set(j.slots) | set(t.slots) if j.slots.get(r) != t.slots.get(r))
            R.ob('C26.layout', 'jump and ontop (%s)' % var[0], j.k == t.k and not [r for r in diff if r in j.slots and r in t.slots], o['ontop'].path.replace(facts.REPO.rstrip('/') + '/', '') + ':1',
                 'jump and ontop keep a context in different places: %s' % (', '.join(diff) or 'size'), fn=sym['ontop'])
        check_make(R, o['make'], sym['make'], var, j)
        R.count('configurations')
    R.need('instructions of the context switch', R.counts.get('instructions interpreted', 0), 60)
    R.need('configurations decided', R.counts.get('configurations', 0), 4)


PROPS = {'C26': c26}
