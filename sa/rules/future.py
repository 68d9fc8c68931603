"""Generators, some/any/all, the future storage (C23..C25)."""
from rules.promise import *
from rules.promise import fieldtypes, delegate, names_in, truthbit
import re

MGRQ = re.compile(MGR + r'::(add_caller|remove_caller|resume_callers)$')


def only(p, cls, test, what):
    ns = [n for n, t in fieldtypes(p, cls) if test(t)]
    if len(ns) != 1:
        raise Broken('%s of %s: %s' % (what, cls, ns))
    return ns[0]


class Store:
    """where a future::future keeps its value, found by types"""
    def __init__(self, p):
        self.p = p

    def box(self, lv, fut):
        """lvalue of the pointer that says whether the future at lv has a value"""
        poll = only(self.p, fut, lambda t: 'poller<' in t, 'poller')
        pc = [t for n, t in fieldtypes(self.p, fut) if 'poller<' in t][0]
        return self.pbox(('f', lv, poll), pc)

    def pbox(self, lv, poller):
        n, t = [(n, t) for n, t in fieldtypes(self.p, poller) if 'unique_ptr<' in t or 'shared_ptr<' in t][0]
        lv = ('f', lv, n)
        return ('f', lv, 'second') if t.startswith('std::pair') else lv


def used(ev):
    """lvalues an event looks at"""
    r = [ev.d.get('lv'), ev.d.get('obj')]
    return [x for x in r if x is not None]


def callback(ev):
    return ev.k == 'user' and 'function' in ev.q and ev.q.endswith('operator()')


# ---------------------------------------------------------------- C23 generators
class GenValue(Prom):
    """set_value and destructors of the context of a generator"""
    def __init__(self, p, dtor, void):
        super().__init__(p, 'C23')
        self.dtor, self.void = dtor, void
        self.data = dict(wake=0, err=0)

    def init(self, eng, st, fr):
        cls = eng.top.cls
        self.fld, fut = [(n, t) for n, t in fieldtypes(self.p, cls) if 'future::future<' in t][0]
        self.mgr = [n for n, t in fieldtypes(self.p, cls) if t.endswith('promise_caller_manager')][0]
        self.box = Store(self.p).box(('f', THIS, self.fld), fut)
        self.was = eng.load(st, self.box)
        return ()

    def stored(self, eng, st):
        """the value that was stored"""
        b = eng.load(st, self.box)
        if b == self.was:
            return None
        if b[0] == 'a':
            return eng.load(st, b[1])
        return self.get(st, 'made')

    def event(self, eng, ev, st):
        self.track(eng, ev, st)
        if ev.k == 'ctor' and ev.lv and ev.lv[0] == 'd' and ev.lv[1][0] == 'call' and ev.args:
            a = ev.args[0]
            self.set(st, 'made', ('ld', a, 0) if a == ('d', ('p', 0, eng.top.params[0]['n'] if eng.top.params else '')) else ('new',))
            fn = ev.d.get('fn') or {}
        if ev.k == 'load' and ev.val[0] == 'c' and ev.lv[0] == 'v' and ev.lv[-1] == 'in':
            self.set(st, 'status', ev.val[1])
        if ev.k == 'branch':
            t = st.truth(self.was)
            if t is not None:
                self.set(st, 'had', t)
        if ev.k == 'call' and MGRQ.match(ev.q) and ev.q.endswith('resume_callers') and ev.obj == ('f', THIS, self.mgr):
            self.data['wake'] += 1
            r = st.truth(eng.load(st, self.box))
            if r is None and eng.load(st, self.box) == self.was:
                r = self.get(st, 'had')
            if r is not True and not (self.dtor and self.void):
                self.bad(eng, 'C23.value', 'the coroutines that wait for a generator are resumed before it has a value', ev, st)
            self.add(st, 'woken')
        elif (ev.k == 'boxdrop' and ev.lv == self.box or ev.k == 'store' and ev.lv and contains(ev.lv, self.box[1])) and root(ev.lv) == THIS:
            self.rm(st, 'woken')
            if self.dtor and self.get(st, 'had') is not False and not self.has(st, 'inbase'):
                self.bad(eng, 'C23.value', 'a generator that is destroyed loses the value it has', ev, st)
        if ev.k == 'dtor' and ev.lv and contains(ev.lv, THIS):
            self.add(st, 'inbase')

    def exit(self, eng, fr, st, kind, val):
        if kind != 'ret':
            return
        if not self.has(st, 'woken'):
            self.bad(eng, 'C23.wake', 'coroutines that wait for a generator are not resumed though it %s' % ('ends' if self.dtor else 'got a value'), eng.top.loc(), st)
        if not self.dtor and not self.void:
            v = self.stored(eng, st)
            want = ('ld', ('d', ('p', 0, eng.top.params[0]['n'])), 0)
            if v != want:
                self.bad(eng, 'C23.value', 'the value of a generator is not the one that was set', eng.top.loc(), st)


class GenEnd(GenValue):
    """the destructor of a context with values: only the error value matters"""
    def event(self, eng, ev, st):
        super().event(eng, ev, st)
        if ev.k == 'store' and ev.lv and ev.lv[0] == 'f' and ev.lv[1] == self.box[1] and ev.lv != self.box or ev.k == 'new':
            self.data['err'] += 1
            if self.get(st, 'status') not in (KILLED,):
                self.bad(eng, 'C23.value', 'a generator that ends without a value does not tell that it was killed', ev, st)


class GenCall(Look22):
    """the callbacks of generators"""
    stop = (CALLERS,)

    def __init__(self, p, names, which, action):
        super().__init__(p, names, 'C23')
        self.which, self.action = which, action
        self.data = dict(called=0, not_called=0)

    def init(self, eng, st, fr):
        f = eng.top
        if self.action:
            self.kind = 'generator'
            g = ('d', ('p', 1, f.params[1]['n']))
            cls = f.params[1]['ty'].rstrip(' &')
            fl = dict((('ctx' if 'shared_ptr' in t else 'vt'), n) for n, t in fieldtypes(self.p, cls))
            self.ref = ('f', g, fl['ctx'])
            self.H = self.CP = self.hd = self.P = None
            self.home = g
            st.assume(eng.load(st, self.ref), True)
        else:
            super().init(eng, st, fr)
            cls = f.cls
            fl = {'vt': only(self.p, cls, lambda t: 'intrusive_ptr' in t, 'callbacks')}
            self.home = THIS
        self.X = eng.load(st, self.ref)
        self.vt = eng.load(st, ('f', ('f', self.home, fl['vt']), 'px'))
        vc = [t for n, t in fieldtypes(self.p, cls) if 'intrusive_ptr' in t][0]
        vc = re.search(r'intrusive_ptr<(.*)>$', vc).group(1).strip()
        self.fn = [n for n, t in fieldtypes(self.p, vc) if 'function<' in t and ('shared_ptr' in t) == (self.which == 'suspend')][0]
        self.flv = ('f', ('d', self.vt), self.fn)
        self.F = eng.load(st, self.flv)
        return ()

    def see(self, eng, st):
        for k, v in (('callee', self.X), ('vtable', self.vt), ('fn', self.F)) + ((('had', self.H),) if self.H is not None else ()):
            t = st.truth(v)
            if t is not None:
                self.set(st, k, t)

    def event(self, eng, ev, st):
        if ev.k == 'userend':
            return
        self.track(eng, ev, st)
        if ev.k in ('branch', 'store', 'call', 'called', 'return', 'ctor', 'user'):
            self.see(eng, st)
        if ev.k == 'call' and MGRQ.match(ev.q) and contains(ev.obj, self.X):
            self.add(st, ev.q.split('::')[-1])
        if ev.k in ('call', 'called') and ev.q.endswith(('intrusive_ptr_add_ref', 'intrusive_ptr_release')) and ev.args and ev.k == 'call':
            if contains(ev.args[0], self.vt) or ev.args[0] == self.vt:
                self.set(st, 'refs', (self.get(st, 'refs') or 0) + (1 if 'add_ref' in ev.q else -1))
        if (self.which == 'suspend' or self.action) and self.has(st, 'ran') and ev.k in ('access', 'load', 'store', 'call'):
            for lv in used(ev):
                if contains(lv, self.home) or contains(lv, self.X) and lv[0] != 't':
                    self.bad(eng, 'C23.alive', 'a generator or its awaitable is used after the callback that may have ended it', ev, st)
        if callback(ev):
            if ev.obj != self.flv and eng.load(st, ev.obj) != self.F:
                self.bad(eng, 'C23.callback', 'the wrong callback of a generator is called', ev, st)
                return
            self.data['called'] += 1
            if self.has(st, 'ran'):
                self.bad(eng, 'C23.callback', 'a callback of a generator is called twice', ev, st)
            self.add(st, 'ran')
            if self.get(st, 'vtable') is not True or self.get(st, 'fn') is not True:
                self.bad(eng, 'C23.callback', 'a callback of a generator is called that may not exist', ev, st)
            if self.get(st, 'callee') is False:
                self.bad(eng, 'C23.callback', 'a callback is called without a generator', ev, st)
            if (self.which == 'suspend' or self.action) and (self.get(st, 'refs') or 0) < 1 and ev.obj[0] not in ('v', 't'):
                self.bad(eng, 'C23.alive', 'the callback of a generator may be destroyed while it runs', ev, st)
            if self.which == 'suspend':
                if not self.has(st, 'add_caller'):
                    self.bad(eng, 'C23.callback', 'the callback of a generator is called before the coroutine that waits is known to it', ev, st)
            else:
                if not self.has(st, 'remove_caller'):
                    self.bad(eng, 'C23.callback', 'the callback of a generator is called while the coroutine is still waiting for it', ev, st)
                if not self.action and st.truth(eng.load(st, ('f', self.mine, 'handle'))) is not False:
                    self.bad(eng, 'C23.callback', 'the callback of a generator is called while the coroutine is still waiting for it', ev, st)

    def exit(self, eng, fr, st, kind, val):
        if kind != 'ret':
            return
        self.see(eng, st)
        ran = self.has(st, 'ran')
        if not ran:
            self.data['not_called'] += 1
        if self.action:
            due = True
        elif self.which == 'suspend':
            due = st.truth(val)
        else:
            due = self.get(st, 'had') is not False and self.get(st, 'callee') is not False
        if due and not ran and self.get(st, 'vtable') is not False and self.get(st, 'fn') is not False:
            self.bad(eng, 'C23.callback', 'a callback of a generator is not called', eng.top.loc(), st)
        if not due and ran:
            self.bad(eng, 'C23.callback', 'a callback of a generator is called though the coroutine was not suspended', eng.top.loc(), st)


class GenState(Prom):
    """what a generator says about itself"""
    def __init__(self, p):
        super().__init__(p, 'C23')
        self.data = dict(n=0)

    def init(self, eng, st, fr):
        f = eng.top
        sh = [(n, t) for n, t in fieldtypes(self.p, f.cls) if 'shared_ptr' in t]
        self.ctx, base, cls = None, THIS, f.cls
        if sh:
            self.ctx = eng.load(st, ('f', THIS, sh[0][0]))
            base = ('d', self.ctx)
            cls = re.search(r'shared_ptr<(.*)>$', sh[0][1]).group(1).strip()
        n, t = [(n, t) for n, t in fieldtypes(self.p, cls) if 'future::future<' in t][0]
        self.R = eng.load(st, Store(self.p).box(('f', base, n), t))
        return ()

    def exit(self, eng, fr, st, kind, val):
        f = eng.top
        if kind != 'ret':
            return
        self.data['n'] += 1
        have = [True, False] if self.ctx is None else [None, True, False]
        for h in have:
            s = st.copy()
            if self.ctx is not None and not s.assume(self.ctx, h is not None):
                continue
            if h is not None and not s.assume(self.R, h):
                continue
            if f.n == 'is_ready':
                want = ('c', int(h is True))
            elif f.n == 'is_pending':
                want = ('c', int(h is False))
            elif f.n == 'get_status':
                want = ('c', INVALID if h is None else DONE if h else RUNNING)
            else:
                t = s.truth(val)
                if t is not bool(h):
                    self.bad(eng, 'C23.state', 'a generator gives %s value' % ('no' if h else 'a'), eng.top.loc(), s)
                continue
            if s.cmp('==', val, want) is not True and not (want[1] in (0, 1) and f.n != 'get_status' and s.truth(val) == bool(want[1])):
                self.bad(eng, 'C23.state', '%s of a generator %s is wrong' % (f.n, 'without a context' if h is None else 'with a value' if h else 'without a value'), eng.top.loc(), s)


def c23(R):
    R.rule('C23.value', 'whoever is resumed by a generator finds the value that was set or, if the generator has ended without one, the error that it was killed')
    R.rule('C23.wake', 'setting a value and ending a generator resume every coroutine that waits, after the value is there')
    R.rule('C23.callback', 'the suspend callback runs exactly once per suspension after the coroutine is known, the resume callback exactly once after it is no longer waiting')
    R.rule('C23.alive', 'the callback that runs is kept alive, and nothing that it may have ended is used after it')
    R.rule('C23.state', 'is_ready, is_pending, get_status and data of a generator agree with whether it has a value')
    p = R.load()
    Names(p)
    names = dict(cur=[n for n, t in fieldtypes(p, 'cotask::task_context_base') if 'handle_delegate' in t][0],
                 data=[n for n, t in fieldtypes(p, 'copp::generator_context_base') if 'future::future<' in t][0])
    fs = [f for f in p.fns.values() if f.blocks]
    jobs, n = [], dict.fromkeys(('set', 'end', 'sus', 'res', 'state'), 0)

    def put(kind, rule, f, mk):
        n[kind] += 1
        R.ob(rule, f.q + ' ' + f.cls, True, f.loc())
        jobs.append((mk, f))
    for f in fs:
        c = f.cls or ''
        void = '<void' in c
        if re.match(r'copp::generator_context_(delegate|base)<', c):
            if f.n == 'set_value':
                put('set', 'C23.wake', f, lambda void=void: GenValue(p, False, void))
            elif f.fk == 'dtor' and 'delegate' in c:
                put('end', 'C23.wake', f, lambda void=void: (GenValue if void else GenEnd)(p, True, void))
            elif f.n in ('is_ready', 'is_pending', 'data'):
                put('state', 'C23.state', f, lambda: GenState(p))
        elif re.match(r'copp::generator_awaitable(_base)?<', c):
            if f.n == 'await_suspend':
                put('sus', 'C23.callback', f, lambda: GenCall(p, names, 'suspend', False))
            elif f.n == 'await_resume':
                put('res', 'C23.callback', f, lambda: GenCall(p, names, 'resume', False))
        elif re.match(r'copp::some_delegate_generator_action<', c) and f.n.startswith(('suspend', 'resume')) and len(f.params) == 2:
            w = 'suspend' if f.n.startswith('suspend') else 'resume'
            put('sus' if w == 'suspend' else 'res', 'C23.callback', f, lambda w=w: GenCall(p, names, w, True))
        elif re.match(r'copp::generator_future<', c) and f.n in ('is_ready', 'is_pending', 'get_status'):
            put('state', 'C23.state', f, lambda: GenState(p))
    R.need('functions that set values', n['set'], 3)
    R.need('destructors of contexts', n['end'], 3)
    R.need('functions that suspend', n['sus'], 4)
    R.need('functions that resume', n['res'], 4)
    R.need('questions about the state', n['state'], 12)
    ds = R.explore(jobs)
    R.need('resumptions', sum(d.get('wake', 0) for d in ds), 8)
    R.need('error values', sum(d.get('err', 0) for d in ds), 2)
    R.need('callbacks called', sum(d.get('called', 0) for d in ds), 8)
    R.need('paths without a callback', sum(d.get('not_called', 0) for d in ds), 8)


# ---------------------------------------------------------------- C25 what futures and results hold
def peek(eng, st, lv):
    """what lies at lv, also if only the whole that it is a part of has been copied"""
    up, fs = lv, []
    while up not in st.mem and up[0] == 'f':
        fs.append(up[2])
        up = up[1]
    w = st.mem.get(up)
    if fs and w and w[0] == 'ld':
        lv = w[1]
        for x in reversed(fs):
            lv = ('f', lv, x)
        return ('ld', lv, w[2])
    return eng.load(st, lv)


def par(f):
    return ('d', ('p', 0, f.params[0]['n']))


def ptype(f):
    return re.sub(r'\s*&+$', '', f.params[0]['ty']).replace('const ', '').strip()


class Slot:
    """(has a value?, the value) of the poller at lv"""
    def __init__(self, p, lv, cls):
        self.box = Store(p).pbox(lv, cls)
        self.small = self.box[2] == 'second'
        self.void = re.match(r'copp::future::poller<void\b', cls) is not None

    def start(self, eng, st, have):
        """assume a state that keeps the invariant"""
        if have is None:
            return True
        if not have:
            st.mem[self.box] = ('c', 0)
            return True
        if self.small:
            self.val = eng.load(st, ('f', self.box[1], 'first'))
            st.mem[self.box] = ('a', ('f', self.box[1], 'first'))
        else:
            self.val = eng.load(st, self.box)
            return st.assume(self.val, True)
        return True

    def have(self, eng, st):
        return st.truth(eng.load(st, self.box))

    def own(self, eng, st):
        """a small value lies in the object itself"""
        b = eng.load(st, self.box)
        return not self.small or st.truth(b) is False or b == ('a', ('f', self.box[1], 'first'))

    def value(self, eng, st):
        if self.small:
            return eng.load(st, ('f', self.box[1], 'first'))
        return eng.load(st, self.box)


class Hold(Prom):
    """one function of poller or future, from one state of the object and of the other one"""
    def __init__(self, p, kind, a, b):
        super().__init__(p, 'C25')
        self.kind, self.a, self.b = kind, a, b
        self.data = dict(n=0)

    def init(self, eng, st, fr):
        f = eng.top
        c, lv = f.cls, THIS
        self.pc = c
        if 'future::future<' in c.split('<')[0] + '<':
            n, self.pc = [(n, t) for n, t in fieldtypes(self.p, c) if 'poller<' in t][0]
            lv = ('f', THIS, n)
        self.me = Slot(self.p, lv, self.pc)
        self.ok = self.me.start(eng, st, self.a)
        self.ot = None
        if self.kind in ('move', 'swap'):
            st.assume(('op', '==', ('this',), eng.addr(par(f))), False)
            self.ot = Slot(self.p, par(f), self.pc)
            self.ok = self.ot.start(eng, st, self.b) and self.ok
        elif f.params:
            self.given = eng.load(st, par(f))
            if self.kind == 'ptr':
                self.inside = eng.load(st, ('d', self.given))
                self.ok = st.assume(self.given, self.b) and self.ok
            elif self.kind == 'bool':
                self.ok = st.assume(self.given, self.b) and self.ok
        return ()

    def event(self, eng, ev, st):
        self.track(eng, ev, st)
        if ev.k == 'ctor' and ev.args and ev.lv and ev.lv[0] == 'd' and ev.lv[1][0] == 'call':
            if any(contains(a, par(eng.top)) for a in ev.args if isinstance(a, tuple)) if eng.top.params else False:
                self.set(st, 'built', ev.lv[1])

    def exit(self, eng, fr, st, kind, val):
        f = eng.top
        if kind != 'ret' or not self.ok:
            return
        self.data['n'] += 1
        me, ot, k = self.me, self.ot, self.kind
        had = 'with a value' if self.a else 'without a value'

        def bad(rule, msg):
            self.bad(eng, 'C25.' + rule, msg, f.loc(), st)
        if k == 'ask':
            if f.n in ('is_ready', 'is_pending'):
                if st.truth(val) is not (self.a == (f.n == 'is_ready')):
                    bad('state', '%s of an object %s is wrong' % (f.n, had))
            elif self.a is False and st.truth(val) is not False:
                bad('state', 'an object without a value gives one')
            elif self.a and not me.void and (val != eng.load(st, me.box) or st.truth(val) is not True):
                bad('state', 'an object does not give the value it has')
            if me.have(eng, st) is not self.a or self.a and me.value(eng, st) != me.val:
                bad('state', 'looking at an object changes it')
            return
        if not me.own(eng, st) or ot and not ot.own(eng, st):
            bad('own', 'the value of an object lies outside of it')
        h = me.have(eng, st)
        if k in ('none', 'reset'):
            if h is not False:
                bad('state', 'an object has a value after it was %s' % ('reset' if k == 'reset' else 'created without one'))
            return
        if k == 'swap':
            g = ot.have(eng, st)
            if h is not self.b or g is not self.a:
                bad('move', 'after an exchange the wrong object is ready')
            elif not me.void and (self.b and me.value(eng, st) != ot.val or self.a and ot.value(eng, st) != me.val):
                bad('move', 'an exchange loses a value')
            return
        if k == 'move':
            if h is not self.b:
                bad('move', 'an object moved from one %s is %s' % ('with a value' if self.b else 'without a value', 'ready' if h else 'not ready' if h is False else 'ready or not'))
            elif self.b and not me.void and me.value(eng, st) != ot.val:
                bad('move', 'a value changes when it is moved')
            if ot.have(eng, st) is not False:
                bad('move', 'an object keeps the value that was moved out of it')
            return
        want = self.b if k in ('ptr', 'bool') else True
        if h is not want:
            bad('state', 'an object is %s after it was given %s' % ('ready' if h else 'not ready', 'a value' if want else 'no value'))
        elif want and not me.void:
            v = me.value(eng, st)
            if k == 'ptr':
                good = v == (self.inside if me.small else self.given)
                if not me.small and st.truth(eng.load(st, par(f))) is not False:
                    bad('move', 'the value is owned twice')
            elif me.small:
                good = v == self.given or self.has(st, 'built')
            else:
                good = v[0] == 'call' and (eng.load(st, ('d', v)) == self.given or self.get(st, 'built') == v)
            if not good:
                bad('state', 'an object does not hold the value it was given')


class Modes(Prom):
    """evaluates a question to a result for every mode"""
    def __init__(self, p, mode, m):
        super().__init__(p, 'C25')
        self.mode, self.m = mode, m
        self.data = dict(out=[])

    def init(self, eng, st, fr):
        st.mem[('f', THIS, self.mode)] = ('c', self.m)
        self.snap = dict(st.mem)
        return ()

    def exit(self, eng, fr, st, kind, val):
        f = eng.top
        if kind != 'ret':
            return
        t = st.truth(val)
        if val[0] == 'a':
            t = True
        if val[0] == 'ld' and t is None:
            t = 'data'
        self.data['out'].append((f.id, self.m, t, val[1] if val[0] in ('a', 'ld') else None))
        if st.cmp('==', eng.load(st, ('f', THIS, self.mode)), ('c', self.m)) is not True:
            self.bad(eng, 'C25.result', 'looking at a result changes it', f.loc(), st)


class Result(Prom):
    """changes of a result; info: mode field, {'success': (mode value, lvalue of data relative to the object)}"""
    def __init__(self, p, info, kind, a, b):
        super().__init__(p, 'C25')
        self.i, self.kind, self.a, self.b = info, kind, a, b
        self.data = dict(n=0)

    def at(self, base, lv):
        return base if lv == THIS else (lv[0], self.at(base, lv[1])) + lv[2:] if lv[0] == 'f' else lv

    def init(self, eng, st, fr):
        f, i = eng.top, self.i
        if self.kind in ('make', 'static'):
            self.given = eng.load(st, par(f)) if f.params else None
        if self.kind not in ('static',) and self.a is not None and f.fk != 'ctor':
            st.mem[('f', THIS, i['mode'])] = ('c', i[self.a][0])
        if self.kind in ('move', 'swap', 'copy'):
            st.assume(('op', '==', ('this',), eng.addr(par(f))), False)
            st.mem[('f', par(f), i['mode'])] = ('c', i[self.b][0])
        self.old = {}
        for k in ('success', 'error'):
            for w, base in ((0, THIS),) + (((1, par(f)),) if f.params else ()):
                self.old[k, w] = ('ld', self.at(base, i[k][1]), 0)
        return ()

    def event(self, eng, ev, st):
        self.track(eng, ev, st)
        if ev.k in ('ctor', 'call', 'called') and eng.top.params and ev.d.get('args') and any(contains(a, par(eng.top)) for a in ev.args if isinstance(a, tuple)):
            if ev.k == 'called' or ev.k == 'call':
                if ev.q.endswith(('make_shared', 'allocate_shared')):
                    self.add(st, 'built')
            elif ev.k == 'ctor':
                self.set(st, 'at', ev.lv)

    def exit(self, eng, fr, st, kind, val):
        f, i, k = eng.top, self.i, self.kind
        if kind != 'ret':
            return
        self.data['n'] += 1

        def bad(msg):
            self.bad(eng, 'C25.result', msg, f.loc(), st)

        def mode(base):
            v = eng.load(st, ('f', base, i['mode']))
            return [x for x in ('success', 'error', 'none') if x in i and st.cmp('==', v, ('c', i[x][0])) is True]

        def holds(base, what, v):
            return peek(eng, st, self.at(base, i[what][1])) == v
        base = THIS
        if k == 'none':
            if mode(base) and mode(base) != ['none']:
                bad('a new result is a success or an error already')
            return
        if k in ('make', 'static'):
            if k == 'static':
                base = ('r', 0)
                v = eng.load(st, base)
                if v[0] == 'call':
                    if st.truth(v) is False:
                        return
                    base = ('d', v)
            what = 'success' if 'success' in f.n else 'error'
            if mode(base) != [what]:
                bad('a result made as %s is not one' % what)
            elif self.given is not None:
                v = peek(eng, st, self.at(base, i[what][1]))
                if v != self.given and not (v[0] == 'call' and v[2].endswith('_shared') and self.has(st, 'built')):
                    bad('a result made as %s does not hold what it was given' % what)
            return
        if mode(base) != [self.b]:
            bad('a result taken over from a%s is something else' % ('n error' if self.b == 'error' else ' success' if self.b == 'success' else 'n empty one'))
        elif self.b != 'none' and not holds(base, self.b, self.old[self.b, 1]):
            bad('a result taken over loses its %s value' % self.b)
        o = par(f)
        if k == 'copy':
            if mode(o) != [self.b] or self.b != 'none' and not holds(o, self.b, self.old[self.b, 1]):
                bad('copying a result changes the source')
        if k == 'move' and not i['trivial'] and mode(o) not in ([], ['none']):
            bad('a result that was moved away still is a success or an error')
        if k == 'swap':
            if mode(o) != [self.a]:
                bad('after an exchange a result is something else')
            elif self.a != 'none' and not holds(o, self.a, self.old[self.a, 0]):
                bad('an exchange of results loses the %s value' % self.a)


def c25(R):
    R.rule('C25.state', 'an object is ready exactly if it was given a value that has not been taken, and gives exactly that value')
    R.rule('C25.move', 'moving and exchanging carry value and readiness over; what was moved from is not ready; no value is lost or owned twice')
    R.rule('C25.own', 'a small value is kept in the object that is ready with it, never in another one')
    R.rule('C25.result', 'a result is exactly what it was made as and holds what it was given, through every copy, move, assignment and exchange')
    p = R.load()
    fs = [f for f in p.fns.values() if f.blocks]
    jobs, n = [], dict.fromkeys(('ask', 'none', 'reset', 'move', 'swap', 'ptr', 'bool', 'value', 'eval', 'result'), 0)
    for f in fs:
        c = f.cls or ''
        m = re.match(r'copp::future::(poller|future)<', c)
        if not m or f.const and f.n in ('raw_ptr', 'poll_data'):
            continue
        if f.n in ('is_ready', 'is_pending', 'data') and not f.params:
            k = 'ask'
        elif f.n == 'swap':
            k = 'swap'
        elif (f.fk == 'ctor' or f.n in ('reset', 'reset_data')) and not f.params:
            k = 'none' if f.fk else 'reset'
        elif (f.fk == 'ctor' or f.n in ('operator=', 'reset_data')) and len(f.params) == 1 and f.params[0]['isref']:
            t = ptype(f)
            k = 'move' if t.startswith('copp::future::poller<') else 'ptr' if t.startswith('std::unique_ptr<') else 'bool' if re.match(r'copp::future::\w+<void\b', c) else 'value'
        else:
            continue
        if k == 'move' and '&&' not in f.params[0]['ty']:
            continue
        n[k] += 1
        R.ob('C25.' + ('move' if k in ('move', 'swap') else 'state'), f.q + ' ' + ' '.join(x['ty'] for x in f.params), True, f.loc())
        for a in ((None,) if f.fk == 'ctor' else (True, False)):
            for b in (True, False) if k in ('move', 'swap', 'ptr', 'bool') else (None,):
                jobs.append((lambda k=k, a=a, b=b: Hold(p, k, a, b), f))
    # results
    for c in sorted({f.cls for f in fs if f.cls and re.match(r'copp::future::result_base<[^()]*$', f.cls)}):
        mine = [f for f in fs if f.cls == c]
        ask = [f for f in mine if f.n in ('is_success', 'is_error', 'get_success', 'get_error') and not f.params]
        if len({f.n for f in ask}) < 4:
            continue
        modef = [nm for nm, t in fieldtypes(p, c) if t.endswith('mode_type') or 'enum' in t]
        if len(modef) != 1:
            raise Broken('mode of %s: %s' % (c, fieldtypes(p, c)))
        ds = R.explore([(lambda m=m: Modes(p, modef[0], m), f) for f in ask for m in (0, 1, 2)])
        out = [(p.fns[x[0]],) + tuple(x[1:]) for d in ds for x in d['out']]
        info = dict(mode=modef[0], trivial=c.endswith('true>'))
        for w in ('success', 'error'):
            yes = {m for f, m, t, lv in out if f.n == 'is_' + w and t is True}
            R.ob('C25.result', 'is_%s of %s' % (w, c), len(yes) == 1, [f for f in ask if f.n == 'is_' + w][0].loc(), 'a result is a%s in %d modes' % ('n error' if w == 'error' else ' success', len(yes)))
            if len(yes) != 1:
                info = None
                break
            m0 = yes.pop()
            lvs = {lv for f, m, t, lv in out if f.n == 'get_' + w and m == m0}
            for f, m, t, lv in out:
                n['eval'] += 1
                if f.n == 'get_' + w and (t is False) != (m != m0):
                    R.ob('C25.result', f.q, False, f.loc(), 'a result that is %s value' % ('not a%s %s gives its' % ('n' if w == 'error' else '', w) if m != m0 else 'a%s %s gives no' % ('n' if w == 'error' else '', w)))
            if len(lvs) != 1 or None in lvs:
                R.ob('C25.result', c, False, [f for f in ask if f.n == 'get_' + w][0].loc(), 'the two forms of get_%s give different things' % w)
                info = None
                break
            info[w] = (m0, lvs.pop())
        if info is None:
            continue
        if info['success'][0] == info['error'][0] or info['success'][1] == info['error'][1]:
            R.ob('C25.result', c, False, ask[0].loc(), 'success and error of a result are the same')
            continue
        rest = {0, 1, 2} - {info['success'][0], info['error'][0]}
        if not info['trivial']:
            info['none'] = (rest.pop(), None)
        states = [x for x in ('success', 'error', 'none') if x in info]
        tmpl = re.match(r'copp::future::result_base<(.*), (true|false)>$', c).group(1)
        for f in fs:
            k = None
            if f.cls == c:
                own = f.params and ptype(f) == c
                if f.n == 'swap' and len(f.params) == 1:
                    k = 'swap'
                elif f.fk == 'ctor' and not f.params:
                    k = 'none'
                elif own and (f.fk == 'ctor' or f.n == 'operator='):
                    k = 'move' if '&&' in f.params[0]['ty'] else 'copy'
                elif re.match(r'(construct|make)_(success|error)', f.n) and len(f.params) == 1:
                    k = 'make'
            elif f.cls == 'copp::future::result_type<%s>' % tmpl and re.match(r'(create|make)_(success|error)', f.n) and len(f.params) == 1:
                k = 'static'
            if not k or k == 'none' and info['trivial']:
                continue
            n['result'] += 1
            R.ob('C25.result', f.q + ' ' + ' '.join(x['ty'] for x in f.params), True, f.loc())
            for a in ((None,) if f.fk == 'ctor' or k == 'static' else states):
                for b in states if k in ('move', 'swap', 'copy') else (None,):
                    jobs.append((lambda i=info, k=k, a=a, b=b: Result(p, i, k, a, b), f))
    for k, least in (('ask', 12), ('none', 3), ('reset', 3), ('move', 4), ('swap', 2), ('ptr', 2), ('bool', 1), ('value', 4), ('eval', 20), ('result', 8)):
        R.need('functions (%s)' % k, n[k], least)
    ds = R.explore(jobs)
    R.need('ends of functions', sum(d.get('n', 0) for d in ds), 100)


# ---------------------------------------------------------------- C24 some, any, all
FUT = r'.*_action::(suspend_future|resume_future|is_pending|add_caller|remove_caller)'
CUR, ANS, IA, IB, YS = [('v', -24, i, 'some') for i in range(5)]


class Some(Prom):
    """what is done with every future of a set"""
    heads = True
    inits = True
    stop = (CALLERS, FUT)

    def __init__(self, p):
        super().__init__(p, 'C24')
        self.data = dict(n=0, els=0)

    def context(self, cls):
        x = {}
        for n, t in fieldtypes(self.p, cls):
            k = ('pending' if 'list<' in t else 'ready' if 'vector<' in t else 'status' if t.endswith('promise_status') else
                 'bound' if t == 'unsigned long' else 'caller' if t.endswith('handle_delegate') else 'detached' if t == 'bool *' else None)
            if k is None or k in x:
                raise Broken('fields of %s' % cls)
            x[k] = n
        if len(x) != 6:
            raise Broken('fields of %s: %s' % (cls, x))
        return x

    def init(self, eng, st, fr):
        f = eng.top
        r = [(n, t) for n, t in fieldtypes(self.p, f.cls) if 'some_delegate_context<' in t]
        self.own = [n for n, t in fieldtypes(self.p, f.cls) if t.endswith('handle_delegate')]
        if len(r) != 1:
            raise Broken('context of ' + f.cls)
        self.setctx(eng, st, eng.load(st, ('f', THIS, r[0][0])), r[0][1])
        return ()

    def setctx(self, eng, st, cx, t):
        self.cx = cx
        self.cx_type = t
        self.ctx = ('d', cx)
        x = self.context(re.sub(r'\s*\*$', '', t))
        self.lv = {k: ('f', self.ctx, n) for k, n in x.items()}

    def ld(self, eng, st, k):
        return eng.load(st, self.lv[k])

    def size(self, eng, st, k):
        return ('pure', 'size', self.ld(eng, st, k))

    def nothing(self, eng, st):
        """the list of pending futures is empty, or its end was reached"""
        return self.has(st, 'atend') or st.cmp('==', self.size(eng, st, 'pending'), ('c', 0)) is True

    # -- one future after the other
    def visit(self, eng, ev, st):
        q = ev.d.get('q') or ''
        args = ev.d.get('args') or []
        if ev.k == 'call' and re.search(r'::is_pending$', q) and args:
            P = eng.addr(args[0])
            self.settle(eng, ev, st)
            st.mem[CUR] = P
            self.set(st, 'tags', ())
            self.rm(st, 'atend')
            self.data['els'] += 1
        elif ev.k == 'called' and re.search(r'::is_pending$', q):
            st.mem[ANS] = ev.val
            self.rm(st, 'ans')
        elif ev.k == 'call' and CUR in st.mem:
            P, obj, tag = st.mem[CUR], ev.d.get('obj'), None
            if re.search(r'::(push_back|emplace_back|push_front|emplace_front|insert)$', q) and args:
                w = [k for k in ('pending', 'ready') if obj == self.lv[k]]
                if w:
                    tag = 'to ' + w[0] if self.means(eng, st, args[-1], P) else 'other'
            elif q.endswith('::erase') and obj == self.lv['pending'] and args:
                it = eng.load(st, args[0])
                tag = 'erased' if eng.load(st, ('d', ('elemof', it))) == P else 'other'
            elif q.endswith('::remove') and obj == self.lv['pending'] and args:
                tag = 'erased' if self.means(eng, st, args[0], P) else 'other'
            elif q.endswith('::resume_future'):
                tag = 'resumed' if eng.addr(args[1]) == P else 'other'
                if eng.load(st, ('f', args[0], 'handle')) != eng.load(st, ('f', self.lv['caller'], 'handle')):
                    tag = 'other'
            if tag:
                self.set(st, 'tags', (self.get(st, 'tags') or ()) + (tag,))
        if ev.k == 'call' and re.search(r'operator(==|!=)$', q):
            a = ([ev.obj] if ev.d.get('obj') else []) + list(args)
            if len(a) == 2:
                st.mem[IA], st.mem[IB] = eng.load(st, a[0]), eng.load(st, a[1])
                self.set(st, 'isend', any(x in (self.get(st, 'endlv') or ()) for x in a))
        elif ev.k in ('store', 'init') and ev.val and ev.val[:2] == ('pure', 'end'):
            # after a join of states the value itself says no more that it is the end
            self.set(st, 'endlv', tuple(sorted(set((self.get(st, 'endlv') or ()) + (ev.lv,)))))
        elif ev.k == 'call' and q.endswith('operator++') and 'terator' in q and ev.d.get('obj'):
            self.step(eng, ev, st, eng.load(st, ev.obj))
        if ev.k == 'branch' and ANS in st.mem and st.truth(st.mem[ANS]) is not None:
            self.set(st, 'ans', st.truth(st.mem[ANS]))
        if ev.k == 'branch' and IA in st.mem:
            a, b = st.mem[IA], st.mem[IB]
            for x, y in ((a, b), (b, a)):
                if (x[:2] == ('pure', 'end') or self.get(st, 'isend')) and st.cmp('==', a, b) is True:
                    self.add(st, 'atend')

    def means(self, eng, st, a, P):
        if a == P or eng.load(st, a) == P if a[0] in ('v', 't', 'f', 'd', 'r', 'p') else a == P:
            return True
        return any(v == P for k, v in st.mem.items() if contains(k, a))

    def at(self, eng, st, it):
        """may the futures an iterator stands for be the present one"""
        P = st.mem.get(CUR)
        e = ('elemof', it)
        return P is not None and (P == e or P == eng.load(st, ('d', e)) or contains(P, e))

    def step(self, eng, ev, st, it):
        if not self.at(eng, st, it):
            self.bad(eng, 'C24.each', 'a future is passed over', ev, st)

    # -- who waits is running now: while a callback of the user runs, no future may know it
    def init_known(self, eng, st):
        self.gen = 'generator_future' in self.cx_type
        self.h0 = eng.load(st, ('f', self.lv['caller'], 'handle'))
        st.mem[('v', -24, 5, 'h0')] = self.h0
        return ('dirty',) if self.gen else ()

    def known(self, eng, ev, st):
        q, args = ev.d.get('q') or '', ev.d.get('args') or []
        if ev.k == 'call' and re.search(r'::c?begin$', q) and ev.d.get('obj') == self.lv['pending']:
            self.settle(eng, ev, st)
            self.rm(st, 'atend')
            self.set(st, 'loop', 'begun')
        elif ev.k == 'call' and re.search(r'_action::(add|remove)_caller$', q):
            self.settle(eng, ev, st)
            on = q.endswith('::add_caller')
            st.mem[CUR] = eng.addr(args[1])
            self.rm(st, 'atend')
            self.set(st, 'loop', 'on' if on else 'off')
            self.rm(st, 'alone' if on else 'back')
            if not on:
                self.add(st, 'off')
            elif self.has(st, 'dirty'):
                self.bad(eng, 'C24.each', 'a future that a callback of the user made ready wakes nobody', ev, st)
            if eng.load(st, ('f', args[0], 'handle')) != eng.load(st, ('f', self.lv['caller'], 'handle')):
                self.bad(eng, 'C24.attach', 'a future is told to wake somebody else', ev, st)
            return True
        elif ev.k == 'call' and q.endswith('::is_pending'):
            if self.get(st, 'loop') != 'ask':
                self.rm(st, 'dirty')
            self.set(st, 'loop', 'ask')
        elif ev.k == 'call' and q.endswith('::resume_future') and self.gen:
            if not self.has(st, 'alone') and st.cmp('==', st.mem[('v', -24, 5, 'h0')], ('c', 0)) is not True:
                self.bad(eng, 'C24.attach', 'code of the user runs while futures may resume the coroutine that waited, which is running', ev, st)
            self.add(st, 'dirty')
        return False

    def reached(self, st):
        if self.has(st, 'atend'):
            w = self.get(st, 'loop')
            if w in ('off', 'begun'):
                self.add(st, 'alone')
            if w in ('on', 'begun'):
                self.add(st, 'back')

    def settle(self, eng, ev, st):
        if CUR in st.mem and self.get(st, 'loop') in ('on', 'off'):
            st.mem.pop(CUR, None)
            st.mem.pop(ANS, None)
        if CUR in st.mem:
            self.settled(eng, ev, st, st.truth(st.mem[ANS]) if ANS in st.mem else None, list((self.get(st, 'tags') or ())))
            st.mem.pop(CUR, None)
            st.mem.pop(ANS, None)

    def settled(self, eng, ev, st, ans, tags):
        pass


class SomeReady(Some):
    def event(self, eng, ev, st):
        if ev.k == 'store' and root(ev.lv)[0] == 'd':
            self.bad(eng, 'C24.enough', 'asking whether it is necessary to wait changes something', ev, st)

    def exit(self, eng, fr, st, kind, val):
        if kind != 'ret':
            return
        for t in (True, False):
            s = st.copy()
            if s.assume(val, t) is False:
                continue
            self.data['n'] += 1
            null = s.cmp('==', self.cx, ('c', 0))
            done = None if null is True else self.below(s, self.ld(eng, s, 'status'), DONE)
            none = None if null is True else s.cmp('==', self.size(eng, s, 'pending'), ('c', 0))
            if t and not (null is True or done is False or none is True):
                self.bad(eng, 'C24.enough', 'the wait is skipped although it goes on and futures are pending', eng.top.loc(), s)
            if not t and not (null is False and done is True and none is False):
                self.bad(eng, 'C24.enough', 'something is waited for that is over', eng.top.loc(), s)


class SomeResume(Some):
    """await_resume"""
    def init(self, eng, st, fr):
        super().init(eng, st, fr)
        self.mine = ('f', THIS, self.own[0])
        self.prom = eng.load(st, ('f', self.mine, 'promise'))
        self.was = self.ld(eng, st, 'status')
        return self.init_known(eng, st)

    def event(self, eng, ev, st):
        if not self.known(eng, ev, st):
            self.visit(eng, ev, st)
            self.reached(st)
        if ev.k == 'store' and ev.lv == self.lv['status']:
            if self.below(st, ev.d.get('old') or self.was, DONE) is not True or ev.val != ('c', DONE):
                self.bad(eng, 'C24.result', 'waiting ends with another status than that enough futures are ready', ev, st)

    def settled(self, eng, ev, st, ans, tags):
        if ans is True and tags:
            self.bad(eng, 'C24.each', 'a future that is still pending is taken for ready', ev, st)
        if ans is not True and sorted(tags) != ['erased', 'resumed', 'to ready']:
            self.bad(eng, 'C24.each', 'a future that became ready is not moved to the ready ones and detached, exactly once', ev, st)

    def exit(self, eng, fr, st, kind, val):
        if kind != 'ret':
            return
        self.data['n'] += 1
        at = eng.top.loc()
        h = eng.load(st, ('f', self.mine, 'handle'))
        if st.cmp('==', h, ('c', 0)) is not True:
            self.bad(eng, 'C24.detach', 'who waited stays registered at the wait', at, st)
        if st.cmp('==', self.prom, ('c', 0)) is False and st.cmp('==', ('ld', ('f', self.mine, 'handle'), 0), ('c', 0)) is False and \
                self.flag(eng, st, ('d', self.prom), WAITING) is not False:
            self.bad(eng, 'C24.detach', 'who waited stays marked as waiting', at, st)
        if st.cmp('==', self.cx, ('c', 0)) is True:
            return
        self.settle(eng, at, st)
        if not self.nothing(eng, st):
            self.bad(eng, 'C24.each', 'not every future is looked at when the waiting coroutine goes on', at, st)
        now = self.ld(eng, st, 'status')
        want = ('op', '<', self.size(eng, st, 'ready'), self.ld(eng, st, 'bound'))
        if now == ('c', DONE):
            if st.cmp('<', want[2], want[3]) is not False:
                self.bad(eng, 'C24.enough', 'waiting ends before enough futures are ready', at, st)
        elif st.cmp('<', want[2], want[3]) is not True and self.below(st, now, DONE) is not False:
            self.bad(eng, 'C24.enough', 'waiting goes on although enough futures are ready', at, st)
        if self.has(st, 'off') and not self.has(st, 'back') and self.below(st, now, DONE) is not False:
            self.bad(eng, 'C24.attach', 'a wait that goes on is not registered any more with the futures that are pending', at, st)


class SomeEnd(Some):
    """destruction of the object that waits"""
    def init(self, eng, st, fr):
        super().init(eng, st, fr)
        if st.assume(('op', '==', self.cx, ('c', 0)), False) is False:
            raise Broken('C24: context')
        self.h = eng.load(st, ('f', self.lv['caller'], 'handle'))
        self.det = self.ld(eng, st, 'detached')
        self.was = self.ld(eng, st, 'status')
        self.prom = eng.load(st, ('f', self.lv['caller'], 'promise'))
        st.mem[('v', -24, 9, 'was')] = self.was
        st.mem[('v', -24, 8, 'prom')] = self.status(eng, st, ('d', self.prom))
        st.mem[('v', -24, 7, 'det')] = self.det
        st.mem[('v', -24, 6, 'h')] = self.h
        return self.init_known(eng, st)

    def event(self, eng, ev, st):
        q, args = ev.d.get('q') or '', ev.d.get('args') or []
        known = self.known(eng, ev, st)
        if ev.k == 'call' and q.endswith('::resume_future'):
            st.mem[CUR] = eng.addr(args[1])
            self.data['els'] += 1
            self.rm(st, 'atend')
            if eng.load(st, ('f', args[0], 'handle')) != self.h:
                self.bad(eng, 'C24.detach', 'futures are not told who does not wait any more', ev, st)
            self.set(st, 'loop', 'told')
        elif not known:
            self.visit(eng, ev, st)
            self.reached(st)
        if ev.k == 'store' and ev.lv == ('d', self.det):
            self.set(st, 'told', st.truth(ev.val))
        for k, v in (('no', st.cmp('==', self.det, ('c', 0))), ('used', st.cmp('==', self.h, ('c', 0))), ('was', self.below(st, self.was, DONE))):
            if v is not None:
                self.set(st, k, v)

    def exit(self, eng, fr, st, kind, val):
        if kind != 'ret':
            return
        self.data['n'] += 1

        def bad(msg):
            self.bad(eng, 'C24.detach', msg, eng.top.loc(), st)
        now = self.ld(eng, st, 'status')
        used = self.get(st, 'used')
        if used is not False:
            if used is None:
                bad('a wait ends without a look at whether futures are still registered')
            return
        if not self.nothing(eng, st):
            bad('a wait ends and stays registered with futures that are pending')
        if st.cmp('==', eng.load(st, ('f', self.lv['caller'], 'handle')), ('c', 0)) is not True:
            bad('a wait that is over keeps its waiting coroutine')
        if not self.get(st, 'no') and not self.get(st, 'told'):
            bad('a wait ends without a word to the one that still registers it')
        a = self.get(st, 'was')
        if a is False:
            if now != self.was:
                bad('the result of a wait changes when it is destroyed')
        elif a is None:
            bad('the result of a wait is overwritten unseen')
        elif self.below(st, now, DONE) is not False:
            bad('a wait is destroyed and stays without a final result')
        elif now != ('c', KILLED) and now != eng.load(st, ('v', -24, 8, 'prom')):
            bad('a wait that is destroyed gets a result of its own')


KILLED = 5


class SomeSuspend(Some):
    """await_suspend"""
    def init(self, eng, st, fr):
        super().init(eng, st, fr)
        f = eng.top
        self.mine = ('f', THIS, self.own[0])
        self.H = ('p', 0, f.params[0]['n'])
        st.assume(('op', '==', self.H, ('c', 0)), False)
        self.P = ('d', ('promise', self.H))
        self.h = eng.load(st, ('f', self.lv['caller'], 'handle'))
        st.mem[('v', -24, 6, 'h')] = self.h
        st.mem[('v', -24, 5, 'cx')] = self.cx
        st.mem[('v', -24, 9, 'st')] = self.status(eng, st, self.P)
        return ()

    def dead(self, st):
        """may the object be gone"""
        d = self.get(st, 'det')
        return self.has(st, 'resumed') or self.has(st, 'opaque') and (d is None or st.truth(st.mem.get(d, ('x',))) is not False)

    def event(self, eng, ev, st):
        q, args = ev.d.get('q') or '', ev.d.get('args') or []
        if ev.k in ('load', 'store', 'access', 'call', 'enter') and self.dead(st):
            for lv in used(ev) + list(args):
                if lv.__class__ is tuple and (contains(lv, ('this',)) or contains(lv, self.cx)) and root(lv)[0] == 'd':
                    self.bad(eng, 'C24.gone', 'a wait is used after code of the user may have destroyed it', ev, st)
                    break
        if ev.k == 'store' and ev.lv == self.lv['detached']:
            if ev.val[0] == 'a' and ev.val[1][0] == 'v':
                self.set(st, 'det', ev.val[1])
            elif self.get(st, 'det') is not None and st.cmp('==', ev.val, ('c', 0)) is True:
                self.settle(eng, ev, st)
                self.add(st, 'second')
        if ev.k == 'branch' and self.get(st, 'det') is not None and st.truth(st.mem.get(self.get(st, 'det'), ('c', 0))) is True:
            self.add(st, 'left')
        if ev.k == 'call' and q.endswith(('::begin', '::cbegin')):
            if root(ev.obj)[0] == 'v':
                self.add(st, 'local')
        if ev.k == 'call' and q.endswith('::suspend_future'):
            self.data['els'] += 1
            P = eng.addr(args[1])
            if st.mem.get(CUR) != P:
                st.mem[CUR] = P
            self.set(st, 'tags', ('suspended',))
            self.rm(st, 'atend')
            self.add(st, 'any')
            if eng.load(st, ('f', args[0], 'handle')) != self.H:
                self.bad(eng, 'C24.attach', 'a future is told to wake somebody else', ev, st)
            if not self.has(st, 'opaque'):
                self.ready(eng, ev, st)
            if not self.has(st, 'local'):
                self.bad(eng, 'C24.gone', 'the list of futures is walked while code of the user may change it', ev, st)
        elif ev.k == 'called' and q.endswith('::suspend_future'):
            self.add(st, 'opaque')
            eng.havoc(ev.fr, st, ('aw', ev.fr.fid, 24))
            d = self.get(st, 'det')
            if d is not None:
                st.mem[d] = eng.fresh(ev.fr, 2400, 'detached', st)
        elif ev.k == 'user' and 'coroutine_handle::resume' in q:
            if eng.load(st, ev.obj) != self.H or self.has(st, 'resumed'):
                self.bad(eng, 'C24.attach', 'somebody else is resumed, or twice', ev, st)
            if st.cmp('==', self.ld(eng, st, 'detached'), ('c', 0)) is not True:
                self.bad(eng, 'C24.gone', 'a wait keeps the address of a variable that is gone', ev, st)
            self.add(st, 'resumed')
        else:
            self.visit(eng, ev, st)

    def ready(self, eng, ev, st):
        """everything is in place before the first future can call back"""
        if eng.load(st, ('f', self.mine, 'handle')) != self.H or self.flag(eng, st, self.P, WAITING) is not True:
            self.bad(eng, 'C24.attach', 'futures are asked to call back before the waiting coroutine is marked as waiting', ev, st)
        if st.cmp('==', self.h, ('c', 0)) is not True:
            self.bad(eng, 'C24.attach', 'a wait registers with the futures again', ev, st)
        if eng.load(st, ('f', self.lv['caller'], 'handle')) != self.H:
            self.bad(eng, 'C24.attach', 'a wait does not know with whom it registered', ev, st)
        d = self.get(st, 'det')
        if d is not None and st.truth(eng.load(st, d)) is not False:
                self.bad(eng, 'C24.gone', 'a wait counts as gone from the start', ev, st)

    def settled(self, eng, ev, st, ans, tags):
        if self.second(eng, st):
            if ans is not True and not self.has(st, 'resumed'):
                self.bad(eng, 'C24.each', 'a future that became ready meanwhile wakes nobody', ev, st)
        elif 'suspended' not in tags and ans is not False:
            self.bad(eng, 'C24.attach', 'a wait is not registered with a pending future', ev, st)

    def second(self, eng, st):
        return self.has(st, 'second')

    def exit(self, eng, fr, st, kind, val):
        if kind != 'ret':
            return
        self.data['n'] += 1
        at = eng.top.loc()
        null = st.cmp('==', self.cx, ('c', 0))
        fin = self.below(st, st.mem[('v', -24, 9, 'st')], DONE)
        t = st.truth(val)
        if null is True or fin is False:
            if t is not False or self.has(st, 'opaque') or st.cmp('==', eng.load(st, ('f', self.mine, 'handle')), self.H) is True:
                self.bad(eng, 'C24.attach', 'a coroutine that is over, or has nothing to wait for, is suspended', at, st)
            return
        if t is not True or fin is not True:
            self.bad(eng, 'C24.attach', 'a coroutine is not suspended although it waits', at, st)
            return
        if self.has(st, 'resumed') or self.has(st, 'left'):
            return
        if not self.has(st, 'opaque') and not self.has(st, 'local'):
            # registered before
            if st.cmp('==', self.h, ('c', 0)) is not False:
                self.bad(eng, 'C24.attach', 'a coroutine is suspended and no future knows', at, st)
            if eng.load(st, ('f', self.mine, 'handle')) != self.H or self.flag(eng, st, self.P, WAITING) is not True:
                self.bad(eng, 'C24.attach', 'a coroutine is suspended and not marked as waiting', at, st)
            return
        if st.cmp('==', self.ld(eng, st, 'detached'), ('c', 0)) is not True:
            self.bad(eng, 'C24.gone', 'a wait keeps the address of a variable that is gone', at, st)
        self.settle(eng, at, st)
        if not self.nothing(eng, st):
            self.bad(eng, 'C24.each', 'not every future is looked at after the wait was registered with all', at, st)


class SomeRun(Some):
    """the coroutine that waits"""
    stop = (CALLERS, FUT, r'.*::await_(ready|suspend|resume)')

    def init(self, eng, st, fr):
        f = eng.top
        c = f.cls[f.cls.index('<') + 1:]
        self.cx = None
        self.name = None
        self.lv = {}
        ps = [x['n'] for x in f.params]
        if len(ps) != 3:
            raise Broken('parameters of ' + f.q)
        self.out, self.cnt, self.src = ('d', ('p', 0, ps[0])), ('p', 1, ps[1]), ('d', ('p', 2, ps[2]))
        self.cls = [k for k in self.p.recs if k.startswith('copp::some_delegate_context<') and k in
                    'copp::some_delegate_context<%s>' % c[:len(k) - len('copp::some_delegate_context<') - 1]]
        if len(self.cls) != 1:
            raise Broken('context of ' + f.cls)
        st.mem[('v', -24, 9, 'cnt')] = self.cnt
        return ()

    def event(self, eng, ev, st):
        q, args = ev.d.get('q') or '', ev.d.get('args') or []
        if ev.k == 'ctor' and 'some_delegate_context' in q and not args and ev.lv[0] == 'v':
            self.ctx, self.cx = ev.lv, ('a', ev.lv)
            self.lv = {k: ('f', ev.lv, n) for k, n in self.context(self.cls[0]).items()}
        if not self.lv:
            return
        if ev.k == 'coawait':
            if any(k[0] == 'f' and k[1] == ev.val and v == self.cx for k, v in st.mem.items()):
                self.waits(eng, ev, st)
                for k in ('status', 'ready', 'pending'):
                    st.mem[self.lv[k]] = eng.fresh(ev.fr, 2400, k, st)
            else:
                self.add(st, 'asks')
            return
        if ev.k == 'coreturn':
            self.ends(eng, ev, st)
            return
        if self.has(st, 'asks') and ev.k not in ('dtor', 'call', 'called'):
            pass
        if ev.k == 'call' and self.lv['ready'] in ([ev.d.get('obj')] + list(args)) and self.out in ([ev.d.get('obj')] + list(args)):
            if q.endswith(('::swap', 'operator=')) and not (q.endswith('operator=') and ev.obj != self.out):
                if self.has(st, 'out'):
                    self.rm(st, 'out')
                else:
                    self.add(st, 'out')
        self.visit(eng, ev, st)
        if ev.k == 'branch':
            self.know(eng, st)
        if ev.k == 'store' and ev.lv == self.lv['bound'] and ev.fr.fn.fk != 'ctor':
            self.know(eng, st)
            v, over = ev.val, self.get(st, 'over')
            # over: fewer are asked for than there are
            if not (v == self.cnt and over in (True, 'le') or self.total(eng, st, v) and over in (False, 'ge')):
                self.bad(eng, 'C24.enough', 'the number of futures to wait for is not the smaller of the number asked for and of all', ev, st)
            self.add(st, 'bound')

    def total(self, eng, st, v):
        a, b = self.size(eng, st, 'pending'), self.size(eng, st, 'ready')
        return v in (('op', '+', a, b), ('op', '+', b, a))

    def know(self, eng, st):
        a, b = self.size(eng, st, 'pending'), self.size(eng, st, 'ready')
        r = st.cmp('<', b, self.cnt)
        if r is not None and not self.has(st, 'bound'):
            self.set(st, 'few', r)
        for t in (('op', '+', a, b), ('op', '+', b, a)):
            r, s = st.cmp('<', self.cnt, t), st.cmp('<', t, self.cnt)
            if r is not None:
                self.set(st, 'over', True if r else 'ge')
            elif s is not None:
                self.set(st, 'over', False if s else 'le')

    def settled(self, eng, ev, st, ans, tags):
        if ans is None or tags != ['to pending' if ans else 'to ready']:
            self.bad(eng, 'C24.each', 'a future is not counted as what it is, exactly once', ev, st)

    def waits(self, eng, ev, st):
        self.settle(eng, ev, st)
        if not self.has(st, 'started'):
            if not self.has(st, 'atend'):
                self.bad(eng, 'C24.each', 'waiting starts before every future was looked at', ev, st)
            if self.get(st, 'few') is not True:
                self.bad(eng, 'C24.enough', 'waiting starts although enough futures are ready', ev, st)
            if not self.has(st, 'bound'):
                self.bad(eng, 'C24.enough', 'waiting starts without a number of futures to wait for', ev, st)
        self.add(st, 'started')
        self.rm(st, 'out')
        if self.below(st, self.ld(eng, st, 'status'), DONE) is not True:
            self.bad(eng, 'C24.enough', 'a wait that is over goes on', ev, st)
        ys = [v for k, v in st.mem.items() if k[0] == 'v' and k[1] >= 0 and v[0] == 'call' and v[2] == 'co_await']
        if not self.has(st, 'asks') or not any(self.below(st, v, DONE) is True for v in ys):
            self.bad(eng, 'C24.result', 'a wait that was killed waits again', ev, st)
        self.rm(st, 'asks')

    def ends(self, eng, ev, st):
        self.settle(eng, ev, st)
        self.data['n'] += 1
        v = eng.load(st, ev.val) if ev.val[0] in ('v', 'f', 't', 'd') else ev.val
        if not self.has(st, 'out'):
            self.bad(eng, 'C24.result', 'the ready futures are not handed out', ev, st)
        if not self.has(st, 'started') and not self.has(st, 'asks'):
            if self.has(st, 'bound'):
                if v != self.ld(eng, st, 'status') or self.below(st, v, DONE) is not False:
                    self.bad(eng, 'C24.result', 'a wait ends without a result', ev, st)
                return
            if not self.has(st, 'atend'):
                self.bad(eng, 'C24.each', 'a wait ends before every future was looked at', ev, st)
            if self.get(st, 'few') is not False or v != ('c', DONE):
                self.bad(eng, 'C24.enough', 'a wait ends before enough futures are ready', ev, st)
            return
        if self.below(st, v, DONE) is not False or v != self.ld(eng, st, 'status'):
            self.bad(eng, 'C24.result', 'a wait ends with something else than its result', ev, st)
        ys = [x for k, x in st.mem.items() if k[0] in 'vf' and x[0] == 'call' and x[2] == 'co_await' and root(k)[1] >= 0]
        if any(self.below(st, x, DONE) is False and x != v for x in ys):
            self.bad(eng, 'C24.result', 'a wait that was killed ends with another status', ev, st)


class SomeAction(Prom):
    """what registering with one future means"""
    def __init__(self, p, kind):
        super().__init__(p, 'C24')
        self.kind = kind
        self.data = dict(n=0, act=0)

    def init(self, eng, st, fr):
        return ()

    def event(self, eng, ev, st):
        q, args = ev.d.get('q') or '', ev.d.get('args') or []
        f = eng.top
        if ev.k == 'call' and re.search(r'_action::(add|remove)_caller$', q):
            return
        if ev.k == 'call' and re.search(r'::(add|remove)_caller$', q) and 'promise_caller_manager' not in q.split('::')[-2] or \
                ev.k == 'call' and re.search(r'promise_caller_manager::(add|remove)_caller$', q):
            w = 'add' if q.endswith('add_caller') else 'remove'
            h = eng.load(st, ('f', args[0], 'handle')) if args[0][0] in ('v', 't', 'f', 'd', 'p') else args[0]
            given = eng.load(st, ('f', ('d', ('p', 0, f.params[0]['n'])), 'handle'))
            if w != self.kind or h != given or self.has(st, w) or not contains(ev.obj, ('p', 1, f.params[1]['n'])):
                self.bad(eng, 'C24.attach', 'a future is told something else than that somebody waits for it', ev, st)
            self.add(st, w)
            self.data['act'] += 1
        if ev.k == 'load' and self.isstat(ev.lv):
            st.mem[YS] = ev.val
        if ev.k == 'branch':
            for x in (ev.val,) + tuple(y for y in ev.val[2:] if y.__class__ is tuple):
                if contains(x, ('p', len(f.params) - 1, f.params[-1]['n'])) and st.cmp('==', x, ('c', 0)) is True:
                    self.add(st, 'null')
        if callback(ev):
            if not self.has(st, self.kind) and self.kind == 'add' or self.has(st, 'cb'):
                self.bad(eng, 'C24.attach', 'a callback of the user runs before the waiting coroutine is registered, or twice', ev, st)
            self.add(st, 'cb')

    def exit(self, eng, fr, st, kind, val):
        if kind != 'ret':
            return
        f = eng.top
        self.data['n'] += 1
        if self.kind != 'ask':
            if not self.has(st, self.kind) and not self.has(st, 'null'):
                self.bad(eng, 'C24.attach', 'a future is not told who waits for it, or who does not any more', f.loc(), st)
            return
        for t in (True, False):
            s = st.copy()
            if s.assume(val, t) is False:
                continue
            if YS not in s.mem:
                if t:
                    self.bad(eng, 'C24.each', 'a future counts as pending without a look at it', f.loc(), s)
                continue
            for k in range(7):
                x = s.copy()
                if x.assume(('op', '==', x.mem[YS], ('c', k)), True) is not False and t != (k in (CREATED, RUNNING)):
                    self.bad(eng, 'C24.each', 'a future counts as pending although it has a final status, or as ready although it has none', f.loc(), x)
                    break


class SomeFront(Prom):
    """some, any, all themselves"""
    stop = (CALLERS, r'.*some_delegate_base::run')

    def __init__(self, p):
        super().__init__(p, 'C24')
        self.data = dict(n=0)

    def init(self, eng, st, fr):
        return ()

    def event(self, eng, ev, st):
        q, args = ev.d.get('q') or '', ev.d.get('args') or []
        f = eng.top
        src = f.params[-1]
        srcp = ('p', len(f.params) - 1, src['n'])
        if ev.k == 'called' and re.search(r'(^|::)(size|ssize)$', q):
            if any(contains(x, srcp) for x in list(args) + [ev.d.get('obj') or ()]):
                st.mem[YS] = ev.val
        if ev.k == 'call' and q.endswith('some_delegate_base::run'):
            self.set(st, 'runs', (self.get(st, 'runs') or 0) + 1)
            a = [eng.load(st, x) if x[0] in ('v', 't') else x for x in args]
            n = a[1]
            if f.n == 'some':
                ok = n == ('p', 1, f.params[1]['n'])
            elif f.n == 'any':
                ok = n == ('c', 1)
            else:
                ok = n == st.mem.get(YS) or n[:2] == ('pure', 'size') and contains(n, srcp)
            if not ok:
                self.bad(eng, 'C24.enough', '%s() waits for another number of futures' % f.n, ev, st)
            if args[0] != ('d', ('p', 0, f.params[0]['n'])) or a[2] not in (srcp, ('a', ('d', srcp))):
                self.bad(eng, 'C24.result', '%s() waits for other futures, or hands them out elsewhere' % f.n, ev, st)

    def exit(self, eng, fr, st, kind, val):
        if kind != 'ret':
            return
        self.data['n'] += 1
        if self.get(st, 'runs') != 1:
            self.bad(eng, 'C24.result', '%s() does not wait' % eng.top.n, eng.top.loc(), st)


def c24(R):
    R.rule('C24.each', 'every future is looked at, and counts as pending or as ready, exactly once, as what it says it is')
    R.rule('C24.enough', 'waiting ends exactly when as many futures are ready as were asked for, or as there are')
    R.rule('C24.attach', 'who waits is registered with every pending future before being suspended, and is woken if one became ready meanwhile')
    R.rule('C24.detach', 'a wait that ends is registered nowhere, and who waited is not marked as waiting any more')
    R.rule('C24.gone', 'nothing of a wait is used after code of the user could have destroyed it')
    R.rule('C24.result', 'the ready futures and the final status are handed out')
    p = R.load()
    fs = [f for f in p.fns.values() if f.blocks]
    jobs, n = [], dict.fromkeys(('ready', 'suspend', 'resume', 'end', 'run', 'add', 'remove', 'ask', 'front'), 0)
    for f in fs:
        c = f.cls or ''
        k = mk = None
        if c.startswith('copp::some_delegate_base<'):
            if c.endswith('::awaitable_type'):
                k = {'await_ready': 'ready', 'await_suspend': 'suspend', 'await_resume': 'resume'}.get(f.n)
            elif c.endswith('::promise_type'):
                k = 'end' if f.fk == 'dtor' else None
            elif f.n == 'run':
                k = 'run'
            mk = {'ready': SomeReady, 'suspend': SomeSuspend, 'resume': SomeResume, 'end': SomeEnd, 'run': SomeRun}.get(k)
        elif re.search(r'some_delegate_\w*action<', c) and f.n in ('suspend_future', 'resume_future'):
            k = 'add' if f.n[0] == 's' else 'remove'
            mk = lambda p, k=k: SomeAction(p, k)
        elif f.q in ('copp::some', 'copp::any', 'copp::all') and not c:
            k, mk = 'front', SomeFront
        elif re.search(r'some_delegate_\w*action<', c) and f.n == 'is_pending' and not 'generator' in c:
            k = 'ask'
            mk = lambda p: SomeAction(p, 'ask')
        if not k:
            continue
        n[k] += 1
        R.ob('C24.each' if k == 'run' else 'C24.attach', f.q, True, f.loc())
        jobs.append((lambda mk=mk: mk(p), f))
    for k, least in (('ready', 2), ('suspend', 2), ('resume', 2), ('end', 2), ('run', 3), ('add', 2), ('remove', 2), ('ask', 2), ('front', 3)):
        R.need('functions (%s)' % k, n[k], least)
    ds = R.explore(jobs)
    R.need('ends of functions', sum(d.get('n', 0) for d in ds), 30)
    R.need('futures followed', sum(d.get('els', 0) for d in ds), 10)


PROPS = {'C23': c23, 'C24': c24, 'C25': c25}
