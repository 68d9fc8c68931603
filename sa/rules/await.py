"""Waiting for a stackful task from a C++20 coroutine (C27)."""
from rules.promise import *
from rules.promise import fieldtypes, delegate, names_in, given, mgrcall, CALLERS, MGR
import re

AWT = r'cotask::task<.*>::stackful_task_awaitable$'
T_DONE = 4          # EN_TS_DONE


class Stackful(Prom):
    """base: what is known about the task waited for on a path"""
    merge_after = 400
    stop = (CALLERS, r'cotask::task::get_ret_code')

    def init(self, eng, st, fr):
        self.ref = ('f', THIS, [n for n, ty in fieldtypes(self.p, eng.top.cls) if ty.rstrip().endswith('*')][0])
        self.X = eng.load(st, self.ref)
        self.mine = ('f', THIS, self.n.caller)
        self.H, self.CP = delegate(eng, st, self.mine)
        return ()

    def see(self, eng, st):
        t = st.truth(self.X)
        if t is not None:
            self.set(st, 'task', t)
        for v in list(st.facts):
            for a in ([v] if v[0] == 'ald' else [x for x in v[2:] if isinstance(x, tuple) and x[0] == 'ald'] if v[0] == 'op' else ()):
                if not (contains(a[1], self.X) and 'status' in str(a[1][-1])):
                    continue
                t = st.cmp('<', a, ('c', T_DONE))
                if t is not None:
                    # a task that has ended stays so; that it has not is only as fresh as the last look
                    self.set(st, 'ended', not t or self.get(st, 'ended') is True)
                if st.cmp('<', ('c', T_DONE), a) is True:
                    self.set(st, 'failed', True)
                elif (st.cmp('<', ('c', T_DONE), a) is False and t is False) or all(st.cmp('==', a, ('c', x)) is False for x in (5, 6, 7)):
                    self.set(st, 'failed', False)
        t = st.truth(self.H)
        if t is not None:
            self.set(st, 'had', t)

    def event(self, eng, ev, st):
        self.see(eng, st)
        if ev.k in ('load', 'store') and getattr(ev, 'lv', None) and contains(ev.lv, ('d', self.X)) and self.get(st, 'task') is not True:
            self.bad(eng, self.rule, 'a task that may not exist is looked at', ev, st)
        if ev.k == 'call' and (ev.d.get('obj') is not None and contains(ev.obj, ('d', self.X))):
            self.data['looked'] += 1
            if self.get(st, 'task') is not True:
                self.bad(eng, self.rule, 'a task that may not exist is used', ev, st)


class SReady(Stackful):
    rule = 'C27.ready'

    def __init__(self, p):
        super().__init__(p, 'C27')
        self.data = dict(yes=0, no=0, looked=0)

    def event(self, eng, ev, st):
        super().event(eng, ev, st)
        if ev.k == 'user':
            self.bad(eng, self.rule, 'looking whether a task has ended runs user code', ev, st)

    def exit(self, eng, fr, st, kind, val):
        if kind != 'ret':
            return
        for want in (True, False):
            s = st.copy()
            t = s.truth(val)
            if t is None:
                s.assume(val, want)
            elif t != want:
                continue
            self.see(eng, s)
            self.data['yes' if want else 'no'] += 1
            if want and not (self.get(s, 'task') is False or self.get(s, 'ended') is True):
                self.bad(eng, self.rule, 'a coroutine does not wait for a task that has not ended', eng.top.loc(), s)
            if not want and not (self.get(s, 'task') is True and self.get(s, 'ended') is False):
                self.bad(eng, self.rule, 'a coroutine waits for a task that does not exist or has ended', eng.top.loc(), s)


class SSuspend(Stackful):
    rule = 'C27.suspend'

    def __init__(self, p):
        super().__init__(p, 'C27')
        self.data = dict(yes=0, no=0, looked=0)

    def init(self, eng, st, fr):
        super().init(eng, st, fr)
        self.C = ('p', 0, eng.top.params[0]['n'])
        st.assume(('op', '!=', self.C, C0), True)
        self.P = ('d', ('promise', self.C))
        self.cst = self.status(eng, st, self.P)
        self.cfl = self.flag(eng, st, self.P, WAITING)
        return ()

    def event(self, eng, ev, st):
        if self.has(st, 'gone') and ev.k in ('load', 'store') and (root(ev.lv) == THIS or contains(ev.lv, self.C) or contains(ev.lv, self.X)):
            self.bad(eng, self.rule, 'what may be gone after the coroutine went on is accessed', ev, st)
        super().event(eng, ev, st)
        t = self.below(st, self.cst, DONE)
        if t is not None:
            self.set(st, 'below', t)
        if ev.k == 'call' and ev.q.startswith(MGR + '::'):
            what = ev.q.split('::')[-1]
            if what == 'add_caller':
                H, P = given(eng, st, ev)
                if H != self.C:
                    self.bad(eng, self.rule, 'another coroutine than the one that waits is registered at the task', ev, st)
                if not contains(ev.obj, self.X):
                    self.bad(eng, self.rule, 'a coroutine is registered somewhere else than at the task it waits for', ev, st)
                if self.all(st, 'added'):
                    self.bad(eng, self.rule, 'a coroutine is registered twice at a task', ev, st)
                self.add(st, 'added')
        if ev.k == 'user':
            if ev.q.endswith('coroutine_handle::resume') and (ev.obj == self.C or eng.load(st, ev.obj) == self.C or contains(ev.obj, self.C)):
                if self.has(st, 'resumed') or self.has(st, 'added'):
                    self.bad(eng, self.rule, 'a coroutine that is registered or was resumed is resumed', ev, st)
                self.before(eng, ev, st)
                self.add(st, 'resumed')
            else:
                if self.has(st, 'added'):
                    self.waits(eng, ev, st)
        if ev.k == 'userend':
            self.add(st, 'gone')

    def before(self, eng, at, st):
        if delegate(eng, st, self.mine)[0] == self.C:
            self.bad(eng, self.rule, 'a coroutine that goes on is remembered as waiting', at, st)
        if self.flag(eng, st, self.P, WAITING) is True and self.cfl is not True:
            self.bad(eng, self.rule, 'a coroutine that goes on is marked as waiting', at, st)
        if self.get(st, 'task') is True and self.get(st, 'ended') is not True and self.get(st, 'below') is not False:
            self.bad(eng, self.rule, 'a coroutine does not wait although the task has not ended', at, st)

    def waits(self, eng, at, st):
        if self.flag(eng, st, self.P, WAITING) is not True:
            self.bad(eng, self.rule, 'a coroutine suspends without being marked as waiting', at, st)
        if delegate(eng, st, self.mine)[0] != self.C:
            self.bad(eng, self.rule, 'a coroutine suspends without being remembered as the caller', at, st)
        if self.get(st, 'below') is not True:
            self.bad(eng, self.rule, 'a coroutine that may have ended suspends', at, st)
        if self.get(st, 'ended') is not False:
            self.bad(eng, self.rule, 'a coroutine suspends without a look whether the task has ended', at, st)

    def exit(self, eng, fr, st, kind, val):
        if kind != 'ret':
            return
        L = eng.top.loc()
        t = True if val is None else st.truth(val)
        if t is None:
            self.bad(eng, self.rule, 'whether a coroutine suspends does not follow from what was done', L, st)
        elif self.has(st, 'resumed'):
            self.data['no'] += 1
            if t is False:
                self.bad(eng, self.rule, 'a coroutine goes on twice', L, st)
        elif t:
            self.data['yes'] += 1
            if not self.has(st, 'added'):
                self.bad(eng, self.rule, 'a coroutine suspends without being registered at the task', L, st)
            else:
                self.waits(eng, L, st)
        else:
            self.data['no'] += 1
            if self.has(st, 'added'):
                self.bad(eng, self.rule, 'a coroutine that goes on stays registered at the task', L, st)
            self.before(eng, L, st)


class SResume(Stackful):
    rule = 'C27.result'

    def __init__(self, p):
        super().__init__(p, 'C27')
        self.data = dict(looked=0, none=[], ended=[], killed=[], code=0)

    def init(self, eng, st, fr):
        super().init(eng, st, fr)
        self.CPd = ('d', self.CP)
        self.cfl = self.flag(eng, st, self.CPd, WAITING)
        return ()

    def event(self, eng, ev, st):
        super().event(eng, ev, st)
        if ev.k == 'branch':
            t = st.truth(self.CP)
            if t is not None:
                self.set(st, 'cp', t)
        if ev.k == 'call' and ev.q.startswith(MGR + '::'):
            what = ev.q.split('::')[-1]
            if what == 'remove_caller':
                H, P = given(eng, st, ev)
                if H != self.H or not contains(ev.obj, self.X):
                    self.bad(eng, 'C27.detach', 'another coroutine or another task is unregistered', ev, st)
                else:
                    self.add(st, 'removed')
            elif what in ('add_caller', 'resume_callers'):
                self.bad(eng, 'C27.detach', 'the end of waiting registers or resumes a coroutine', ev, st)
        if ev.k == 'user':
            self.bad(eng, 'C27.detach', 'user code runs while the end of waiting is recorded', ev, st)
        if ev.k == 'called' and ev.q.endswith('::get_ret_code') and contains(ev.obj, self.X):
            self.set(st, 'rc', ev.val)

    def exit(self, eng, fr, st, kind, val):
        if kind != 'ret':
            return
        self.see(eng, st)
        L = eng.top.loc()
        task, ended, failed = self.get(st, 'task'), self.get(st, 'ended'), self.get(st, 'failed')
        neg = val is not None and val[0] == 'c' and val[1] < 0
        rc = self.get(st, 'rc')
        if task is False:
            if not neg:
                self.bad(eng, self.rule, 'waiting for nothing gives no error', L, st)
            else:
                self.data['none'].append(val[1])
        elif ended is True and failed is not True:
            self.data['code'] += 1
            if failed is None or rc is None or val != rc:
                self.bad(eng, self.rule, 'waiting for a task that has ended does not give its return code', L, st)
        elif ended is True:
            if not neg:
                self.bad(eng, self.rule, 'waiting for a task that was ended gives no error', L, st)
            else:
                self.data['ended'].append(val[1])
        elif ended is False:
            if not neg:
                self.bad(eng, self.rule, 'the end of waiting for a task that goes on gives no error', L, st)
            else:
                self.data['killed'].append(val[1])
        else:
            self.bad(eng, self.rule, 'the result does not depend on whether the task has ended', L, st)
        # unregistered: a coroutine that waited was registered at a task
        had = self.get(st, 'had')
        if task is not False and had is not False:
            if not self.has(st, 'removed'):
                self.bad(eng, 'C27.detach', 'a coroutine that goes on stays registered at the task', L, st)
            if eng.load(st, ('f', self.mine, 'handle')) != C0:
                self.bad(eng, 'C27.detach', 'a coroutine that goes on is still remembered as waiting', L, st)
            if self.get(st, 'cp') is not False and self.flag(eng, st, self.CPd, WAITING) is not False:
                self.bad(eng, 'C27.detach', 'a coroutine that goes on stays marked as waiting', L, st)


class Front(Prom):
    """operator co_await: the awaiting object stands for the given task"""
    def __init__(self, p):
        super().__init__(p, 'C27')
        self.data = dict(made=0)

    def exit(self, eng, fr, st, kind, val):
        if kind != 'ret':
            return
        vs = [v for l, v in st.mem.items() if l[0] == 'f' and root(l)[0] in ('r', 't', 'v') and l[2] in self.fields]
        self.data['made'] += 1
        f = eng.top
        if f.cls and f.cls.startswith('cotask::task<'):
            ok = any(v == ('this',) or v == ('a', THIS) or v == eng.addr(THIS) for v in vs)
        else:
            ok = any(v[0] == 'ld' and contains(v, ('p', 0, f.params[0]['n'])) for v in vs)
        if not ok:
            self.bad(eng, 'C27.ready', 'the object that waits does not stand for the task that is awaited: %s' % [show(v) for v in vs], f.loc(), st)


def c27(R):
    R.rule('C27.ready', 'a coroutine goes on at once exactly if there is no task or the task has ended; the object that waits stands for the task that is awaited')
    R.rule('C27.suspend', 'a coroutine suspends only if it is marked, remembered and registered once at the task, after a look that the task has not ended; otherwise it goes on once and nothing is left registered')
    R.rule('C27.result', 'the result is the return code exactly if the task ended by itself, and otherwise an error that tells apart no task, a task that was ended, and a coroutine that was ended while it waited')
    R.rule('C27.detach', 'a coroutine that goes on is unmarked, forgotten and no longer registered')
    R.assume('A task and the coroutines that wait for it are used by one thread at a time (the record of waiting coroutines has no lock).')
    p = R.load()
    Names(p)
    for i, n in enumerate(('EN_TS_INVALID', 'EN_TS_CREATED', 'EN_TS_RUNNING', 'EN_TS_WAITING', 'EN_TS_DONE', 'EN_TS_CANCELED', 'EN_TS_KILLED', 'EN_TS_TIMEOUT')):
        if p.consts.get(n, i) != i:
            raise Broken('task status enumeration changed: %s' % n)
    byn = lambda n: [f for f in p.fns.values() if f.blocks and f.n == n and re.match(AWT, f.cls or '')]
    rd, su, rs = byn('await_ready'), byn('await_suspend'), byn('await_resume')
    fr = [f for f in p.fns.values() if f.blocks and f.n == 'operator co_await' and 'task_awaitable' not in (f.cls or '')
          and (re.match(r'cotask::task<', f.cls or '') or (f.params and 'intrusive_ptr' in f.params[0]['ty']))]
    for rule, fs in (('C27.ready', rd + fr), ('C27.suspend', su), ('C27.result', rs), ('C27.detach', rs)):
        for f in fs:
            R.ob(rule, f.q + ' ' + (f.cls or ''), True, f.loc())
    R.need('await_ready', len(rd), 1)
    R.need('await_suspend', len(su), 1)
    R.need('await_resume', len(rs), 1)
    R.need('operator co_await', len(fr), 1)
    Front.fields = [n for n, ty in fieldtypes(p, rd[0].cls) if ty.rstrip().endswith('*')]
    ds = R.explore([(lambda: SReady(p), f) for f in rd])
    R.need('answers of await_ready', sum(d['yes'] + d['no'] for d in ds), 2)
    ds = R.explore([(lambda: SSuspend(p), f) for f in su])
    R.need('paths that suspend', sum(d['yes'] for d in ds), 0)
    R.need('paths that go on', sum(d['no'] for d in ds), 0)
    ds = R.explore([(lambda: SResume(p), f) for f in rs])
    for f, d in zip(rs, ds):
        a, b, c = set(d['none']), set(d['ended']), set(d['killed'])
        R.ob('C27.result', f.q, not (a & b or a & c or b & c), f.loc(), 'errors of different reasons are the same: %s %s %s' % (sorted(a), sorted(b), sorted(c)), None, f.q)
    R.explore([(lambda: Front(p), f) for f in fr])


PROPS = {'C27': c27}
