"""C++20 coroutines: status of promises, callers, frames, futures of tasks, results of awaiting (C18..C22)."""
from rules.task import Facts, lname, walk_step, inelem
from rules.common import *

INVALID, CREATED, RUNNING, DONE, CANCEL, KILLED, TIMEOUT = range(7)
NAMES = ('kInvalid', 'kCreated', 'kRunning', 'kDone', 'kCancle', 'kKilled', 'kTimeout')
BASE = 'copp::promise_base_type'
MGR = 'copp::promise_caller_manager'
DESTROYING, FINAL, WAITING, RETURNED = 1, 2, 4, 8
FILES = re.compile(r'(callable_promise|generator_promise|task_promise|std_coroutine_common)\.(h|cpp)$')
HANDLE = re.compile(r'std::(__n4861::)?coroutine_handle::(resume|destroy|done|promise|operator\(\))')
CALLERS = MGR + r'::(add_caller|remove_caller|resume_callers|has_multiple_callers)'


class Names:
    """the fields of the base classes, found by their types"""
    def __init__(self, p):
        for i, n in enumerate(NAMES):
            if p.consts.get(n, i) != i:
                raise Broken('promise status enumeration changed: %s' % n)
        self.status = lname(p, BASE, lambda t: 'promise_status' in t, 'status')
        self.flags = lname(p, BASE, lambda t: t in ('uint32_t', 'unsigned int', 'std::uint32_t'), 'flags')
        self.wait = lname(p, BASE, lambda t: 'handle_delegate' in t, 'waiting handle')
        self.mgr = lname(p, BASE, lambda t: 'promise_caller_manager' in t and 'handle_delegate' not in t, 'caller manager')
        self.caller = lname(p, 'copp::awaitable_base_type', lambda t: 'handle_delegate' in t, 'caller')


def truthbit(st, v, bit):
    """is the bit of the word v set: True, False, None unknown"""
    if v[0] == 'c':
        return bool(v[1] & bit)
    if v[0] == 'op' and len(v) == 4 and v[1] in '|&':
        for m, x in ((v[3], v[2]), (v[2], v[3])):
            if m[0] == 'op' and m[1] == '~' and m[2][0] == 'c':
                m = ('c', ~m[2][1])
            if m[0] == 'c':
                if v[1] == '|':
                    return True if m[1] & bit else truthbit(st, x, bit)
                return truthbit(st, x, bit) if m[1] & bit else False
    for k, (lo, hi, ne) in st.facts.items():
        if k[0] == 'op' and len(k) == 4 and k[1] == '&' and v in (k[2], k[3]):
            m = k[3] if k[2] == v else k[2]
            if m[0] == 'c' and m[1] & bit:
                if lo == hi == 0:
                    return False
                t = st.truth(k)
                if m[1] == bit and t is not None:
                    return t
    return st.truth(('op', '&', v, ('c', bit)))


class Prom(Facts):
    throws = False
    stop = (CALLERS,)

    def __init__(self, p, pre=''):
        super().__init__()
        self.p, self.pre = p, pre
        self.n = Names(p)

    def statlv(self, P):
        return ('f', P, self.n.status)

    def flag(self, eng, st, P, bit):
        return truthbit(st, eng.load(st, ('f', P, self.n.flags)), bit)

    def status(self, eng, st, P):
        return eng.load(st, self.statlv(P))

    def isstat(self, lv):
        return lv[0] == 'f' and lv[2] == self.n.status

    def waiting(self, eng, st, P):
        a = self.flag(eng, st, P, WAITING)
        b = st.truth(eng.load(st, ('f', ('f', P, self.n.wait), 'handle')))
        if a or b:
            return True
        return False if a is False and b is False else None

    def promof(self, eng, st, H):
        """the promise of the coroutine the handle value H stands for"""
        if H[0] == 'ld' and H[1][0] == 'f' and H[1][2] == 'handle':
            v = eng.load(st, ('f', H[1][1], 'promise'))
            return ('d', v)
        return ('d', ('promise', H))

    def track(self, eng, ev, st):
        """facts that would be forgotten with the value they are about"""
        if ev.k == 'called' and ev.q.endswith('coroutine_handle::done'):
            self.set(st, 'done', (eng.load(st, ev.obj), ev.val))
        elif ev.k in ('branch', 'return'):
            d = self.get(st, 'done')
            if d is not None and d[1].__class__ is tuple and st.truth(d[1]) is not None:
                self.set(st, 'done', (d[0], st.truth(d[1])))

    def isdone(self, st, H=None):
        d = self.get(st, 'done')
        if d is None or H is not None and d[0] != H:
            return None
        return d[1] if d[1].__class__ is bool else st.truth(d[1])

    def below(self, st, v, k):
        """is the status v below k"""
        if v[0] == 'c':
            return v[1] < k
        return st.cmp('<', v, ('c', k))


# ---------------------------------------------------------------- C18 status
class Status(Prom):
    """any function that may change a status"""
    def __init__(self, p, pre='C18'):
        super().__init__(p, pre)
        self.data = dict(stores=0)

    def event(self, eng, ev, st):
        if ev.k == 'store' and self.isstat(ev.lv) and getattr(ev, 'init', None) is None:
            if eng.top.fk == 'ctor' and root(ev.lv) == THIS:
                return
            if root(ev.lv)[0] in ('t', 'v'):
                return
            self.data['stores'] += 1
            old, v = ev.d.get('old'), ev.val
            if old is None or self.below(st, old, DONE) is not True:
                self.bad(eng, 'C18.final', 'the status of a coroutine that may have a final one is changed', ev, st)
            elif v == ('c', DONE):
                if self.flag(eng, st, ev.lv[1], RETURNED) is not True:
                    self.bad(eng, 'C18.final', 'a coroutine becomes done that has not returned', ev, st)
            elif v == ('c', RUNNING):
                if not st.cmp('==', old, ('c', CREATED)):
                    self.bad(eng, 'C18.final', 'a coroutine that may have been started is started', ev, st)
            elif v[0] == 'c' and v[1] < DONE:
                self.bad(eng, 'C18.final', 'a coroutine goes back to %s' % NAMES[v[1]], ev, st)
            elif v[0] != 'c' and not (v[0] == 'ld' and self.isstat(v[1])) and self.below(st, v, DONE) is not False:
                self.bad(eng, 'C18.final', 'a coroutine gets a status that may not be final', ev, st)


class Kill(Prom):
    """kill / cancel / start of a future: refused without effect, or takes effect exactly once"""
    def __init__(self, p, f, pre='C18'):
        super().__init__(p, pre)
        self.fn = f
        self.data = dict(yes=0, no=0, resumed=0, quiet=0)

    def init(self, eng, st, fr):
        self.start = eng.top.n == 'start'
        self.force = C0
        self.target = None
        for i, x in enumerate(eng.top.params):
            if x['ty'] == 'bool':
                self.force = ('p', i, x['n'])
            elif 'promise_status' in x['ty']:
                self.target = ('p', i, x['n'])
        if self.start:
            self.force = C1
        return ()

    def event(self, eng, ev, st):
        k = ev.k
        self.track(eng, ev, st)
        if k == 'branch':
            if not self.all(st, 'set'):
                if self.reason(eng, st):
                    self.add(st, 'why')
            else:
                P = self.get(st, 'set')
                self.learn(eng, st, P)
        if k == 'lock':
            self.add(st, 'got')
        elif k == 'call' and ev.q.split('::')[-1] in ('try_lock', 'trylock'):
            self.add(st, 'try')
        elif k == 'store' and self.isstat(ev.lv) and root(ev.lv)[0] == 'd':
            if self.all(st, 'set'):
                self.bad(eng, 'C18.kill', 'the status is changed twice', ev, st)
            want = ('c', RUNNING) if self.start else self.target
            if want is not None and ev.val != want or want is None and ev.val not in (('c', CANCEL), ('c', KILLED)) or self.target is None and eng.top.n == 'cancel' and ev.val != ('c', CANCEL):
                self.bad(eng, 'C18.kill', '%s() sets another status than asked for' % eng.top.n, ev, st)
            if self.start and not st.cmp('==', ev.old, ('c', CREATED)):
                self.bad(eng, 'C18.kill', 'a coroutine that may have been started is started', ev, st)
            self.set(st, 'set', ev.lv[1])
            self.learn(eng, st, ev.lv[1])
        elif k == 'user' and HANDLE.fullmatch(ev.q):
            H = ev.val
            if not ev.q.endswith('resume'):
                self.bad(eng, 'C18.kill', '%s() destroys the coroutine' % eng.top.n, ev, st)
                return
            P = self.get(st, 'set')
            if self.all(st, 'res'):
                self.bad(eng, 'C18.kill', 'the coroutine is resumed twice', ev, st)
            elif P is None:
                self.bad(eng, 'C18.kill', 'the coroutine is resumed before its status is set', ev, st)
            else:
                if self.promof(eng, st, H) != P and self.promof(eng, st, H) != ('d', eng.load(st, P[1]) if is_lv(P[1]) else P[1]):
                    self.bad(eng, 'C18.kill', 'another coroutine than the one whose status was set is resumed', ev, st)
                for bit, what in ((RETURNED, 'has returned'), (DESTROYING, 'is being destroyed')):
                    if self.flag(eng, st, P, bit) is not False:
                        self.bad(eng, 'C18.kill', 'a coroutine that may be one that %s is resumed' % what, ev, st)
                if st.truth(self.force) is not True and self.waiting(eng, st, P) is not True:
                    self.bad(eng, 'C18.kill', 'a coroutine that may not be waiting is resumed without force', ev, st)
                if self.isdone(st, H) is not False:
                    self.bad(eng, 'C18.kill', 'a coroutine that may be at its end is resumed', ev, st)
            self.add(st, 'res')
            self.data['resumed'] += 1
        elif k == 'userend' and HANDLE.fullmatch(ev.q):
            self.add(st, 'after')

    def learn(self, eng, st, P):
        if st.truth(self.force) is False:
            self.add(st, 'noforce')
        if self.flag(eng, st, P, WAITING) is False:
            self.add(st, 'nowf')
        if st.truth(eng.load(st, ('f', ('f', P, self.n.wait), 'handle'))) is False:
            self.add(st, 'nowh')
        if self.flag(eng, st, P, RETURNED) or self.flag(eng, st, P, DESTROYING) or self.has(st, 'noforce') and self.has(st, 'nowf') and self.has(st, 'nowh'):
            self.add(st, 'norun')

    def reason(self, eng, st):
        """a reason to refuse known on this path"""
        if self.has(st, 'try') and not self.has(st, 'got'):
            return True
        if self.target is not None and self.below(st, self.target, DONE) is True:
            return True
        if self.isdone(st) is True:
            return True
        for v, (lo, hi, ne) in st.facts.items():
            if lo == hi == 0:
                s = v[1] if v[0] == 'ld' else None
                if s and s[0] == 'f' and (s[2] in ('promise', 'handle') or s[1] == THIS and ('ptr' in str(s[2]) or 'handle' in str(s[2]) or 'context' in str(s[2]))):
                    return True     # there is no coroutine
        for v in self.stats(st):
            if self.start and st.cmp('==', v, ('c', CREATED)) is False or not self.start and self.below(st, v, DONE) is False:
                return True
        return False

    def stats(self, st):
        r = set()
        for v in list(st.facts) + [x for k in st.rel for x in k[1:]]:
            if v[0] == 'ld' and self.isstat(v[1]):
                r.add(v)
            elif v[0] == 'op' and len(v) == 4:
                r |= {x for x in v[2:] if x[0] == 'ld' and self.isstat(x[1])}
        return r

    def exit(self, eng, fr, st, kind, val):
        if kind != 'ret' or val is None:
            return
        t = st.truth(val)
        if t is None:
            self.bad(eng, 'C18.kill', 'the result of %s() does not follow from what it did' % eng.top.n, eng.top.loc(), st)
        elif t:
            self.data['yes'] += 1
            if not self.all(st, 'set'):
                self.bad(eng, 'C18.kill', '%s() reports success without setting the status' % eng.top.n, eng.top.loc(), st)
            elif not self.all(st, 'res'):
                self.data['quiet'] += 1
                if self.all(st, 'set'):
                    self.learn(eng, st, self.get(st, 'set'))
                if not self.has(st, 'norun'):
                    self.bad(eng, 'C18.kill', '%s() does not resume a coroutine it has to' % eng.top.n, eng.top.loc(), st)
        else:
            self.data['no'] += 1
            if self.all(st, 'set') or self.all(st, 'res'):
                self.bad(eng, 'C18.kill', '%s() reports failure although it took effect' % eng.top.n, eng.top.loc(), st)
            elif not self.has(st, 'why') and not self.reason(eng, st):
                self.bad(eng, 'C18.kill', '%s() refuses without a reason' % eng.top.n, eng.top.loc(), st)


class Returns(Prom):
    """return_void / return_value of a promise"""
    stop = (CALLERS, r'cotask::task_context\w*::set_value')
    def __init__(self, p, pre='C18'):
        super().__init__(p, pre)
        self.data = dict(n=0, ctx=0)

    def init(self, eng, st, fr):
        self.by = [('v', 0, i, x['n']) for i, x in enumerate(eng.top.params)] + [('p', i, x['n']) for i, x in enumerate(eng.top.params)]
        self.old = self.status(eng, st, THIS)
        return ()

    def event(self, eng, ev, st):
        if ev.k == 'store' and self.isstat(ev.lv):
            self.add(st, 'stat', ev.val)
            self.data['ctx'] += 1
            if self.below(st, ev.old, DONE) is not True:
                self.bad(eng, 'C18.ret', 'returning changes a final status', ev, st)
        elif ev.k == 'store' and ev.lv == ('f', THIS, self.n.flags):
            if truthbit(st, ev.val, RETURNED):
                self.add(st, 'flag')
        elif ev.k == 'branch' and any(lo == hi == 0 and v[0] == 'ld' and THIS == root(v[1]) and v[1][2] not in (self.n.flags, self.n.status) for v, (lo, hi, ne) in st.facts.items()):
            self.add(st, 'noctx')
        elif ev.k == 'store' and root(ev.lv) == THIS and ev.lv[0] == 'f' and 'promise' in self.cls_of(eng) and ev.lv[2] not in (self.n.status, self.n.flags):
            self.note(st, 'val')
        elif ev.k == 'call' and ev.q.split('::')[-1] == 'set_value' and 'task_context' in ev.q:
            self.note(st, 'val')

    def cls_of(self, eng):
        return eng.top.cls

    def note(self, st, k):
        n = self.get(st, k) or 0
        self.set(st, k, min(2, n + 1))

    def exit(self, eng, fr, st, kind, val):
        if kind != 'ret':
            return
        self.data['n'] += 1
        L = eng.top.loc()
        if not self.has(st, 'flag'):
            self.bad(eng, 'C18.ret', 'a coroutine returns without being marked as returned', L, st)
        s = self.all(st, 'stat')
        if s != [('stat', ('c', DONE))] if s else self.below(st, self.old, DONE) is not False:
            self.bad(eng, 'C18.ret', 'a coroutine that returns does not become done exactly if it had no final status', L, st)
        want = 1
        if eng.top.n == 'return_void' and 'task' not in eng.top.cls:
            want = 0
        got = self.get(st, 'val') or 0
        if 'task' in eng.top.cls and got == 0 and self.has(st, 'noctx'):
            want = 0        # no context
        if got != want:
            self.bad(eng, 'C18.ret', 'the value returned is handed over %d times' % got, L, st)


class Look(Prom):
    """questions about the status, for every status"""
    WANT = {'is_exiting': {INVALID, DONE, CANCEL, KILLED, TIMEOUT}, 'is_canceled': {CANCEL}, 'is_faulted': {KILLED, TIMEOUT}, 'is_timeout': {TIMEOUT}}

    def __init__(self, p, s, pre='C18'):
        super().__init__(p, pre)
        self.s = s
        self.data = dict(n=0)

    def event(self, eng, ev, st):
        if ev.k == 'load' and self.isstat(ev.lv):
            st.assume(('op', '==', ev.val, ('c', self.s)), True)
            self.add(st, 'seen')
        self.track(eng, ev, st)
        if ev.k == 'branch':
            self.gone(st)

    def gone(self, st):
        for v, (lo, hi, ne) in st.facts.items():
            if lo == hi == 0 and v[0] == 'ld' and v[1][0] == 'f' and v[1][2] != self.n.flags and not self.isstat(v[1]):
                self.add(st, 'gone')
            if v[0] == 'op' and v[1] == '&' and v[2][0] == 'ld' and v[2][1][0] == 'f' and v[2][1][2] == self.n.flags and truthbit(st, v[2], RETURNED) is True:
                self.add(st, 'gone')

    def exit(self, eng, fr, st, kind, val):
        if kind != 'ret' or val is None:
            return
        s = self.s if self.has(st, 'seen') else INVALID
        if eng.top.n == 'get_status':
            ok = st.cmp('==', val, ('c', s))
        elif eng.top.n in self.WANT:
            ok = st.truth(val) is (s in self.WANT[eng.top.n])
        elif eng.top.n == 'is_completed':
            ok = True
            for w in (True, False):     # what is known if the answer is w
                x = st.copy()
                if x.assume(val, w) is False or x.truth(val) is (not w):
                    continue
                self.gone(x)
                ok = ok and w is (s in self.WANT['is_exiting'] and (self.isdone(x) is True or self.has(x, 'gone')))
        else:
            return
        self.data['n'] += 1
        if not ok:
            self.bad(eng, 'C18.look', '%s() does not tell the truth about a coroutine that is %s' % (eng.top.n, NAMES[s] if s is not None else '?'), eng.top.loc(), st)


class Ready(Prom):
    """is_ready of a callable: no coroutine, at its end, or returned"""
    def __init__(self, p, pre='C18'):
        super().__init__(p, pre)
        self.data = dict(n=0)

    def event(self, eng, ev, st):
        self.track(eng, ev, st)
        if ev.k == 'branch':
            for v, (lo, hi, ne) in st.facts.items():
                if lo == hi == 0 and v[0] == 'ld' and root(v[1]) == THIS and len(fields(v[1])) == 1:
                    self.add(st, 'none')
        self.ret(eng, st)

    def ret(self, eng, st):
        d = self.get(st, 'done')
        if d is not None:
            t = self.flag(eng, st, self.promof(eng, st, d[0]), RETURNED)
            if t is not None:
                self.set(st, 'ret', t)

    def exit(self, eng, fr, st, kind, val):
        if kind != 'ret' or val is None:
            return
        self.data['n'] += 1
        self.ret(eng, st)
        t, dn, ret, d = st.truth(val), self.isdone(st), self.get(st, 'ret'), self.get(st, 'done')
        if t is None and d is not None and (val == d[1] and ret is False or dn is False and contains(val, eng.load(st, ('f', self.promof(eng, st, d[0]), self.n.flags)))):
            return      # the answer is the one to the question left
        if not (self.has(st, 'none') or dn is True or ret is True if t else t is False and dn is False and ret is False):
            self.bad(eng, 'C18.look', 'is_ready() does not tell the truth', eng.top.loc(), st)


class Word(Prom):
    """the primitive operations on the status and the flags"""
    def __init__(self, p, cfg, pre='C18'):
        super().__init__(p, pre)
        self.cfg = cfg
        self.data = dict(n=0)

    def init(self, eng, st, fr):
        for k, v in self.cfg.items():
            for i, x in enumerate(eng.top.params):
                if k == i:
                    st.assume(('op', '==', ('p', i, x['n']), ('c', v)), True)
        self.fl = eng.load(st, ('f', THIS, self.n.flags))
        self.st0 = self.status(eng, st, THIS)
        return ()

    def event(self, eng, ev, st):
        if ev.k == 'store' and root(ev.lv)[0] != 'v' and root(ev.lv)[0] != 't':
            self.add(st, 'st', ev.lv, ev.val)

    def exit(self, eng, fr, st, kind, val):
        if kind != 'ret':
            return
        self.data['n'] += 1
        f, L = eng.top, eng.top.loc()
        S = [x[1:] for x in self.all(st, 'st')]
        if f.n == 'set_flag':
            bit = 1 << self.cfg[0]
            new = subst(eng.load(st, ('f', THIS, self.n.flags)), {('p', 0, f.params[0]['n']): ('c', self.cfg[0])})
            bad = [l for l, v in S if l != ('f', THIS, self.n.flags)]
            for b in (1, 2, 4, 8, 16):
                w = bool(self.cfg[1]) if b == bit else None
                t = self.bit(st, new, b)
                if t != (w if w is not None else ('same', b)):
                    bad.append(b)
            if bad:
                self.bad(eng, 'C18.word', 'setting or clearing a flag does not change exactly this flag', L, st)
        elif f.n == 'check_flag':
            val = subst(val, {('p', 0, f.params[0]['n']): ('c', self.cfg[0])})
            t = st.truth(val)
            b = truthbit(st, self.fl, 1 << self.cfg[0])
            if S or t is not b and not self.same(val, self.fl, 1 << self.cfg[0]):
                self.bad(eng, 'C18.word', 'a flag is not reported as it is', L, st)
        elif f.n == 'set_status':
            E = ('p', 1, f.params[1]['n'])
            mine = [v for l, v in S if l == self.statlv(THIS)]
            other = [(l, v) for l, v in S if l != self.statlv(THIS)]
            t = st.truth(val)
            isnull = st.truth(E) is False
            exp = ('ld', ('d', E), 0)
            eq = st.cmp('==', self.st0, exp)
            want = isnull or eq is True
            if want:
                ok = t is True and mine == [('p', 0, f.params[0]['n'])] and not other
            else:
                ok = t is False and eq is False and not mine and other == [(('d', E), self.st0)]
            if not ok:
                self.bad(eng, 'C18.word', 'the compare-and-set of the status does not do what its result says', L, st)

    def bit(self, st, v, b):
        if v == self.fl:
            return ('same', b)
        if v[0] == 'c':
            return bool(v[1] & b)
        if v[0] == 'op' and len(v) == 4 and v[1] in '|&^':
            for m, x in ((v[3], v[2]), (v[2], v[3])):
                if m[0] == 'c':
                    if v[1] == '|':
                        return True if m[1] & b else self.bit(st, x, b)
                    if v[1] == '&':
                        return self.bit(st, x, b) if m[1] & b else False
        return None

    def same(self, val, fl, b):
        """is val the bit b of fl"""
        while val[0] == 'op' and len(val) == 4 and val[1] == '!=' and C0 in val[2:]:
            val = val[3] if val[2] == C0 else val[2]
        return val in (('op', '&', fl, ('c', b)), ('op', '&', ('c', b), fl))


def own(p, rx):
    return [f for f in p.fns.values() if f.blocks and re.match(rx, f.cls or '')]


def closure(p, roots):
    """the functions that may reach one of roots"""
    calls = {}
    for f in p.fns.values():
        if not f.blocks:
            continue
        for nd in (f.nodes.values() if isinstance(f.nodes, dict) else f.nodes):
            g = nd.get('fn')
            if g:
                calls.setdefault(g['id'], set()).add(f.id)
    todo, seen = list(roots), set(roots)
    while todo:
        for c in calls.get(todo.pop(), ()):
            if c not in seen:
                seen.add(c)
                todo.append(c)
    return seen


def c18(R):
    R.rule('C18.final', 'no function changes a status that may be final; done only after the coroutine has returned, running only from created')
    R.rule('C18.kill', 'kill, cancel and start refuse without any effect, and only for a reason, or set the status asked for once and then resume the coroutine once exactly if it may be resumed')
    R.rule('C18.ret', 'returning marks the coroutine as returned, makes it done unless it has a final status, and hands its value over once')
    R.rule('C18.look', 'the questions about the status are answered truthfully for every status')
    R.rule('C18.word', 'setting, clearing and testing a flag concern exactly this flag; the compare-and-set of the status takes effect exactly if it says so')
    p = R.load()
    n = Names(p)
    word = [f for f in p.fns.values() if f.blocks and f.cls == BASE and f.n in ('set_status', 'set_flag', 'check_flag')]
    R.need('primitive operations', len({f.n for f in word}), 3)
    sets = [f.id for f in word if f.n == 'set_status']
    up = closure(p, sets)
    fs = [p.fns[i] for i in sorted(up) if i in p.fns and p.fns[i].blocks and i not in sets and FILES.search(p.fns[i].loc().split(':')[0])]
    ds = R.modular(lambda: Status(p), [f.id for f in fs])
    R.need('functions that may change a status', len(fs), 20)
    R.need('changes of a status', sum(d['stores'] for d in ds), 20)
    for f in fs:
        R.ob('C18.final', f.q + ' ' + f.cls, True, f.loc())
    fs = [f for f in p.fns.values() if f.blocks and f.n in ('kill', 'cancel', 'start') and re.match(r'copp::callable_future<|cotask::task_future_base<', f.cls)]
    R.need('operations that end or start a coroutine', len(fs), 6)
    ds = R.explore([(lambda f=f: Kill(p, f), f) for f in fs])
    for f, d in zip(fs, ds):
        R.need('outcomes of ' + f.n, min(d['yes'], d['no'], d['resumed']), 1)
        R.ob('C18.kill', f.q + ' ' + f.cls, True, f.loc())
    fs = [f for f in p.fns.values() if f.blocks and f.n in ('return_void', 'return_value') and re.match(r'copp::callable_promise_base<|cotask::task_promise_base<', f.cls)]
    R.need('ways to return', len(fs), 4)
    R.explore([(lambda: Returns(p), f) for f in fs])
    for f in fs:
        R.ob('C18.ret', f.q + ' ' + f.cls, True, f.loc())
    fs = [f for f in p.fns.values() if f.blocks and f.n in ('is_exiting', 'is_canceled', 'is_faulted', 'is_timeout', 'is_completed', 'get_status') and re.match(r'copp::callable_future<|cotask::task_(future|context)_base<|copp::promise_base_type$', f.cls)]
    R.need('questions', len(fs), 6)
    R.need('answers', sum(d['n'] for d in R.explore([(lambda s=s: Look(p, s), f) for f in fs for s in range(7)])), 40)
    for f in fs:
        R.ob('C18.look', f.q + ' ' + f.cls, True, f.loc())
    fs = [f for f in p.fns.values() if f.blocks and f.n == 'is_ready' and re.match(r'copp::callable_future<', f.cls)]
    R.explore([(lambda: Ready(p), f) for f in fs])
    for f in fs:
        R.ob('C18.look', f.q + ' ' + f.cls, True, f.loc())
    jobs = []
    for f in word:
        if f.n == 'set_flag':
            jobs += [(lambda c=(b, v): Word(p, {0: c[0], 1: c[1]}), f) for b in range(4) for v in (0, 1)]
        elif f.n == 'check_flag':
            jobs += [(lambda b=b: Word(p, {0: b}), f) for b in range(4)]
        else:
            jobs += [(lambda: Word(p, {}), f)]
        R.ob('C18.word', f.q, True, f.loc())
    R.explore(jobs)
    R.assume('a promise is used by one thread at a time (its status is a plain word)')



# ---------------------------------------------------------------- C19 callers
HD = 'handle'


def delegate(eng, st, lv):
    """(handle, promise) of the delegate at lv"""
    return eng.load(st, ('f', lv, 'handle')), eng.load(st, ('f', lv, 'promise'))


def names_in(v):
    r, todo = set(), [v]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            if x and x[0] == 'f' and len(x) == 3 and isinstance(x[2], str):
                r.add(x[2])
            todo += [y for y in x if isinstance(y, tuple)]
    return r


def pures(v):
    r, todo = [], [v]
    while todo:
        x = todo.pop()
        if x.__class__ is tuple:
            if x and x[0] == 'pure' and x[1] in ('size', 'begin', 'end'):
                r.append(x)
            todo += x
    return r


class Mgr(Prom):
    """base: the places a caller manager keeps callers in"""
    stop = ()

    def __init__(self, p, pre='C19'):
        super().__init__(p, pre)
        self.data = dict(n=0, acts=0)

    def where(self, eng, st, lv):
        """'one' the place of the single caller, 'set' the set, 'resuming' the set being walked, None elsewhere"""
        if lv is None or not isinstance(lv, tuple):
            return None
        b = lv
        while b and b[0] == 'f' and b[2] in ('handle', 'promise'):
            b = b[1]
        if b[0] == 'f' and b[1][0] == 'f' and b[1][1] == THIS and str(b[2]).startswith('get<'):
            return 'one' if 'handle_delegate>' == b[2].split('::')[-1] else 'set'
        if b[0] == 'f' and b[1] == THIS:
            return None
        if b[0] == 'd':
            v = b[1]
            for k in self.fields_of(eng):
                if eng.load(st, ('f', THIS, k)) == v:
                    return 'resuming'
            if v[0] == 'ld' and root(v[1]) == THIS:
                return 'resuming'
        return None

    def fields_of(self, eng):
        return [n for n, t in fieldtypes(self.p, MGR) if 'shared_ptr' in t]

    def holds(self, st, what):
        """does the variant hold the single caller / the set"""
        r = {}
        for v, (lo, hi, ne) in st.facts.items():
            if v[0] == 'pure' and v[1] == 'holds' and v[2] == ('ld', self.one()[1], 0):
                one = v[3][1].endswith('handle_delegate')
                t = st.truth(v)
                if t is not None:
                    r[one] = t
        if r.get(True) is False and r.get(False) is False:
            self.set(st, 'never', True)      # a variant holds one of its alternatives
        for k, t in r.items():
            if t:
                return k == (what == 'one')
        for k, t in r.items():
            return not (k == (what == 'one'))
        return None

    def one(self):
        c, = [n for n, t in fieldtypes(self.p, MGR) if 'variant' in t]
        return ('f', ('f', THIS, c), 'get<copp::promise_caller_manager::handle_delegate>')


class AddCaller(Mgr):
    def init(self, eng, st, fr):
        a = ('v', 0, 0, eng.top.params[0]['n'])
        self.D = delegate(eng, st, a)
        self.old = delegate(eng, st, self.one())
        return ()

    def event(self, eng, ev, st):
        self.track(eng, ev, st)
        k = ev.k
        if k == 'branch':
            if st.truth(self.D[0]) is False or self.isdone(st, self.D[0]):
                self.add(st, 'nothing')
            if self.isdone(st, self.D[0]) is False:
                self.add(st, 'alive')
            t = self.holds(st, 'one')
            if t is not None:
                self.set(st, 'holds', 'one' if t else 'set')
            t = st.truth(self.old[0])
            if t is not None:
                self.set(st, 'had', t)
        if k == 'store' and self.where(eng, st, ev.lv) == 'one' and ev.lv[-1] == 'handle':
            self.set(st, 'one', ev.val)
            if self.get(st, 'had') is not False:
                self.bad(eng, 'C19.add', 'a caller that is already there is overwritten', ev, st)
        elif k == 'store' and self.where(eng, st, ev.lv) == 'one':
            self.set(st, 'onep', ev.val)
        elif k == 'call' and ev.q.endswith('unordered_set::insert') or k == 'call' and ev.q.endswith('unordered_set::emplace'):
            for a in ev.args[:1]:
                self.add(st, 'in', ev.obj, delegate(eng, st, a))
        elif k == 'call' and ev.q.endswith('variant::emplace'):
            got = {x[2] for x in self.all(st, 'in') if any(x[1] == a for a in ev.args)}
            self.set(st, 'emp', frozenset(got))

    def exit(self, eng, fr, st, kind, val):
        if kind != 'ret':
            return
        self.data['n'] += 1
        L = eng.top.loc()
        emp, one = self.get(st, 'emp'), self.get(st, 'one')
        ins = {x[2] for x in self.all(st, 'in')}
        here = {x[2] for x in self.all(st, 'in') if self.where(eng, st, x[1]) == 'set'}
        if self.has(st, 'nothing'):
            if one or ins or emp:
                self.bad(eng, 'C19.add', 'a caller that is no coroutine or has ended is recorded', L, st)
            return
        self.data['acts'] += 1
        if not self.has(st, 'alive'):
            self.bad(eng, 'C19.add', 'a caller that may have ended is recorded', L, st)
        if emp is not None:
            if not {self.D, self.old} <= emp | here or one:
                self.bad(eng, 'C19.add', 'changing to several callers loses a caller', L, st)
        elif one is not None:
            if one != self.D[0] or self.get(st, 'onep') != self.D[1] or self.get(st, 'holds') != 'one':
                self.bad(eng, 'C19.add', 'another caller than the one given is recorded', L, st)
        elif self.D not in here or self.get(st, 'holds') != 'set':
            self.bad(eng, 'C19.add', 'a caller is not recorded', L, st)


def erased(x):
    return ('call', (x[1], x[2]), x[3])


class RemoveCaller(Mgr):
    def init(self, eng, st, fr):
        a = ('v', 0, 0, eng.top.params[0]['n'])
        self.D = delegate(eng, st, a)
        self.old = delegate(eng, st, self.one())
        self.res = eng.load(st, ('f', THIS, self.fields_of(eng)[0]))
        return ()

    def event(self, eng, ev, st):
        k = ev.k
        if k == 'branch':
            t = self.holds(st, 'one')
            if t is not None:
                self.set(st, 'holds', 'one' if t else 'set')
            self.eqs(st)
            t = st.truth(self.res)
            if t is not None:
                self.set(st, 'res', t)
        if k == 'store' and self.where(eng, st, ev.lv) == 'one' and ev.lv[-1] == 'handle':
            self.eqs(st)
            if ev.val != C0 or self.get(st, 'eq') is not True:
                self.bad(eng, 'C19.remove', 'another caller than the one given is removed', ev, st)
            self.add(st, 'took')
        elif k == 'call' and ev.q.endswith('unordered_set::erase'):
            w = self.where(eng, st, ev.obj)
            if not ev.args or delegate(eng, st, ev.args[0]) != self.D and ev.args[0] != self.D[0]:
                self.bad(eng, 'C19.remove', 'another caller than the one given is removed', ev, st)
            self.add(st, 'er', w, ('site', ev.fr.fid, ev.nid, ev.q))   # not the value itself: it is about to be produced again
        if k in ('branch', 'return'):
            for x in self.all(st, 'er'):
                t = st.truth(erased(x[2]))
                if t is not None:
                    self.add(st, 'erased', x[2], t)

    def eqs(self, st):
        t = st.cmp('==', self.old[0], self.D[0])
        if t is not None:
            self.set(st, 'eq', t)

    def exit(self, eng, fr, st, kind, val):
        if kind != 'ret' or self.get(st, 'never'):
            return
        self.data['n'] += 1
        L = eng.top.loc()
        ers = {x[1]: x[2] for x in self.all(st, 'er')}
        took = self.has(st, 'took')
        if self.get(st, 'res') is True and 'resuming' not in ers or self.get(st, 'res') is None:
            self.bad(eng, 'C19.remove', 'a caller that waits for its turn to be resumed is not removed', L, st)
        h = self.get(st, 'holds')
        if h == 'one' and self.get(st, 'eq') is None or h == 'one' and self.get(st, 'eq') and eng.load(st, ('f', self.one(), 'handle')) != C0:
            self.bad(eng, 'C19.remove', 'the single caller is not removed', L, st)
        if h != 'one' and 'set' not in ers:
            self.bad(eng, 'C19.remove', 'a caller is not removed from the set of callers', L, st)
        self.data['acts'] += 1
        t = st.truth(val)
        known = {x[1]: x[2] for x in self.all(st, 'erased')}
        for x in ers.values():
            if x not in known and st.truth(erased(x)) is not None:
                known[x] = st.truth(erased(x))
        took = took or any(known.values())
        left = [] if took and t else [x for x in ers.values() if x not in known]
        if t is None and len(left) == 1 and not took and contains(val, erased(left[0])):
            return
        if t is None or t != took or left:
            self.bad(eng, 'C19.remove', 'the result does not tell whether a caller was removed', L, st)


class ResumeCallers(Mgr):
    heads = True

    def init(self, eng, st, fr):
        self.old = delegate(eng, st, self.one())
        return ()

    def learn(self, eng, st):
        """the caller in hand is not to be resumed, and why"""
        c = self.get(st, 'cur')
        if c is None:
            return
        H, P = c
        if st.truth(H) is True:
            self.set(st, 'ok1', True)
        if self.isdone(st, H) is False:
            self.set(st, 'ok2', True)
        if st.truth(P) is False:
            self.set(st, 'ok3', True)
        else:
            t = self.flag(eng, st, ('d', P), DESTROYING)
            if t is False:
                self.set(st, 'ok3', True)
            if t is True:
                self.set(st, 'why', True)
        if st.truth(H) is False or self.isdone(st, H) is True:
            self.set(st, 'why', True)

    def take(self, eng, ev, st, c):
        self.drop(eng, ev, st)
        for k in ('ok1', 'ok2', 'ok3', 'why', 'ran'):
            self.set(st, k, None)
        self.set(st, 'cur', c)

    def drop(self, eng, ev, st):
        self.learn(eng, st)
        if self.get(st, 'cur') is not None and not self.get(st, 'ran') and not self.get(st, 'why'):
            self.bad(eng, 'C19.resume', 'a caller is taken out and not resumed', ev, st)

    def event(self, eng, ev, st):
        k = ev.k
        self.track(eng, ev, st)
        if k in ('branch', 'return'):
            t = self.holds(st, 'one')
            if t is not None:
                self.set(st, 'holds', 'one' if t else 'set')
            self.learn(eng, st)
        if self.has(st, 'resumed') and k not in ('call', 'called') and getattr(ev, 'lv', None) is not None and is_lv(ev.lv) and root(ev.lv) == THIS:
            self.bad(eng, 'C19.resume', 'the coroutine that may be gone after a caller was resumed is accessed', ev, st)
        if k == 'store' and self.where(eng, st, ev.lv) == 'one' and ev.lv[-1] == 'handle':
            if ev.val != C0:
                self.bad(eng, 'C19.resume', 'a caller is recorded while the callers are resumed', ev, st)
            self.take(eng, ev, st, self.old)
        elif k == 'call' and 'unordered_set::' in ev.q:
            op = ev.q.split('::')[-1]
            w = self.where(eng, st, ev.obj)
            if op in ('empty', 'size', 'begin', 'end'):
                self.set(st, 'empty', ev.obj)
            else:
                self.set(st, 'last', None)
            if self.has(st, 'resumed') and root(ev.obj) == THIS and not (ev.obj[0] == 'd'):
                self.bad(eng, 'C19.resume', 'the coroutine that may be gone after a caller was resumed is accessed', ev, st)
            if op == 'erase':
                if not self.has(st, 'walk', ev.obj):
                    self.bad(eng, 'C19.resume', 'a caller is dropped without being resumed', ev, st)
                a = ev.args[0] if ev.args else None
                it = eng.load(st, a) if a is not None and is_lv(a) else a
                c = (eng.load(st, ('f', ('d', ('elemof', it)), 'handle')), eng.load(st, ('f', ('d', ('elemof', it)), 'promise'))) if it is not None else None
                self.take(eng, ev, st, c)
            elif op == 'insert':
                if w == 'set':
                    self.bad(eng, 'C19.resume', 'callers are put back', ev, st)
                elif w == 'resuming' and len(ev.args) == 2:
                    self.add(st, 'walk', ev.obj)
                    self.add(st, 'moved')
            elif op in ('swap', 'merge', 'operator='):
                ws = [self.where(eng, st, x) for x in (ev.obj,) + tuple(ev.args) if x is not None]
                if 'set' in ws and 'resuming' in ws:
                    self.add(st, 'walk', [x for x in (ev.obj,) + tuple(ev.args) if self.where(eng, st, x) == 'resuming'][0])
                    self.add(st, 'moved')
                    self.add(st, 'cleared')
            elif op == 'clear' and w == 'set':
                if not self.has(st, 'moved'):
                    self.bad(eng, 'C19.resume', 'callers are dropped without being resumed', ev, st)
                self.add(st, 'cleared')
        elif k == 'user' and HANDLE.fullmatch(ev.q):
            self.learn(eng, st)
            c = self.get(st, 'cur')
            if not ev.q.endswith('resume'):
                self.bad(eng, 'C19.resume', 'a caller is destroyed', ev, st)
                return
            self.data['acts'] += 1
            if c is None or ev.val != c[0]:
                self.bad(eng, 'C19.resume', 'a coroutine is resumed that was not taken out of the callers before', ev, st)
                return
            if self.get(st, 'ran'):
                self.bad(eng, 'C19.resume', 'a caller is resumed twice', ev, st)
            for n, t in (('ok1', 'no coroutine'), ('ok2', 'at its end'), ('ok3', 'being destroyed')):
                if not self.get(st, n):
                    self.bad(eng, 'C19.resume', 'a caller that may be %s is resumed' % t, ev, st)
            if self.get(st, 'holds') != 'one' and not (self.has(st, 'moved') and self.has(st, 'cleared')):
                self.bad(eng, 'C19.resume', 'a caller is resumed before all were taken over', ev, st)
            self.set(st, 'ran', True)
            self.set(st, 'last', None)
            self.add(st, 'resumed')
        if k == 'branch':
            e = self.get(st, 'empty')
            for x in pures(ev.val):
                t = st.truth(('op', '==', x, C0)) if x[1] == 'size' else st.cmp('==', ('pure', 'begin') + x[2:], ('pure', 'end') + x[2:])
                if t is not None:
                    self.set(st, 'last', t and self.has(st, 'walk', e))

    def exit(self, eng, fr, st, kind, val):
        if kind != 'ret':
            return
        self.holds(st, 'one')
        if self.get(st, 'never'):
            return
        self.data['n'] += 1
        L = eng.top.loc()
        self.drop(eng, L, st)
        h = self.get(st, 'holds')
        if h == 'one':
            if self.get(st, 'cur') is None and st.truth(self.old[0]) is not False:
                self.bad(eng, 'C19.resume', 'the caller is not resumed', L, st)
        elif not self.has(st, 'moved') or not self.get(st, 'last'):
            self.bad(eng, 'C19.resume', 'callers are left over', L, st)


class Multi(Mgr):
    def event(self, eng, ev, st):
        if ev.k == 'branch':
            t = self.holds(st, 'one')
            if t is not None:
                self.set(st, 'holds', 'one' if t else 'set')

    def exit(self, eng, fr, st, kind, val):
        if kind != 'ret':
            return
        self.data['n'] += 1
        self.data['acts'] += 1
        t = self.holds(st, 'one')
        if t is not None:
            self.set(st, 'holds', 'one' if t else 'set')
        if self.get(st, 'never'):
            return
        ok = True
        for w in (False,):
            x = st.copy()
            if st.truth(val) is True or x.assume(val, False) is False:
                continue
            t = self.holds(x, 'one')
            ok = self.get(st, 'holds') == 'one' or t is True
        if not ok:
            self.bad(eng, 'C19.remove', 'several callers may go unnoticed', eng.top.loc(), st)


def mgrcall(ev, what):
    return ev.k == 'call' and ev.q == MGR + '::' + what


def given(eng, st, ev):
    """the delegate given to a manager operation"""
    a = ev.args[0]
    return delegate(eng, st, a) if is_lv(a) else (a, None)


class Suspend(Prom):
    """await_suspend"""
    def __init__(self, p, pre='C19'):
        super().__init__(p, pre)
        self.data = dict(yes=0, no=0, looked=0)

    def init(self, eng, st, fr):
        self.C = ('p', 0, eng.top.params[0]['n'])
        st.assume(('op', '!=', self.C, C0), True)
        self.P = ('d', ('promise', self.C))
        self.cst = self.status(eng, st, self.P)
        self.cfl = self.flag(eng, st, self.P, WAITING)
        self.cw = eng.load(st, ('f', ('f', self.P, self.n.wait), 'handle'))
        self.mine = ('f', THIS, self.n.caller)
        self.callee = None
        for f in self.fieldlist(eng):
            if 'coroutine_handle' in f[1]:
                self.callee = eng.load(st, ('f', THIS, f[0]))
                st.assume(('op', '!=', self.callee, C0), True)
        return ()

    def fieldlist(self, eng):
        return fieldtypes(self.p, eng.top.cls)

    def event(self, eng, ev, st):
        k = ev.k
        if k == 'branch':
            t = self.below(st, self.cst, DONE)
            if t is not None:
                self.set(st, 'below', t)
            for v, (lo, hi, ne) in st.facts.items():
                if lo == hi == 0 and v[0] == 'ld' and contains(v, THIS) and v[1][0] == 'f' and (v[1][1] == THIS or v[1][2] == 'promise'):
                    self.add(st, 'none')
        if k == 'call' and ev.q.startswith(MGR + '::'):
            what = ev.q.split('::')[-1]
            if what == 'add_caller':
                H, P = given(eng, st, ev)
                if H != self.C or P not in (('promise', self.C), None):
                    self.bad(eng, 'C19.await', 'another coroutine than the one that waits is registered as caller', ev, st)
                if contains(ev.obj, self.C):
                    self.bad(eng, 'C19.await', 'a caller is registered at itself', ev, st)
                elif self.callee is not None and not contains(ev.obj, self.callee):
                    self.bad(eng, 'C19.await', 'a caller is registered at another coroutine than the one it waits for', ev, st)
                if self.all(st, 'added'):
                    self.bad(eng, 'C19.await', 'a caller is registered twice', ev, st)
                self.add(st, 'added')
            elif what == 'remove_caller' and self.all(st, 'added'):
                self.bad(eng, 'C19.await', 'a caller is removed again', ev, st)
        if k == 'user' and self.has(st, 'added') and not self.all(st, 'pub'):
            self.add(st, 'pub')
            self.done_waiting(eng, ev, st)
        if self.has(st, 'pubend') and k in ('load', 'store') and (root(ev.lv) == THIS or contains(ev.lv, self.C)):
            self.bad(eng, 'C19.await', 'what may be gone after user code ran is accessed', ev, st)
        if k == 'userend' and self.has(st, 'pub'):
            self.add(st, 'pubend')

    def done_waiting(self, eng, at, st):
        if self.flag(eng, st, self.P, WAITING) is not True:
            self.bad(eng, 'C19.await', 'a coroutine suspends without being marked as waiting', at, st)
        H, P = delegate(eng, st, self.mine)
        if H != self.C:
            self.bad(eng, 'C19.await', 'a coroutine suspends without being remembered as the caller', at, st)
        if self.callee is not None:
            if eng.load(st, ('f', ('f', self.P, self.n.wait), 'handle')) != self.callee:
                self.bad(eng, 'C19.await', 'a coroutine suspends without knowing what it waits for', at, st)

    def exit(self, eng, fr, st, kind, val):
        if kind != 'ret' or val is None:
            return
        L = eng.top.loc()
        t = st.truth(val)
        if t is None:
            self.bad(eng, 'C19.await', 'whether a coroutine suspends does not follow from what was done', L, st)
        elif t:
            self.data['yes'] += 1
            if not self.has(st, 'added') and not self.has(st, 'none'):
                self.bad(eng, 'C19.await', 'a coroutine suspends without being registered as caller', L, st)
            if self.get(st, 'below') is not True:
                self.bad(eng, 'C19.await', 'a coroutine that may have ended suspends', L, st)
            if not self.has(st, 'pub'):
                self.done_waiting(eng, L, st)
        else:
            self.data['no'] += 1
            if self.has(st, 'added') or delegate(eng, st, self.mine)[0] == self.C or self.flag(eng, st, self.P, WAITING) is True and self.cfl is not True:
                self.bad(eng, 'C19.await', 'a coroutine that goes on stays registered', L, st)
            elif self.get(st, 'below') is not False and not self.has(st, 'none'):
                self.bad(eng, 'C19.await', 'a coroutine does not wait although it can', L, st)


def fieldtypes(p, cls):
    """(name, type) of the fields of a class and its bases; of the first matching class if cls is a prefix"""
    r, todo = [], [cls]
    if cls not in p.recs:
        todo = [k for k in sorted(p.recs) if k.startswith(cls + '<')][:1]
    while todo:
        k = todo.pop()
        if k in p.recs:
            r += [(f['n'], f['ty']) for f in p.recs[k]['fields']]
            todo += p.recs[k].get('bases', [])
    return r


class Detach(Prom):
    """await_resume"""
    def __init__(self, p, pre='C19'):
        super().__init__(p, pre)
        self.data = dict(had=0, none=0)

    def init(self, eng, st, fr):
        self.mine = ('f', THIS, self.n.caller)
        self.H, self.P = delegate(eng, st, self.mine)
        self.callee = None
        for f in fieldtypes(self.p, eng.top.cls):
            if 'coroutine_handle' in f[1]:
                self.callee = eng.load(st, ('f', THIS, f[0]))
                st.assume(('op', '!=', self.callee, C0), True)
        return ()

    def event(self, eng, ev, st):
        k = ev.k
        if k == 'branch':
            for n, v in (('h', self.H), ('p', self.P)):
                t = st.truth(v)
                if t is not None:
                    self.set(st, n, t)
            for v, (lo, hi, ne) in st.facts.items():
                if lo == hi == 0 and v[0] == 'ld' and contains(v, THIS) and v[1][0] == 'f' and self.n.caller not in names_in(v) and (v[1][1] == THIS or v[1][2] == 'promise'):
                    self.add(st, 'noctx')
        if k == 'call' and ev.q.startswith(MGR + '::'):
            what = ev.q.split('::')[-1]
            if what == 'remove_caller' and not self.has(st, 'ran'):
                H, P = given(eng, st, ev)
                if H == self.H and not contains(ev.obj, self.H):
                    self.add(st, 'removed')
            elif what == 'has_multiple_callers' and self.has(st, 'removed'):
                self.bad(eng, 'C19.detach', 'the number of callers is looked at after the caller was removed', ev, st)
        if k == 'store' and ev.lv[0] == 'f' and ev.lv[2] == self.n.flags and ev.lv[1] == ('d', self.P):
            if truthbit(st, ev.val, WAITING) is False:
                self.add(st, 'flag')
        if k == 'store' and ev.lv == ('f', ('f', ('d', self.P), self.n.wait), 'handle') and ev.val == C0:
            self.add(st, 'wait')
        if k == 'user' and HANDLE.fullmatch(ev.q) or k == 'user' and 'callback' in str(ev.d.get('obj', '')) and ev.q.startswith('std::function'):
            if not self.has(st, 'ran'):
                self.settled(eng, ev, st)
            self.add(st, 'ran')

    def settled(self, eng, at, st):
        h = self.get(st, 'h')
        if h is None:
            h = st.truth(self.H)
        if h is False:
            return
        pr = self.get(st, 'p')
        if pr is not False and not self.has(st, 'flag'):
            self.bad(eng, 'C19.detach', 'a caller goes on but stays marked as waiting', at, st)
        if self.callee is not None and pr is not False and not self.has(st, 'wait'):
            self.bad(eng, 'C19.detach', 'a caller goes on but still knows a coroutine it waited for', at, st)
        if not self.has(st, 'removed') and not self.has(st, 'noctx'):
            self.bad(eng, 'C19.detach', 'a caller goes on but stays registered', at, st)
        if eng.load(st, ('f', self.mine, 'handle')) != C0:
            self.bad(eng, 'C19.detach', 'a caller goes on but stays remembered', at, st)

    def exit(self, eng, fr, st, kind, val):
        if kind != 'ret':
            return
        self.data['had' if self.get(st, 'h') else 'none'] += 1
        if not self.has(st, 'ran'):
            self.settled(eng, eng.top.loc(), st)


class Final(Prom):
    """final_awaitable::await_suspend"""
    def __init__(self, p, pre='C19'):
        super().__init__(p, pre)
        self.data = dict(n=0, task=0)

    def init(self, eng, st, fr):
        self.C = ('p', 0, eng.top.params[0]['n'])
        st.assume(('op', '!=', self.C, C0), True)
        self.P = ('d', ('promise', self.C))
        self.task = 'task' in eng.top.cls
        self.strong = [f[0] for f in fieldtypes(self.p, 'cotask::task_promise_base') if 'shared_ptr' in f[1]] if self.task else []
        if self.task:
            self.ctx = [eng.load(st, ('f', self.P, x)) for x in self.strong]
            for c in self.ctx:
                st.assume(('op', '!=', c, C0), True)
        return ()

    def event(self, eng, ev, st):
        if ev.k in ('call', 'user', 'branch'):
            for x in self.strong:
                if eng.load(st, ('f', self.P, x)) == C0:
                    self.add(st, 'gave', x)
        elif ev.k in ('store', 'boxset', 'boxmove') and getattr(ev, 'lv', None) is not None and ev.lv[0] == 'f' and ev.lv[2] in self.strong and ev.val != C0:
            self.rm(st, 'gave')
        if mgrcall(ev, 'resume_callers'):
            if self.has(st, 'told'):
                self.bad(eng, 'C19.final', 'the callers are resumed twice', ev, st)
            self.add(st, 'told')
            self.data['n'] += 1
            if self.flag(eng, st, self.P, FINAL) is not True:
                self.bad(eng, 'C19.final', 'callers are resumed before the coroutine is marked as being at its end', ev, st)
            if root(ev.obj) != root(self.P) or not contains(ev.obj, self.C):
                self.bad(eng, 'C19.final', 'the callers of another coroutine are resumed', ev, st)
            if self.task:
                self.data['task'] += 1
                for x, c in zip(self.strong, self.ctx):
                    if not self.has(st, 'gave', x):
                        self.bad(eng, 'C19.final', 'the coroutine still owns its context when its callers are resumed', ev, st)
                if self.has(st, 'lost'):
                    self.bad(eng, 'C19.final', 'the context may be gone when the callers are resumed', ev, st)
                if not self.has(st, 'mgr'):
                    self.bad(eng, 'C19.final', 'the callers are resumed before the task has left its manager', ev, st)
        elif ev.k == 'boxdrop' and self.task and ev.val in self.ctx and not self.has(st, 'told'):
            if not any(v == ev.val for l, v in st.mem.items() if l[0] in ('v', 't') and l != ev.lv):
                self.add(st, 'lost')
        elif ev.k in ('load', 'store') and self.has(st, 'told') and contains(ev.lv, self.C) and root(ev.lv)[0] == 'd':
            self.bad(eng, 'C19.final', 'the coroutine that may be gone after its callers were resumed is accessed', ev, st)
        if ev.k == 'store' and self.task and ev.lv[0] == 'f' and ev.lv[1][0] == 'd' and ev.lv[1][1] in self.ctx and 'manager' in str(ev.lv[2]) and ev.val == C0:
            self.add(st, 'mgr')

    def exit(self, eng, fr, st, kind, val):
        if kind == 'ret' and not self.has(st, 'told'):
            self.bad(eng, 'C19.final', 'the callers are not resumed', eng.top.loc(), st)


class Inherit(Prom):
    """promise_base_type::remove_caller and resume_waiting"""
    stop = (CALLERS,)

    def __init__(self, p, pre='C19'):
        super().__init__(p, pre)
        self.data = dict(n=0)

    def init(self, eng, st, fr):
        self.D = delegate(eng, st, ('v', 0, 0, eng.top.params[0]['n']))
        self.how = ('p', 1, eng.top.params[1]['n'])
        self.own = self.status(eng, st, THIS)
        self.his = self.status(eng, st, ('d', self.D[1]))
        self.W = delegate(eng, st, ('f', THIS, self.n.wait))
        return ()

    def event(self, eng, ev, st):
        k = ev.k
        self.track(eng, ev, st)
        if eng.top.n == 'resume_waiting':
            return self.waitev(eng, ev, st)
        if k == 'called' and ev.q == MGR + '::remove_caller':
            if given(eng, st, ev) != self.D or root(ev.obj) != THIS:
                self.bad(eng, 'C19.inherit', 'another caller than the one given is removed', ev, st)
            self.set(st, 'rm', ev.val)
        elif k == 'branch':
            self.look(st)
        elif k == 'store' and self.isstat(ev.lv):
            self.look(st)
            self.data['n'] += 1
            if ev.lv != self.statlv(THIS) or ev.val != self.his:
                self.bad(eng, 'C19.inherit', 'another status than that of the caller is inherited', ev, st)
            elif not (self.has(st, 'took') and self.has(st, 'how') and self.has(st, 'own') and self.has(st, 'his')):
                self.bad(eng, 'C19.inherit', 'a status is inherited that must not be', ev, st)
            self.add(st, 'set')

    def look(self, st):
        for n, t in (('took', st.truth(self.get(st, 'rm') or C0)), ('how', st.truth(self.how)), ('own', self.below(st, self.own, DONE)),
                     ('his', None if self.below(st, self.his, DONE + 1) is None else not self.below(st, self.his, DONE + 1)), ('pr', st.truth(self.D[1]))):
            if t is not None:
                self.add(st, n if t else 'no' + n)

    def waitev(self, eng, ev, st):
        k = ev.k
        if k == 'branch':
            for n, v in (('w', self.W[0]), ('c', self.D[0])):
                t = st.truth(v)
                if t is not None:
                    self.set(st, n, t)
                t = self.isdone(st, v)
                if t is not None:
                    self.set(st, n + 'd', t)
            t = self.flag(eng, st, THIS, WAITING)
            if t is not None:
                self.set(st, 'wf', t)
            t = st.truth(self.W[1])
            if t is not None:
                self.set(st, 'wp', t)
        elif k == 'call' and ev.q == MGR + '::remove_caller':
            if contains(ev.obj, self.W[1]) and given(eng, st, ev) == self.D:
                self.add(st, 'rm')
        elif k == 'user' and HANDLE.fullmatch(ev.q):
            self.data['n'] += 1
            if self.has(st, 'ran') or not ev.q.endswith('resume'):
                self.bad(eng, 'C19.waiting', 'more than one coroutine is resumed or destroyed', ev, st)
            elif ev.val == self.W[0]:
                if not self.get(st, 'w') or self.get(st, 'wd') is not False:
                    self.bad(eng, 'C19.waiting', 'a coroutine that may be at its end is resumed', ev, st)
                if eng.load(st, ('f', ('f', THIS, self.n.wait), 'handle')) != C0:
                    self.bad(eng, 'C19.waiting', 'the coroutine waited for is resumed while it is still recorded', ev, st)
                if self.get(st, 'wp') is not False and not self.has(st, 'rm'):
                    self.bad(eng, 'C19.waiting', 'the coroutine resumed would resume this one again', ev, st)
            elif ev.val == self.D[0]:
                if not self.get(st, 'c') or self.get(st, 'cd') is not False or not self.get(st, 'wf'):
                    self.bad(eng, 'C19.waiting', 'a coroutine that may not be waiting is resumed', ev, st)
            else:
                self.bad(eng, 'C19.waiting', 'another coroutine is resumed', ev, st)
            self.add(st, 'ran')
        elif k in ('load', 'store') and self.has(st, 'ran') and root(ev.lv) == THIS:
            self.bad(eng, 'C19.waiting', 'the coroutine that may be gone is accessed', ev, st)

    def exit(self, eng, fr, st, kind, val):
        if kind != 'ret':
            return
        if eng.top.n == 'resume_waiting':
            w = self.get(st, 'w') and self.get(st, 'wd') is False
            c = self.get(st, 'c') and self.get(st, 'cd') is False and self.get(st, 'wf')
            if not self.has(st, 'ran') and (w or c):
                self.bad(eng, 'C19.waiting', 'a coroutine that is waiting is not resumed', eng.top.loc(), st)
            return
        self.look(st)
        if self.get(st, 'rm') is None:
            self.bad(eng, 'C19.inherit', 'the caller is not removed', eng.top.loc(), st)
        elif not self.has(st, 'set') and not any(self.has(st, 'no' + x) for x in ('took', 'how', 'own', 'his', 'pr')):
            self.bad(eng, 'C19.inherit', 'the status of a caller that was killed is not inherited', eng.top.loc(), st)


def c19(R):
    R.rule('C19.add', 'adding a caller records it exactly if it is a coroutine that has not ended, and keeps those already recorded')
    R.rule('C19.remove', 'removing a caller takes exactly this one out, wherever it waits, and tells whether it was there; several callers are never reported as one')
    R.rule('C19.resume', 'resuming callers takes each out before it is resumed, resumes each once unless it has ended or is being destroyed, leaves none over, and touches nothing of the coroutine afterwards')
    R.rule('C19.await', 'a coroutine suspends exactly if it was registered: marked as waiting, remembered and recorded as a caller once before anything else may run; otherwise nothing is left registered')
    R.rule('C19.detach', 'a coroutine that goes on is unmarked, forgotten and no longer recorded before anything else may run')
    R.rule('C19.final', 'a coroutine at its end is marked first, then resumes its callers once; a task gives up its context and manager before, keeps the context alive meanwhile, and touches nothing of the coroutine afterwards')
    R.rule('C19.inherit', 'only the final failure status of a caller that was really removed is inherited, by a coroutine that has none')
    R.rule('C19.waiting', 'the coroutine waited for is resumed at most once, only when it can be, and cannot resume the waiting one again')
    p = R.load()
    Names(p)
    def fns(rx, names):
        return [f for f in p.fns.values() if f.blocks and f.n in names and re.match(rx, f.cls or '')]
    def run(rule, mk, fs, key=None, least=1):
        ds = R.explore([(mk, f) for f in fs])
        for f, d in zip(fs, ds):
            if key:
                R.need('%s cases of %s' % (rule, f.n), d[key], least)
            R.ob(rule, f.q + ' ' + f.cls, True, f.loc())
        return ds
    m = r'copp::promise_caller_manager$'
    for n in ('add_caller', 'remove_caller', 'resume_callers', 'has_multiple_callers'):
        R.need('manager operations ' + n, len(fns(m, (n,))), 1)
    run('C19.add', lambda: AddCaller(p), fns(m, ('add_caller',)), 'acts', 1)
    run('C19.remove', lambda: RemoveCaller(p), fns(m, ('remove_caller',)), 'acts', 1)
    run('C19.resume', lambda: ResumeCallers(p), fns(m, ('resume_callers',)), 'n', 1)
    run('C19.remove', lambda: Multi(p), fns(m, ('has_multiple_callers',)), 'n', 1)
    aw = r'copp::(callable|generator)_awaitable(_base)?<|cotask::task_awaitable(_base)?<'
    fs = fns(aw, ('await_suspend',))
    R.need('awaitables that suspend', len(fs), 6)
    run('C19.await', lambda: Suspend(p), fs)
    fs = fns(aw, ('await_resume',))
    R.need('awaitables that resume', len(fs), 6)
    run('C19.detach', lambda: Detach(p), fs)
    fs = [f for f in p.fns.values() if f.blocks and f.n == 'await_suspend' and 'final_awaitable' in f.cls]
    R.need('ends of coroutines', len(fs), 3)
    run('C19.final', lambda: Final(p), fs)
    fs = [f for f in fns(r'copp::promise_base_type$', ('remove_caller',)) if 'handle_delegate' in f.params[0]['ty']]
    R.need('status inheritance', len(fs), 1)
    run('C19.inherit', lambda: Inherit(p), fs)
    fs = [f for f in fns(r'copp::promise_base_type$', ('resume_waiting',)) if 'handle_delegate' in f.params[0]['ty']]
    R.need('resuming what is waited for', len(fs), 1)
    run('C19.waiting', lambda: Inherit(p), fs)
    R.assume('a promise is used by one thread at a time')


# ---------------------------------------------------------------- C20 frames
class Frames(Prom):
    """operations that take over, give up or end coroutine frames: constructors, assignment and destructors of futures and contexts.
    null: the handle of the object itself is null at entry; nullo: that of the other one"""
    stop = (CALLERS,)
    heads = True

    def __init__(self, p, field, null=False, nullo=False, pre='C20'):
        super().__init__(p, pre)
        self.field, self.null, self.nullo = field, null, nullo
        self.data = dict(n=0, destroyed=0, resumed=0, handed=0)

    def pair(self, eng, st, lv):
        """(handle, promise lvalue) of the coroutine an object holds"""
        if self.task:
            h = eng.load(st, ('f', lv, 'handle'))
            return h, eng.load(st, ('f', lv, 'promise'))
        h = eng.load(st, lv)
        return h, ('promise', h)

    def init(self, eng, st, fr):
        f = eng.top
        self.task = 'handle_delegate' in dict(fieldtypes(self.p, f.cls))[self.field]
        self.slots, self.own, self.P = [], [], {}
        me = ('f', THIS, self.field)
        if f.fk != 'dtor':
            self.slots.append(me)
        ps = f.params
        oth = None
        if f.fk != 'ctor':
            self.take(eng, st, me, self.null)
        for i, x in enumerate(ps):
            if x.get('isref') and re.sub(r'^const |[& ]+$', '', x['ty']) == f.cls:
                if self.nullo == 'self':
                    st.mem[('v', 0, x['v'], x['n'])] = ('a', THIS)
                    continue
                oth = ('f', ('d', ('p', i, x['n'])), self.field)
                self.slots.append(oth)
                st.assume(('op', '==', ('p', i, x['n']), ('this',)), False)
                self.take(eng, st, oth, self.nullo)
            elif 'coroutine_handle' in x['ty'] or 'handle_delegate' in x['ty']:
                v = eng.load(st, ('v', 0, x['v'], x['n']))
                if v[0] in ('p', 'ld'):
                    self.own.append(v)
                    st.assume(('op', '!=', v, C0), True)
                    self.P[v] = ('promise', v)
        return ()

    def take(self, eng, st, lv, null):
        h, pr = self.pair(eng, st, lv)
        st.assume(('op', '!=', h, C0), not null)
        if self.task:
            st.assume(('op', '!=', pr, C0), not null)
        if not null:
            self.own.append(h)
            self.P[h] = pr

    def stable(self, st):
        """user code changes the handles of these objects only through operations that keep the rule themselves"""
        ls = self.slots + [('f', THIS, self.field)]
        return [('f', l, x) for l in ls for x in ('handle', 'promise')] if self.task else ls

    def learn(self, eng, st):
        for h in self.own:
            P = ('d', self.P[h])
            if self.isdone(st, h) is True or self.flag(eng, st, P, RETURNED) is True:
                self.add(st, 'fin', h)
            if self.isdone(st, h) is False:
                self.add(st, 'notdone', h)
            if self.flag(eng, st, P, RETURNED) is False:
                self.add(st, 'notret', h)
            if self.below(st, self.status(eng, st, P), DONE) is False:
                self.add(st, 'killed', h)

    def held(self, st, h):
        return [l for l, v in st.mem.items() if v == h and l[0] == 'f' and (l[-1] == self.field or l[-1] == 'handle' and l[1][0] == 'f' and l[1][-1] == self.field)]

    def event(self, eng, ev, st):
        self.track(eng, ev, st)
        k = ev.k
        if k in ('branch', 'store'):
            self.learn(eng, st)
        if k == 'user':
            self.kept = [(l, eng.load(st, l)) for l in self.stable(st)]
            self.set(st, 'kept', tuple(self.kept))
        elif k == 'userend':
            for l, v in self.get(st, 'kept') or ():
                st.mem[l] = v
        if k == 'user' and HANDLE.fullmatch(ev.q):
            self.learn(eng, st)
            h = ev.val
            if h not in self.own:
                if st.truth(h) is not False or True:
                    self.bad(eng, 'C20.one', 'a coroutine that is not held by this object is resumed or destroyed', ev, st)
                return
            if self.has(st, 'gone', h):
                self.bad(eng, 'C20.end', 'a coroutine is used after it has been destroyed', ev, st)
            if ev.q.endswith('resume'):
                self.data['resumed'] += 1
                if not self.has(st, 'killed', h):
                    self.bad(eng, 'C20.push', 'a coroutine is resumed to end it without being told that it was killed', ev, st)
                if self.has(st, 'fin', h) or not self.has(st, 'notdone', h) or not self.has(st, 'notret', h):
                    self.bad(eng, 'C20.push', 'a coroutine that may have ended is resumed', ev, st)
                self.rm(st, 'notdone', 'notret')
                self.set(st, 'done', None)
            elif ev.q.endswith('destroy'):
                self.data['destroyed'] += 1
                if not self.has(st, 'fin', h):
                    self.bad(eng, 'C20.end', 'a coroutine is destroyed before it has ended', ev, st)
                if self.flag(eng, st, ('d', self.P[h]), DESTROYING) is not True:
                    self.bad(eng, 'C20.end', 'a coroutine is destroyed without being marked', ev, st)
                if self.held(st, h) or any(eng.load(st, ('f', s, 'handle') if self.task else s) == h for s in self.slots + [('f', THIS, self.field)]):
                    self.bad(eng, 'C20.end', 'a coroutine is destroyed while an object still holds it', ev, st)
                self.add(st, 'gone', h)
        elif k in ('load', 'store') and ev.lv[0] == 'f':
            for x in self.all(st, 'gone'):
                if contains(ev.lv, ('d', self.P[x[1]])):
                    self.bad(eng, 'C20.end', 'a coroutine is accessed after it has been destroyed', ev, st)

    def exit(self, eng, fr, st, kind, val):
        if kind not in ('ret', 'end'):
            return
        self.data['n'] += 1
        L = eng.top.loc()
        vals = [eng.load(st, ('f', s, 'handle') if self.task else s) for s in self.slots]
        for h in self.own:
            n = sum(v == h for v in vals) + self.has(st, 'gone', h)
            if n != 1 and st.truth(h) is not False:
                self.bad(eng, 'C20.one', 'a coroutine is %s' % ('lost' if n == 0 else 'held or destroyed more than once'), L, st)
            elif not self.has(st, 'gone', h):
                self.data['handed'] += 1
            elif self.nullo == 'self' and st.truth(h) is not False:
                self.bad(eng, 'C20.one', 'an object assigned to itself loses its coroutine', L, st)
        for v in vals:
            if v not in self.own and st.truth(v) is not False:
                self.bad(eng, 'C20.one', 'an object is left with a coroutine nobody gave it', L, st)


class Link(Prom):
    """how a coroutine gets bound to its future: delegates, the object returned to the caller, the first suspension"""

    def __init__(self, p, fut, created=None):
        super().__init__(p, 'C20')
        self.fut, self.created, self.data = fut, created, dict(n=0)

    def init(self, eng, st, fr):
        f = eng.top
        self.status0 = None
        if f.n == 'await_resume':
            h = eng.load(st, ('f', THIS, 'handle'))
            self.status0 = self.status(eng, st, ('d', ('promise', h)))
            st.assume(('op', '==', self.status0, ('c', CREATED)), self.created)
            self.h = h
        return ()

    def exit(self, eng, fr, st, kind, val):
        if kind not in ('ret', 'end'):
            return
        f, L = eng.top, eng.top.loc()
        self.data['n'] += 1
        bad = lambda m: self.bad(eng, 'C20.link', m, L, st)
        if 'handle_delegate' in (f.cls or '') and 'hash' not in f.cls:
            me = (eng.load(st, ('f', THIS, 'handle')), eng.load(st, ('f', THIS, 'promise')))
            x = f.params[0]
            if 'nullptr_t' in x['ty']:
                want = (C0, C0)
            elif 'coroutine_handle' in x['ty']:
                h = self.orig(eng, st, x)
                want = (h, C0 if st.truth(h) is False else ('promise', h))
            else:
                o = ('d', ('p', 0, x['n']))
                want = (('ld', ('f', o, 'handle'), 0), ('ld', ('f', o, 'promise'), 0))
            if me[0] != want[0] and not (want[0] != C0 and st.truth(want[0]) is False and st.truth(me[0]) is False):
                bad('a coroutine is recorded under the wrong handle')
            if me[1] != want[1] and me[1] != ('a', ('d', want[1])):
                bad('a coroutine is recorded with a promise that is not its own')
        elif f.n == 'get_return_object':
            r = val if val and val[0] == 'r' else ('r', 0)
            if self.fut == 'current_handle_':
                if eng.load(st, ('f', r, self.fut)) != ('hp', ('this',)):
                    bad('the future returned to the caller does not hold the new coroutine')
            elif eng.load(st, ('f', r, self.fut)) != eng.load(st, ('f', THIS, 'context_strong_ref_')):
                bad('the task returned to the caller does not hold the context of the new coroutine')
        elif f.n == 'await_ready':
            if val != C0:
                bad('a new coroutine does not stop where it is bound to its future')
        elif f.n == 'await_suspend':
            h = ('p', 0, f.params[0]['n'])
            if eng.load(st, ('f', THIS, 'handle')) != h:
                bad('a new coroutine is started under the wrong handle')
            if self.fut == 'current_handle_':
                if val != C0:
                    bad('a new callable does not run at once')
                return
            if val not in (None, C1):
                bad('a new task runs before it has been started')
            ctx = eng.load(st, ('f', ('d', ('promise', h)), 'context_strong_ref_'))
            if st.truth(ctx) is not False:
                c = ('f', ('d', ctx), 'current_handle_')
                if (eng.load(st, ('f', c, 'handle')), eng.load(st, ('f', c, 'promise'))) not in ((h, ('promise', h)), (h, ('a', ('d', ('promise', h))))):
                    if st.truth(h) is not False:
                        bad('the context of a new task is not told about its coroutine')
        elif f.n == 'await_resume':
            now = self.status(eng, st, ('d', ('promise', self.h)))
            if self.created:
                if now != ('c', RUNNING):
                    bad('a coroutine that starts to run is not marked as running')
            elif now != self.status0 and st.cmp('==', now, self.status0) is not True:
                bad('a coroutine that has been ended before its start changes its status')

    def orig(self, eng, st, x):
        return ('ld', ('d', ('p', 0, x['n'])), 0) if x.get('isref') else ('p', 0, x['n'])


class Same(Prom):
    """two delegates are the same exactly if they have the same handle, and the same handle hashes the same"""

    def __init__(self, p, eq=None):
        super().__init__(p, 'C20')
        self.eq, self.data = eq, dict(n=0)

    def init(self, eng, st, fr):
        f = eng.top
        self.hs = [eng.load(st, ('f', ('d', ('p', i, x['n'])), 'handle')) for i, x in enumerate(f.params)]
        if self.eq is not None:
            st.assume(('op', '==', *self.hs), self.eq)
        return ()

    def exit(self, eng, fr, st, kind, val):
        self.data['n'] += 1
        L = eng.top.loc()
        if self.eq is None:
            ls = [v for v in lds(val) if v[1][-1] == 'promise']
            if ls or not any(contains(val, h) for h in self.hs):
                self.bad(eng, 'C20.same', 'the hash of a coroutine does not depend on its handle alone', L, st)
            return
        t = st.truth(val)
        if t is not (self.eq == (eng.top.n == 'operator==')):
            self.bad(eng, 'C20.same', 'coroutines are taken for %s' % ('different though they are the same' if self.eq else 'the same though they are different'), L, st)


def lds(v):
    if isinstance(v, tuple):
        if v and v[0] == 'ld':
            yield v
        for x in v:
            yield from lds(x)


def c20(R):
    R.rule('C20.one', 'after every operation each coroutine frame is held by exactly one object or has been destroyed once')
    R.rule('C20.end', 'a frame is destroyed only after its coroutine has ended, marked as being destroyed, held by nobody, and never touched afterwards')
    R.rule('C20.push', 'a coroutine that has not ended when its owner goes is killed and resumed until it has, and never resumed after its end')
    R.rule('C20.link', 'a new coroutine is bound to the future or context given to its caller before anything of it runs; callables run at once, tasks after their start; a delegate names a coroutine and its own promise')
    R.rule('C20.same', 'coroutines are compared and hashed by their handle alone')
    p = R.load()
    Names(p)
    jobs, fs, ls = [], [], []
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if not f.blocks:
            continue
        if re.match(r'copp::callable_future<[^:]*(::[^:]+)*>$', f.cls or '') and (f.fk or f.n == 'operator='):
            field, = [n for n, t in fieldtypes(p, f.cls) if 'coroutine_handle' in t]
            two = any(x.get('isref') for x in f.params)
            cs = [(a, b) for a in ((False,) if f.fk == 'ctor' else (False, True)) for b in ((False, True) + (('self',) if f.n == 'operator=' else ()) if two else (False,))]
        elif re.match(r'cotask::task_context_base<', f.cls or '') and f.fk == 'dtor':
            field, = [n for n, t in fieldtypes(p, f.cls) if 'handle_delegate' in t]
            cs = [(False, False), (True, False)]
        else:
            continue
        fs.append(f)
        jobs += [(lambda c=c, field=field: Frames(p, field, *c), f) for c in cs]
        R.ob('C20.one', f.q + ' ' + f.cls, True, f.loc())
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        c = f.cls or ''
        if not f.blocks:
            continue
        if c.endswith('handle_delegate') and (f.fk == 'ctor' or f.n == 'operator=') or re.search(r'_future<.*::promise_type(::initial_awaitable)?$', c) and f.n in ('get_return_object', 'await_ready', 'await_suspend', 'await_resume'):
            if 'await' in f.n and not c.endswith('initial_awaitable'):
                continue
            fut = 'context_' if 'task_future' in c else 'current_handle_'
            ls += [(lambda fut=fut, b=b: Link(p, fut, b), f) for b in ((False, True) if f.n == 'await_resume' else (None,))]
        elif f.n in ('operator==', 'operator!=') and all('handle_delegate' in x['ty'] for x in f.params):
            ls += [(lambda b=b: Same(p, b), f) for b in (False, True)]
        elif c.endswith('handle_delegate_hash') and f.n == 'operator()':
            ls.append((lambda: Same(p), f))
    ks = R.explore(ls)
    R.need('operations that bind coroutines', sum(d['n'] > 0 for d in ks), 15)
    ds = R.explore(jobs)
    R.need('special members of futures', len(fs), 12)
    R.need('paths that destroy a frame', sum(d['destroyed'] for d in ds), 10)
    R.need('frames handed over', sum(d['handed'] for d in ds), 8)


# ---------------------------------------------------------------- C21 owners of tasks
TF = r'cotask::task_future(_base|_delegate)?<'


class Owners(Prom):
    """operations on the futures that own a task: what happens to the counter, the contexts and the coroutine"""
    stop = (CALLERS,)
    heads = True

    def __init__(self, p, cfg, null=False, nullo=False, pre='C21'):
        super().__init__(p, pre)
        self.fut, self.cnt, self.cur = cfg
        self.null, self.nullo = null, nullo
        self.data = dict(n=0, moved=0, last=0, more=0, inc=0, ended=0)

    def init(self, eng, st, fr):
        f = eng.top
        self.others, before = [], []
        me = ('f', THIS, self.fut)
        if f.fk != 'ctor':
            v = eng.load(st, me)
            st.assume(('op', '!=', v, C0), not self.null)
            before.append((me, v))
        for i, x in enumerate(f.params):
            if x.get('isref') and re.match(r'(const )?' + TF, x['ty']):
                if self.nullo == 'self':
                    st.mem[('v', 0, x['v'], x['n'])] = ('a', THIS)
                    continue
                o = ('d', ('p', i, x['n']))
                self.others.append(o)
                st.assume(('op', '==', o[1], ('this',)), False)
                v = eng.load(st, ('f', o, self.fut))
                st.assume(('op', '!=', v, C0), not self.nullo)
                before.append((('f', o, self.fut), v))
        return (('before', tuple(before)), ('cnt', ()))

    def owners(self, eng, st):
        """what the futures in reach own now"""
        r = {}
        for l, v in st.mem.items():
            if l[0] == 'f' and l[2] == self.fut and (l[1][0] in ('v', 't', 'r') or l[1] == THIS or l[1] in self.others):
                r[l] = v
        return r

    def balance(self, eng, ev, st, where):
        bef = [v for l, v in self.get(st, 'before')]
        aft = list(self.owners(eng, st).values())
        cnt = self.get(st, 'cnt')
        done = []
        for v in bef + aft + [c[0] for c in cnt]:
            if v in done or v[0] == 'undef' or v == C0 or st.truth(v) is False:
                continue
            done.append(v)
            same = lambda a: a == v or a[0] != 'undef' and st.cmp('==', a, v) is True
            d = sum(map(same, aft)) - sum(map(same, bef))
            g = sum(n for c, n in cnt if same(c))
            if d != g:
                self.bad(eng, 'C21.count', 'the owners of a task change by %+d %s but are counted %+d' % (d, where, g), ev, st)
            self.data['n'] += 1

    def ended(self, eng, st, X):
        h = eng.load(st, ('f', ('f', ('d', X), self.cur), 'handle'))
        pr = eng.load(st, ('f', ('f', ('d', X), self.cur), 'promise'))
        if st.truth(h) is False or st.truth(pr) is False:
            return True
        return self.isdone(st, h) is True or self.flag(eng, st, ('d', pr), RETURNED) is True or self.has(st, 'fin', h)

    def learn(self, eng, st):
        for x in self.all(st, 'last'):
            h = eng.load(st, ('f', ('f', ('d', x[1]), self.cur), 'handle'))
            if self.ended(eng, st, x[1]):
                self.add(st, 'fin', h)

    def alive(self, eng, st, X):
        return any(v == X and (l[0] in ('v', 't') or l[0] == 'f' and l[2] == self.fut) for l, v in st.mem.items())

    def event(self, eng, ev, st):
        self.track(eng, ev, st)
        k = ev.k
        lv = getattr(ev, 'lv', None)
        if k in ('branch', 'store', 'called'):
            self.learn(eng, st)
        if k == 'armw' and self.iscnt(lv):
            X = lv[1][1] if lv[1][0] == 'd' else None
            n = {'add': 1, 'sub': -1}.get(ev.op, 0) if ev.arg == C1 else 0
            if X is None or n == 0:
                self.bad(eng, 'C21.count', 'the owners of a task are counted in another step than one', ev, st)
                return
            self.set(st, 'cnt', self.get(st, 'cnt') + ((X, n),))
            if not self.alive(eng, st, X):
                self.bad(eng, 'C21.alive', 'the owners of a task that may be gone are counted', ev, st)
            if n < 0:
                self.add(st, 'dec', X)
                self.set(st, 'v', (X, ev.val, bool(getattr(ev, 'post', False))))
            else:
                self.data['inc'] += 1
        elif k in ('astore', 'cas') and self.iscnt(lv):
            self.bad(eng, 'C21.count', 'the number of owners of a task is overwritten', ev, st)
        if k in ('branch', 'user', 'store'):
            x = self.get(st, 'v')
            if x is not None and not (self.has(st, 'last', x[0]) or self.has(st, 'more', x[0])):
                t = st.cmp('==', x[1], ('c', 1 if x[2] else 0))
                if t is True:
                    self.add(st, 'last', x[0])
                    self.data['last'] += 1
                elif t is False:
                    self.add(st, 'more', x[0])
                    self.data['more'] += 1
        if k == 'user':
            self.balance(eng, ev, st, 'when user code runs')
            if HANDLE.fullmatch(ev.q):
                X = self.ctxof(eng, st, ev)
                if X is None or not self.has(st, 'last', X):
                    self.bad(eng, 'C21.last', 'a coroutine is ended though it has other owners', ev, st)
                elif not self.alive(eng, st, X):
                    self.bad(eng, 'C21.alive', 'nothing holds the context of a task while its coroutine is ended', ev, st)
                self.data['ended'] += 1
            keep = [(l, v) for l, v in st.mem.items() if l[0] == 'f' and l[2] in ('handle', 'promise') and l[1][0] == 'f' and l[1][2] == self.cur and l[1][1][0] == 'd' and self.alive(eng, st, l[1][1][1])]
            self.set(st, 'kept', tuple(keep))
            self.gone(eng, st)
        elif k == 'userend':
            for l, v in self.get(st, 'kept') or ():
                st.mem[l] = v
            b = []
            for l in [('f', THIS, self.fut)]:
                if eng.top.fk == 'dtor':
                    st.mem[l] = C0
                b.append((l, eng.load(st, l)))
            b += [(l, v) for l, v in self.owners(eng, st).items() if l[1] != THIS]
            self.set(st, 'before', tuple(b))
            self.set(st, 'cnt', ())
        elif k == 'boxdrop' and st.truth(ev.val) is not False and ev.val != C0:
            if not any(v == ev.val and l != lv for l, v in st.mem.items() if l[0] in ('v', 't') or l[0] == 'f' and l[2] == self.fut):
                self.gone(eng, st)
        elif k in ('load', 'store', 'access', 'boxget') and isinstance(lv, tuple):
            for o in self.others:
                if self.has(st, 'gone') and root(lv) == o:
                    self.bad(eng, 'C21.alias', 'the other future is used after a task that may own it has gone', ev, st)

    def gone(self, eng, st):
        self.add(st, 'gone')

    def iscnt(self, lv):
        while lv is not None and lv[0] == 'f':
            if lv[2] == self.cnt:
                return True
            lv = lv[1]
        return False

    def ctxof(self, eng, st, ev):
        for x in self.all(st, 'dec'):
            if ev.val == eng.load(st, ('f', ('f', ('d', x[1]), self.cur), 'handle')):
                return x[1]
        return None

    def exit(self, eng, fr, st, kind, val):
        if kind not in ('ret', 'end'):
            return
        f, L = eng.top, eng.top.loc()
        self.balance(eng, L, st, 'by this operation')
        for x in self.all(st, 'dec'):
            if self.has(st, 'more', x[1]):
                continue
            if not self.has(st, 'last', x[1]):
                self.bad(eng, 'C21.last', 'nobody looks whether the last owner of a task has gone', L, st)
            elif not self.ended(eng, st, x[1]):
                self.bad(eng, 'C21.last', 'the last owner of a task goes and its coroutine is not ended', L, st)


class Apart(Prom):
    """operations that own nothing leave the counter of owners alone; a new context has none"""
    def __init__(self, p, cnt):
        super().__init__(p, 'C21')
        self.cnt, self.data = cnt, dict(n=0)

    iscnt = Owners.iscnt

    def event(self, eng, ev, st):
        if ev.k in ('armw', 'astore', 'cas') and self.iscnt(ev.lv):
            self.bad(eng, 'C21.count', 'the owners of a task are counted by an operation that changes none', ev, st)

    def exit(self, eng, fr, st, kind, val):
        self.data['n'] += 1
        f = eng.top
        if f.fk == 'ctor':
            v = [v for l, v in st.mem.items() if self.iscnt(l) and root(l) == THIS]
            if any(x != C0 and x[0] != 'empty' for x in v):
                self.bad(eng, 'C21.count', 'a new task is not owned by nobody', f.loc(), st)


def c21(R):
    R.rule('C21.count', 'in every operation on task futures, at each exit and whenever user code may run, the counter of each task changes exactly as the number of futures that own it, one at a time')
    R.rule('C21.last', 'the future that takes the counter to zero, and nobody else, ends the coroutine')
    R.rule('C21.alive', 'the context of a task is held while it is counted and while its coroutine is ended')
    R.rule('C21.alias', 'a future is not used after a task that may own it has gone')
    p = R.load()
    Names(p)
    flds = fieldtypes(p, 'cotask::task_future_base')
    fut, = [n for n, t in flds if 'shared_ptr' in t]
    cnts = [n for n, t in fieldtypes(p, 'cotask::task_context_base') if 'atomic_int_type' in t]
    cur, = [n for n, t in fieldtypes(p, 'cotask::task_context_base') if 'handle_delegate' in t]
    cnt, = cnts
    jobs, n = [], 0
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if not f.blocks or not re.match(TF, f.cls or '') or not re.search(r'>$', f.cls) or '::promise_type' in f.cls or not FILES.search(f.loc().split(':')[0]):
            continue
        if not (f.fk or f.n in ('operator=', 'assign', 'reset', 'swap')):
            continue
        two = any(x.get('isref') and re.match(r'(const )?' + TF, x['ty']) for x in f.params)
        cs = [(a, b) for a in ((False,) if f.fk == 'ctor' else (False, True)) for b in ((False, True) + (() if f.fk == 'ctor' else ('self',)) if two else (False,))]
        jobs += [(lambda c=c: Owners(p, (fut, cnt, cur), *c), f) for c in cs]
        R.ob('C21.count', f.q + ' ' + f.cls, True, f.loc())
        n += 1
    mine = {f.id for _, f in jobs}
    rest = []
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if not f.blocks or f.id in mine:
            continue
        ctor = f.fk == 'ctor' and re.match(r'cotask::task_context_base<', f.cls or '') and not f.params
        uses = any(nd.get('f') == cnt for nd in (f.nodes.values() if isinstance(f.nodes, dict) else f.nodes))
        if ctor or uses and not (f.acc and re.match(r'cotask::task_(future|context)', f.cls or '')):
            rest.append((lambda: Apart(p, cnt), f))
            R.ob('C21.count', f.q + ' ' + f.cls, True, f.loc())
    R.explore(rest)
    ds = R.explore(jobs)
    R.need('operations of task futures', n, 20)
    R.need('paths that release the last owner', sum(d['last'] for d in ds), 8)
    R.need('paths with other owners left', sum(d['more'] for d in ds), 8)
    R.need('owners added', sum(d['inc'] for d in ds), 8)


# ---------------------------------------------------------------- C22 results of waiting
class Look22(Prom):
    """base: what is known about the end of a callee on a path"""
    merge_after = 60

    def __init__(self, p, names, pre='C22'):
        super().__init__(p, pre)
        self.names = names

    def init(self, eng, st, fr):
        t = fieldtypes(self.p, eng.top.cls)
        hs = [n for n, ty in t if 'coroutine_handle' in ty]
        self.kind = 'callable' if hs else 'task' if 'task' in eng.top.cls else 'generator'
        self.ref = ('f', THIS, (hs or [n for n, ty in t if ty.rstrip().endswith('*')])[0])
        self.X = eng.load(st, self.ref)
        self.mine = ('f', THIS, self.n.caller)
        self.H, self.CP = delegate(eng, st, self.mine)
        if self.kind == 'callable':
            self.P = ('promise', self.X)
            self.hd = self.X
        elif self.kind == 'task':
            self.hd, self.P = delegate(eng, st, ('f', ('d', self.X), self.names['cur']))
        else:
            self.hd = self.P = None
        return ()

    def see(self, eng, st):
        """facts are kept because the values they are about may be forgotten"""
        t = st.truth(self.X)
        if t is not None:
            self.set(st, 'callee', t)
        t = st.truth(self.H)
        if t is not None:
            self.set(st, 'had', t)
        t = st.cmp('==', self.status(eng, st, ('d', self.CP)), ('c', DONE))
        if t is not None and not self.has(st, 'ran'):
            self.set(st, 'cdone', t)
        if self.P is not None:
            t = st.truth(self.P) if self.kind == 'task' else None
            if t is not None:
                self.set(st, 'prom', t)
            t = self.flag(eng, st, ('d', self.P), RETURNED)
            if t is not None:
                self.set(st, 'returned', t)
            v = self.status(eng, st, ('d', self.P))
            t = self.below(st, v, DONE)
            if t is not None:
                self.set(st, 'final', not t)
            if self.kind == 'callable':
                t = self.isdone(st, self.hd)
                if t is not None:
                    self.set(st, 'done', (self.hd, t))
                    self.set(st, 'atend', t)
        if self.kind != 'callable':
            for v, (lo, hi, ne) in st.facts.items():
                if v[0] == 'ld' and contains(v[1], self.X) and self.names['data'] in names_in(v):
                    t = st.truth(v)
                    if t is not None:
                        self.set(st, 'data', t)

    def event(self, eng, ev, st):
        self.track(eng, ev, st)
        if ev.k in ('branch', 'store', 'call', 'called', 'return', 'ctor'):
            self.see(eng, st)
        if ev.k == 'user':
            self.add(st, 'ran')
            # a value that is there stays there, and the object that waits is not replaced
            self.set(st, 'kept', tuple((l, v) for l, v in st.mem.items() if root(l) == THIS or self.kind != 'callable' and contains(l, self.X) and self.names['data'] in fields(l)))
            self.rm(st, 'returned', 'final') if self.kind == 'callable' else None
        elif ev.k == 'userend':
            for l, v in self.get(st, 'kept') or ():
                st.mem[l] = v

    def ready(self, st):
        """True / False / None: there is a result"""
        if self.kind == 'callable':
            return self.get(st, 'returned')
        d, r = self.get(st, 'data'), self.get(st, 'returned')
        if self.kind == 'generator':
            return d
        if r or d:
            return True
        if d is False and (r is False or self.get(st, 'prom') is False):
            return False
        return None


class AwaitReady(Look22):
    """await_ready"""
    def __init__(self, p, names):
        super().__init__(p, names)
        self.data = dict(yes=0, no=0, looked=0)

    def event(self, eng, ev, st):
        super().event(eng, ev, st)
        if self.kind == 'callable' and ev.k in ('call', 'user') and 'coroutine_handle' in ev.q \
                and ev.q.split('::')[-1] in ('done', 'promise', 'resume') and ev.obj is not None \
                and (ev.obj == self.ref or eng.load(st, ev.obj) == self.X):
            self.data['looked'] += 1
            if self.get(st, 'callee') is not True:
                self.bad(eng, 'C22.ready', 'a coroutine that may not exist is looked at', ev, st)
        if ev.k == 'user' and not ev.q.endswith('done'):
            self.bad(eng, 'C22.ready', 'looking whether there is a result runs user code', ev, st)

    def exit(self, eng, fr, st, kind, val):
        if kind != 'ret':
            return
        for want in (True, False):
            s = st.copy()
            t = st.truth(val)
            if t is None:
                s.assume(val, want)
            elif t != want:
                continue
            d = self.get(s, 'done')
            if d is not None and d[1].__class__ is tuple and s.truth(d[1]) is not None:
                self.set(s, 'done', (d[0], s.truth(d[1])))
            self.see(eng, s)
            self.data['yes' if want else 'no'] += 1
            ended = [self.get(s, 'atend'), self.get(s, 'returned'), self.get(s, 'final'), self.get(s, 'data')]
            if self.kind == 'task':
                pr = self.get(s, 'prom')
                ended.append(None if pr is None else not pr)
            if want:
                if self.get(s, 'callee') is not False and not any(x is True for x in ended):
                    self.bad(eng, 'C22.ready', 'a coroutine is not suspended though what it waits for has not ended', eng.top.loc(), s)
            else:
                need = {'callable': [0, 1, 2], 'generator': [3], 'task': [1, 2, 3, 4]}[self.kind]
                if self.get(s, 'callee') is False or any(ended[i] is not False for i in need):
                    self.bad(eng, 'C22.ready', 'a coroutine is suspended though what it waits for may have ended', eng.top.loc(), s)


class Result(Look22):
    """await_resume with a value"""
    def __init__(self, p, names):
        super().__init__(p, names)
        self.data = dict(value=0, error=0, move=0, copy=0)

    def event(self, eng, ev, st):
        super().event(eng, ev, st)
        if ev.k == 'called' and mgrcall_q(ev, 'has_multiple_callers'):
            self.set(st, 'multi', ev.val)
        if ev.k in ('branch', 'ctor', 'return'):
            m = self.get(st, 'multi')
            if m is not None and m.__class__ is tuple and st.truth(m) is not None:
                self.set(st, 'multi', st.truth(m))
        if ev.k == 'ctor' and ev.lv == ('r', 0) and ev.args:
            fn, a = ev.d.get('fn') or {}, ev.args[0]
            ck = fn.get('ck')
            if self.has(st, 'out'):
                self.bad(eng, 'C22.value', 'a result is produced twice', ev, st)
            self.add(st, 'out')
            if ck in ('move', 'copy'):
                self.value(eng, ev, st, ck, a)
            elif any('promise_status' in x for x in fn.get('pt') or ()):
                self.error(eng, ev, st, a)

    def value(self, eng, ev, st, ck, a):
        r = self.ready(st)
        if self.kind == 'task' and r and a == ('d', C0):
            return      # a coroutine that has returned has handed its value over
        self.data['value'] += 1
        self.data[ck] += 1
        if self.get(st, 'callee') is False or r is not True:
            self.bad(eng, 'C22.value', 'a value is read though nothing may have been returned', ev, st)
        if not contains(a, self.P if self.kind == 'callable' else self.X):
            self.bad(eng, 'C22.value', 'the value is not the one of the coroutine waited for', ev, st)
        if ck == 'move' and self.get(st, 'multi') is not False and self.get(st, 'prom') is not False:
            self.bad(eng, 'C22.share', 'the value is moved away though others may wait for it', ev, st)

    def error(self, eng, ev, st, a):
        self.data['error'] += 1
        null = self.get(st, 'callee') is False
        if not null and self.ready(st) is not False:
            self.bad(eng, 'C22.value', 'an error is delivered though something may have been returned', ev, st)
        if null:
            if a != C0:
                self.bad(eng, 'C22.error', 'waiting for nothing gives the wrong error', ev, st)
        elif self.kind == 'callable':
            if a != self.status(eng, st, ('d', self.P)):
                self.bad(eng, 'C22.error', 'the error is not the status of the callable', ev, st)
        elif a[0] == 'c':
            if not a[1] > DONE:
                self.bad(eng, 'C22.error', 'the error is no status of a failure', ev, st)
            elif self.get(st, 'had') is not False and st.truth(self.CP) is not False and self.get(st, 'cdone') is not True:
                self.bad(eng, 'C22.error', 'the error is not the status of the caller that goes on', ev, st)
        else:
            if a[0] != 'ld' or a[1] != self.statlv(('d', self.CP)):
                self.bad(eng, 'C22.error', 'the error is not the status of the caller that goes on', ev, st)
            elif self.get(st, 'cdone') is not False:
                self.bad(eng, 'C22.error', 'success may be reported as error', ev, st)

    def exit(self, eng, fr, st, kind, val):
        if kind == 'ret' and not self.has(st, 'out'):
            self.bad(eng, 'C22.value', 'waiting gives no result', eng.top.loc(), st)


def mgrcall_q(ev, what):
    return ev.q.endswith('promise_caller_manager::' + what)


class Transform(Prom):
    """how a status becomes an error value"""
    def __init__(self, p, k, out):
        super().__init__(p, 'C22')
        self.k, self.data = k, dict(v=None)

    def init(self, eng, st, fr):
        x = eng.top.params[0]
        st.mem[('v', 0, x['v'], x['n'])] = ('c', self.k)
        return ()

    def exit(self, eng, fr, st, kind, val):
        if kind == 'ret':
            self.data['v'] = val if val != ('r', 0) else eng.load(st, val)
            self.data['cls'] = eng.top.cls


def c22(R):
    R.rule('C22.ready', 'a coroutine that waits suspends exactly if what it waits for exists and has neither ended nor a result')
    R.rule('C22.value', 'waiting gives exactly one result: the value of the coroutine waited for if and only if one has been returned, an error otherwise')
    R.rule('C22.share', 'a value is moved out only if nobody else waits for it')
    R.rule('C22.error', 'an error names a failure: the status of the callable, of the caller that was ended while it waited, or invalid if there is nothing to wait for; default error values of integers are negative and keep failures apart')
    p = R.load()
    Names(p)
    names = dict(cur=[n for n, t in fieldtypes(p, 'cotask::task_context_base') if 'handle_delegate' in t][0],
                 data=[n for n, t in fieldtypes(p, 'cotask::task_context_base') if 'future::future<' in t][0])
    aw = r'copp::(callable|generator)_awaitable(_base)?<|cotask::task_awaitable(_base)?<'
    rd = [f for f in p.fns.values() if f.blocks and f.n == 'await_ready' and re.match(aw, f.cls or '')]
    rs = [f for f in p.fns.values() if f.blocks and f.n == 'await_resume' and re.match(aw, f.cls or '') and re.search(r'<drv_str[,>]', f.cls)]
    tr = [f for f in p.fns.values() if f.blocks and f.n == 'operator()' and re.search(r'error_transform<', f.cls or '') and len(f.params) == 1]
    for rule, fs in (('C22.ready', rd), ('C22.value', rs), ('C22.error', tr)):
        for f in fs:
            R.ob(rule, f.q + ' ' + f.cls, True, f.loc())
    R.need('await_ready', len(rd), 6)
    R.need('await_resume with a value', len(rs), 3)
    ds = R.explore([(lambda: AwaitReady(p, names), f) for f in rd])
    R.need('answers of await_ready', sum(d['yes'] + d['no'] for d in ds), 20)
    ds = R.explore([(lambda: Result(p, names), f) for f in rs])
    for k, n in (('value', 5), ('error', 8), ('move', 3), ('copy', 3)):
        R.need('results: ' + k, sum(d[k] for d in ds), n)
    ds = R.explore([(lambda k=k: Transform(p, k, None), f) for f in tr for k in range(7)])
    for i, f in enumerate(tr):
        vs = [d['v'] for d in ds[7 * i:7 * i + 7]]
        if 'integer' in f.cls:
            ok = all(v is not None and v[0] == 'c' and v[1] < 0 for v in vs) and len(set(vs[CANCEL:])) == TIMEOUT - CANCEL + 1
            R.ob('C22.error', f.q, ok, f.loc(), 'error values of integers are not negative or do not tell failures apart: %s' % [show(v) for v in vs], None, f.q)
        elif 'promise_status' in f.cls.split('<')[1]:
            ok = all(v == ('c', k) for k, v in enumerate(vs))
            R.ob('C22.error', f.q, ok, f.loc(), 'a status does not stay the status it is', None, f.q)


PROPS = {'C18': c18, 'C19': c19, 'C20': c20, 'C21': c21, 'C22': c22}
