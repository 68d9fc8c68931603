"""Stackful task: status machine, completion, followers and the life time of the action (C15..C17)."""
from rules.common import *

TCLS = re.compile(r'cotask::task<.*>$')
STATUS = ('f', THIS, 'status_')
CO = r'copp::coroutine_context(_base|_container(<.*>)?)?::'
COX = re.compile(r'copp::coroutine_context(_base|_container(<.*>)?)?::(start|resume)')
NAMES = ('EN_TS_INVALID', 'EN_TS_CREATED', 'EN_TS_RUNNING', 'EN_TS_WAITING', 'EN_TS_DONE', 'EN_TS_CANCELED', 'EN_TS_KILLED', 'EN_TS_TIMEOUT')
INVALID, CREATED, RUNNING, WAITING, DONE, CANCELED, KILLED, TIMEOUT = range(8)
DOM = tuple(range(8))
TERM = (DONE, CANCELED, KILLED, TIMEOUT)
ACT = re.compile(r'cotask::(impl::)?task(_impl)?::(start|resume|cancel|kill|yield)')


def enums(p):
    for i, n in enumerate(NAMES):
        if p.consts.get(n) != i:
            raise Broken('task status enumeration changed: %s' % n)


def task_classes(p):
    return sorted({f.cls for f in p.fns.values() if TCLS.match(f.cls) and f.fk == 'dtor'})


def lname(p, cls, pred, what):
    r = [f['n'] for f in p.recs[cls]['fields'] if pred(f['ty'])]
    if len(r) != 1:
        raise Broken('%s: %d fields are the %s' % (cls, len(r), what))
    return r[0]


class Facts(Monitor):
    """monitor state as a set of facts"""
    heads = False
    pre = ''
    merge_after = 2

    def init(self, eng, st, fr):
        return ()

    def has(self, st, *f):
        return f in st.mon

    def all(self, st, k):
        return [x for x in st.mon if x[0] == k]

    def get(self, st, k):
        for x in st.mon:
            if x[0] == k:
                return x[1]

    def add(self, st, *f):
        if f not in st.mon:
            st.mon = tuple(sorted(st.mon + (f,), key=repr))

    def rm(self, st, *ks):
        st.mon = tuple(x for x in st.mon if x[0] not in ks)

    def set(self, st, k, v):
        self.rm(st, k)
        self.add(st, k, v)

    def bad(self, eng, rule, msg, ev, st):
        if rule.startswith(self.pre):
            self.report(eng, rule, msg, ev, st)


def isend(v):
    return v[0] == 'pure' and v[1] in ('end', 'cend')


def walk_step(v, w):
    """what a branch says about going through a container: ('at', I, X) the position I of the container state X holds an element,
    ('over', X) no element is left; None: nothing"""
    while v[0] == 'op' and v[1] == '!' and len(v) == 3:
        v, w = v[2], not w
    if v[0] == 'op' and len(v) == 4 and v[1] in ('==', '!='):
        w = w if v[1] == '==' else not w
        a, b = v[2], v[3]
        if a == ('c', 0):
            a, b = b, a
        if a[0] == 'pure' and a[1] == 'size' and b == ('c', 0):
            return ('over', a[2]) if w else ('at', ('pure', 'begin', a[2]), a[2])
        if isend(a) and not isend(b):
            a, b = b, a
        if isend(b) and not isend(a) and not (a[0] == 'pure' and a[1] == 'find'):
            return ('over', b[2]) if w else ('at', a, b[2])
    if v[0] == 'op' and len(v) == 4 and v[1] == '<' and v[3][0] == 'pure' and v[3][1] == 'size':
        return ('over', v[3][2]) if not w else ('at', v[2], v[3][2])
    if v[0] == 'pure' and v[1] == 'empty':
        return ('over', v[2]) if w else ('at', ('pure', 'begin', v[2]), v[2])
    return None


def inelem(lv, I):
    """does lv lie in the element at position I"""
    r = root(lv)
    return contains(r, ('elemof', I)) or r[0] == 'd' and r[1][0] in ('elemof', 'front') and (r[1] == ('elemof', I) or I[0] == 'pure' and I[1] == 'begin' and r[1] == ('front', I[2]))


class Task(Facts):
    """one operation of a task.  Other threads may change the status whenever it is looked at, but only as the rules allow:
    RUNNING is left by its runner or by a kill, a final status is never left"""
    stop = (CO + r'(start|resume|yield|is_finished|get_ret_code|set_.*|get_.*)', r'copp::promise_caller_manager::.*', r'.*::maybe_rethrow', r'std::.*::~\w+')

    def __init__(self, p, cls, pre, alone=None):
        super().__init__()
        self.pre = pre
        self.alone, self.expect = alone or (None, None)     # nobody else touches the task, which has this status
        self.cls = cls
        self.p = p
        f = lambda pred, what: ('f', THIS, lname(p, cls, pred, what))
        self.co = f(lambda t: 'coroutine_context' in t and 'ptr' in t, 'coroutine')
        self.lock = f(lambda t: 'spin_lock' in t, 'lock')
        self.nxt = f(lambda t: 'task_group' in t, 'list of next tasks')
        self.mgr = f(lambda t: t in ('void *', 'void*'), 'manager')
        self.mfn = f(lambda t: t.startswith('void (*)(void *,'), 'manager callback')
        self.data = dict(edge=0, run=0, finish=0, follow=0, callers=0, manager=0, pushed=0, now=0, exits=0)

    def init(self, eng, st, fr):
        self.op = eng.top.n
        self.adds = self.op == 'next' and eng.top.params and 'intrusive_ptr' in eng.top.params[0]['ty']
        self.waits = self.op == 'await_task' and 'intrusive_ptr' in eng.top.params[0]['ty']
        if self.op == 'kill':
            for i, x in enumerate(eng.top.params):
                if 'STATUS' in x['ty']:
                    self.target = ('p', i, x['n'])
                    st.assume(('op', '<', self.target, ('c', DONE)), False)
        if self.alone is not None:
            st.assume(('op', '==', ('ld', ('f', self.co, 'px'), 0), C0), False)
        if self.alone is not None and self.op != 'kill':
            for i, x in enumerate(eng.top.params):
                if 'STATUS' in x['ty']:
                    st.assume(('op', '==', ('p', i, x['n']), ('c', self.expect)), True)
        self.priv = [('p', i, x['n']) for i, x in enumerate(eng.top.params) if x['ty'].replace(' ', '') == 'void*']
        return ()

    def opaque_call(self, q, obj):
        if q.startswith('cotask::task::') and q.split('::')[-1] in ('next', 'then', 'create', 'create_with', 'create_with_delegate'):
            return True
        if q.split('::')[-1] == 'on_finished':
            return 'user'
        return ACT.fullmatch(q) is not None and obj is not None and obj != THIS

    # ------------------------------------------------------------ the status
    def atomic_values(self, eng, st, lv):
        if lv[0] != 'f' or lv[2] != 'status_':
            return None
        if lv[1] != THIS:
            return DOM if (self.adds or self.waits) and lv[1] == ('d', self.target_(eng)) else None
        if self.alone is not None:
            v = self.get(st, 'cur')
            return (self.alone if v is None else v,)
        k = self.get(st, 'kn')
        if k is not None:
            return (k,)
        if self.op.startswith('~') and self.all(st, 'read'):
            return (self.get(st, 'read'),)      # nobody else knows the task any more
        if self.has(st, 'own'):
            return (RUNNING, CANCELED, TIMEOUT)
        return DOM

    def seen(self, st, c):
        """the status was c at this moment"""
        if c in TERM:
            if self.has(st, 'own'):
                self.rm(st, 'own')
                self.add(st, 'duty')
                self.add(st, 'outside')
            self.set(st, 'kn', c)
        if self.has(st, 'held'):
            self.set(st, 'open', c < DONE)

    def edge(self, eng, ev, st):
        self.data['edge'] += 1
        a, b = cval(ev.val), cval(ev.des)
        if a is None:
            self.bad(eng, 'C15.edge', 'the status is changed from an unknown one', ev, st)
            return
        an = NAMES[a][6:]
        if b is None:
            if st.cmp('<', ev.des, ('c', DONE)) is not False:
                self.bad(eng, 'C15.edge', 'the status is changed from %s to one that may not be final' % an, ev, st)
            bn = 'a final status'
            b = KILLED
            known = False
        else:
            bn = NAMES[b][6:] if 0 <= b < 8 else str(b)
            known = True
        if a in TERM:
            self.bad(eng, 'C15.edge', 'a task that is %s becomes %s' % (an, bn), ev, st)
        elif b == RUNNING:
            if a == RUNNING:
                self.bad(eng, 'C15.edge', 'a running task is started again', ev, st)
            self.add(st, 'own')
            self.add(st, 'ran', 0)
        elif b == WAITING:
            if not self.has(st, 'own') or a != RUNNING:
                self.bad(eng, 'C15.edge', 'a task becomes WAITING from %s, not by its runner' % an, ev, st)
            elif not self.fin(st, False):
                self.bad(eng, 'C15.edge', 'a task becomes WAITING although its coroutine may have finished', ev, st)
            self.rm(st, 'own')
        elif b in TERM:
            if b == DONE and known:
                if not self.has(st, 'own'):
                    self.bad(eng, 'C15.edge', 'a task becomes DONE, not by its runner', ev, st)
                elif not self.fin(st, True):
                    self.bad(eng, 'C15.edge', 'a task becomes DONE although its coroutine may not have finished', ev, st)
            elif self.has(st, 'own'):
                self.bad(eng, 'C15.edge', 'the runner makes the task %s' % bn, ev, st)
            elif a == RUNNING and b == CANCELED and known:
                self.bad(eng, 'C15.edge', 'a running task is canceled', ev, st)
            if self.op == 'cancel' and not (known and b == CANCELED) or self.op == 'kill' and ev.des != getattr(self, 'target', ev.des):
                self.bad(eng, 'C15.edge', '%s makes the task %s' % (self.op, bn), ev, st)
            if a != RUNNING or self.has(st, 'own'):
                self.add(st, 'duty')
            self.rm(st, 'own')
            if known:
                self.set(st, 'kn', b)
            else:
                self.set(st, 'kn', KILLED)
        else:
            self.bad(eng, 'C15.edge', 'a task becomes %s' % bn, ev, st)
        self.set(st, 'moved', b)
        if self.alone is not None:
            self.set(st, 'cur', b)

    # ------------------------------------------------------------ the coroutine
    def mine(self, eng, st, obj):
        """is obj the coroutine of this task"""
        return obj is not None and obj[0] == 'd' and contains(obj, self.co)

    def fin(self, st, w):
        """has the coroutine been looked at since it ran, and was it finished (w)"""
        v = self.get(st, 'fq')
        if v == 'none':
            return w is False
        if v.__class__ is bool:
            return v is w
        return v is not None and st.truth(v) is w

    # ------------------------------------------------------------ events
    def event(self, eng, ev, st):
        k = ev.k
        if self.adds and (k == 'call' and ev.q == 'std::make_pair' or k == 'ctor' and ev.ty.startswith('std::pair<')) and self.pair(eng, ev, st):
            self.add(st, 'paired')
        if self.waits:
            self.wait_event(eng, ev, st)
        if self.adds and k == 'aload' and ev.lv == ('f', ('d', self.target_(eng)), 'status_'):
            self.set(st, 'nst', cval(ev.val))
        if k == 'cas' and ev.lv == STATUS:
            if ev.ok:
                self.edge(eng, ev, st)
            else:
                c = cval(ev.val)
                if c is not None:
                    self.seen(st, c)
            return
        if k in ('astore', 'armw') and ev.lv == STATUS:
            self.bad(eng, 'C15.edge', 'the status is overwritten without a look at the old one', ev, st)
            return
        if k == 'aload' and ev.lv == STATUS:
            c = cval(ev.val)
            if c is not None:
                self.seen(st, c)
                if self.op.startswith('~'):
                    self.add(st, 'read', c)
            return
        if k == 'lock' and ev.lv == self.lock:
            self.add(st, 'held')
            self.rm(st, 'open')
            return
        if k == 'unlock' and ev.lv == self.lock:
            self.rm(st, 'held', 'open', 'hollow')
            return
        if k == 'store':
            self.stored(eng, ev, st)
            return
        if k == 'load' and (ev.lv == self.nxt or root(ev.lv) == THIS and contains(ev.lv, self.nxt)) and eng.top.fk != 'ctor':
            if not self.has(st, 'held'):
                self.bad(eng, 'C16.lock', 'the list of next tasks is read without the lock', ev, st)
            return
        if k == 'call':
            self.call(eng, ev, st)
            return
        if k == 'called' and self.mine(eng, st, ev.obj):
            n = ev.q.split('::')[-1]
            if n == 'is_finished':
                self.set(st, 'fq', ev.val)
            elif COX.fullmatch(ev.q):
                self.rm(st, 'fq')
            return
        if k == 'user':
            self.user_(eng, ev, st)
            return
        if k == 'branch' and ev.val is not None:
            if self.null(eng, st):
                self.set(st, 'fq', 'none')
            v = self.get(st, 'fq')
            if v.__class__ is tuple and st.truth(v) is not None:
                self.set(st, 'fq', st.truth(v))
            if contains(ev.val, self.mgr) or contains(ev.val, self.mfn):
                if any(lo == hi == 0 and (contains(x, self.mgr) or contains(x, self.mfn)) for x, (lo, hi, ne) in st.facts.items()):
                    self.add(st, 'nomgr')
            s = walk_step(ev.val, ev.want)
            if s and self.ours(st, s[-1]):
                self.step(eng, ev, st, s)

    def null(self, eng, st):
        v = st.mem.get(('f', self.co, 'px'))
        return v is not None and st.truth(v) is False

    def ours(self, st, X):
        while X[0] == 'prev':
            X = X[1]
        return contains(X, self.nxt) or X[0] == 'call' and X[2].startswith('std::list::') and X[2].endswith('#state') and X[2].split('::')[-1][:-6] in ('pop_front', 'erase') or X[0] == 'phi' and self.has(st, 'taken')

    def stored(self, eng, ev, st):
        if eng.top.fk == 'ctor':
            return
        src = getattr(ev, 'src', None)
        if src is not None and is_lv(src) and root(src) == THIS and contains(src, self.nxt) and st.mem.get(src, C0)[0] == 'moved':
            self.taken(eng, ev, st)
            self.add(st, 'hollow')
        if contains(ev.lv, self.nxt) and root(ev.lv) == THIS:
            if not self.has(st, 'held'):
                self.bad(eng, 'C16.lock', 'the list of next tasks is changed without the lock', ev, st)
            if ev.val[0] == 'empty':
                self.taken(eng, ev, st)
        if ev.lv in (self.mgr, self.mfn):
            if not self.has(st, 'held'):
                self.bad(eng, 'C16.lock', 'the binding to the manager is changed without the lock', ev, st)
            if ev.val == C0:
                self.add(st, 'detached', ev.lv[2])

    def taken(self, eng, ev, st):
        if not self.has(st, 'held'):
            self.bad(eng, 'C16.lock', 'the list of next tasks is changed without the lock', ev, st)
        if self.has(st, 'taken'):
            self.bad(eng, 'C16.once', 'the next tasks are taken twice', ev, st)
        self.add(st, 'taken')
        if self.op == 'next':
            self.bad(eng, 'C16.once', 'next tasks get lost', ev, st)

    def call(self, eng, ev, st):
        n = ev.q.split('::')[-1]
        if ev.obj is not None and root(ev.obj) == THIS and contains(ev.obj, self.nxt) and ev.q.startswith('std::'):
            if not self.has(st, 'held') and eng.top.fk != 'ctor' and n[:1] != '~':
                self.bad(eng, 'C16.lock', 'the list of next tasks is used without the lock', ev, st)
            if n in ('push_back', 'emplace_back', 'push_front', 'insert', 'emplace'):
                self.push(eng, ev, st)
            elif n in ('clear', 'erase', 'pop_front', 'pop_back', 'remove'):
                if not (n == 'clear' and self.has(st, 'hollow')):
                    self.bad(eng, 'C16.once', 'a next task is dropped', ev, st)
        if self.mine(eng, st, ev.obj) and COX.fullmatch(ev.q):
            self.data['run'] += 1
            if self.has(st, 'held'):
                self.bad(eng, 'C16.lock', 'the coroutine runs under the lock', ev, st)
            if self.has(st, 'own'):
                r = self.get(st, 'ran')
                if r:
                    self.bad(eng, 'C15.run', 'the runner starts the coroutine twice', ev, st)
                self.set(st, 'ran', 1)
                if self.priv and self.priv[0] not in ev.args:
                    self.bad(eng, 'C15.run', 'the private data does not reach the coroutine', ev, st)
            elif self.has(st, 'duty'):
                if self.has(st, 'noted'):
                    self.bad(eng, 'C16.order', 'the coroutine runs on after the task reported its end', ev, st)
                if not self.fin(st, False):
                    self.bad(eng, 'C16.order', 'a finished coroutine is resumed', ev, st)
            else:
                self.bad(eng, 'C15.run', 'the coroutine runs although this call did not get the right to run it', ev, st)
        if ev.q == 'copp::promise_caller_manager::resume_callers' and ev.obj is not None and root(ev.obj) == THIS:
            self.data['callers'] += 1
            self.tell(eng, ev, st, 'callers')
        if ACT.fullmatch(ev.q) and ev.obj is not None and ev.obj != THIS:
            self.other(eng, ev, st)

    def tell(self, eng, ev, st, what):
        if self.has(st, 'held'):
            self.bad(eng, 'C16.lock', 'the %s run under the lock' % what, ev, st)
        if self.has(st, 'told', what):
            self.bad(eng, 'C16.once', 'the %s are told twice' % what, ev, st)
        self.add(st, 'told', what)
        if self.has(st, 'duty') and not self.has(st, 'noted'):
            self.bad(eng, 'C16.order', 'the %s are told before the action' % what, ev, st)
        if not self.has(st, 'duty') and not self.fresh(st):
            self.bad(eng, 'C16.once', 'the %s are told the end of a task that this call did not end' % what, ev, st)

    def fresh(self, st):
        """the destructor of a task that never ran tells its followers, too"""
        return self.op.startswith('~') and any(x[1] <= CREATED for x in self.all(st, 'read')) and not self.all(st, 'own') and not self.has(st, 'moved')

    def user_(self, eng, ev, st):
        n = ev.q.split('::')[-1]
        if n == 'on_finished':
            if ev.obj is not None and ev.obj != THIS:
                self.data['finish'] += 1
                if self.has(st, 'noted'):
                    self.bad(eng, 'C16.once', 'the end of the task is reported twice to its action', ev, st)
                if not self.has(st, 'duty'):
                    self.bad(eng, 'C16.once', 'the end of a task is reported by a call that did not end it', ev, st)
                if not self.fin(st, True) and not self.null(eng, st):
                    self.bad(eng, 'C16.order', 'the end of the task is reported while its coroutine may not have finished', ev, st)
                if self.all(st, 'told') or self.has(st, 'taken'):
                    self.bad(eng, 'C16.order', 'the end of the task is reported after its followers were told', ev, st)
                if self.has(st, 'held'):
                    self.bad(eng, 'C16.lock', 'the action runs under the lock', ev, st)
                self.add(st, 'noted')
            return
        if ev.q == '<indirect>' and ev.args and len(ev.args) == 2 and ev.args[1] == THIS:
            self.data['manager'] += 1
            self.tell(eng, ev, st, 'manager')
            if not contains(ev.args[0], self.mgr) or not self.has(st, 'detached', self.mgr[2]) or not self.has(st, 'detached', self.mfn[2]):
                self.bad(eng, 'C16.once', 'the manager is told while the task stays bound to it', ev, st)
        elif ACT.fullmatch(ev.q) and ev.obj is not None and ev.obj != THIS:
            self.other(eng, ev, st)

    def other(self, eng, ev, st):
        """another task is started or resumed"""
        n = ev.q.split('::')[-1]
        if self.has(st, 'held'):
            self.bad(eng, 'C16.lock', 'another task runs under the lock', ev, st)
        if self.adds:
            self.data['now'] += 1
            if ev.obj != ('d', self.target_(eng)):
                self.bad(eng, 'C16.add', 'a task runs that was not asked for', ev, st)
            if self.has(st, 'pushed') or self.has(st, 'now'):
                self.bad(eng, 'C16.add', 'a next task runs twice', ev, st)
            self.add(st, 'now')
            if n not in ('start', 'resume'):
                self.bad(eng, 'C16.add', 'a next task gets %s' % n, ev, st)
            if self.priv and self.priv[0] not in ev.args:
                self.bad(eng, 'C16.add', 'the next task runs without its data', ev, st)
            return
        I = self.get(st, 'at')
        self.data['follow'] += 1
        if I is None or not contains(ev.obj, ('elemof', I)) and not inelem(ev.obj, I):
            self.bad(eng, 'C16.once', 'a task runs that is not the next one in the list', ev, st)
            return
        if n not in ('start', 'resume'):
            self.bad(eng, 'C16.once', 'a next task gets %s' % n, ev, st)
        if self.has(st, 'done'):
            self.bad(eng, 'C16.once', 'a next task runs twice', ev, st)
        self.add(st, 'done')
        if not any(a[0] == 'ld' and is_lv(a[1]) and a[1][0] == 'f' and a[1][2] == 'second' and contains(a[1], ('elemof', I)) for a in ev.args):
            self.bad(eng, 'C16.once', 'a next task runs without its own data', ev, st)

    def step(self, eng, ev, st, s):
        if not self.has(st, 'taken'):
            return
        self.left(eng, ev, st)
        if s[0] == 'over':
            self.tell(eng, ev, st, 'next tasks')
        else:
            self.set(st, 'at', s[1])

    def left(self, eng, ev, st):
        """the walk leaves an element"""
        I = self.get(st, 'at')
        if I is not None and not self.has(st, 'done') and not self.skip(eng, st, I):
            self.bad(eng, 'C16.once', 'a next task is passed over', ev, st)
        self.rm(st, 'at', 'done')

    def skip(self, eng, st, I):
        """an empty entry, or a task that is not valid"""
        E = ('f', ('f', ('d', ('elemof', I)), 'first'), 'px')
        v = st.mem.get(E)
        if v is not None and st.truth(v) is False:
            return True
        for x, (lo, hi, ne) in st.facts.items():
            if lo == hi == 0 and contains(x, ('elemof', I)):
                return True
        return any(x[1] == I for x in self.all(st, 'bad'))

    # ------------------------------------------------------------ adding
    def pair(self, eng, ev, st):
        """do the arguments name the task and the data to add"""
        a = [x for x in ev.args if x[0] != 'pure' or len(ev.args) < 3]
        if len(a) < 2:
            return False
        t, d = a[-2], a[-1]
        P = self.target_(eng)
        return (t == P or is_lv(t) and eng.load(st, ('f', t, 'px')) == P) and (d == self.priv[0] or is_lv(d) and eng.load(st, d) == self.priv[0])

    def push(self, eng, ev, st):
        self.data['pushed'] += 1
        if not self.adds:
            self.bad(eng, 'C16.add', 'a next task is added here', ev, st)
            return
        if self.has(st, 'pushed'):
            self.bad(eng, 'C16.add', 'a next task is added twice', ev, st)
        self.add(st, 'pushed')
        if not self.pair(eng, ev, st) and not self.has(st, 'paired'):
            self.bad(eng, 'C16.add', 'another task or other data is added than asked for', ev, st)
        if self.get(st, 'open') is not True:
            self.bad(eng, 'C16.add', 'a next task is added without a look, under the same lock, whether the task has ended', ev, st)
        if not self.fin(st, False):
            self.bad(eng, 'C16.add', 'a next task is added to a task whose coroutine may have finished', ev, st)

    # ------------------------------------------------------------ exit
    def exit(self, eng, fr, st, kind, val):
        loc = eng.top.loc()
        self.data['exits'] += 1
        if self.has(st, 'own'):
            self.bad(eng, 'C15.run', 'the task stays RUNNING after its runner returned', loc, st)
        if self.has(st, 'ran', 0) and not self.has(st, 'own') and not self.all(st, 'kn'):
            self.bad(eng, 'C15.run', 'the runner never starts the coroutine', loc, st)
        if self.waits and kind == 'ret':
            self.waited(eng, st, loc, val)
        if self.has(st, 'duty'):
            if not self.has(st, 'noted'):
                self.bad(eng, 'C16.once', 'the action is never told the end of the task', loc, st)
            self.told(eng, st, loc)
        elif self.op.startswith('~') and self.fresh(st) and not self.all(st, 'kn'):
            self.told(eng, st, loc)
        elif self.has(st, 'taken'):
            self.bad(eng, 'C16.once', 'the next tasks are taken by a call that did not end the task', loc, st)
        if self.op.startswith('~') and any(x[1] in (RUNNING, WAITING) for x in self.all(st, 'read')) and not self.all(st, 'moved'):
            self.bad(eng, 'C16.once', 'a task that waits is destroyed without being ended', loc, st)
        if self.op in ('start', 'resume', 'cancel', 'kill') and eng.top.cls == self.cls and kind == 'ret' and val is not None:
            z = st.truth(val)
            if self.op in ('cancel', 'kill'):
                mv = self.all(st, 'moved')
                if mv and z is not False:
                    self.bad(eng, 'C15.code', '%s reports an error although it took effect' % self.op, loc, st)
                if not mv and z is not True:
                    self.bad(eng, 'C15.code', '%s reports success without an effect' % self.op, loc, st)
            elif not self.all(st, 'ran') and z is not True:
                self.bad(eng, 'C15.code', '%s reports success without an effect' % self.op, loc, st)
        if self.adds and kind == 'ret':
            self.added(eng, st, loc)

    def target_(self, eng):
        """the task handed to next() or await_task(): the pointer it was called with"""
        pn = eng.top.params[0]['n']
        return ('ld', ('f', ('v', 0, 0, pn), 'px'), 0)

    def added(self, eng, st, loc):
        P = self.target_(eng)
        ret = st.mem.get(('f', ('r', 0), 'px'))
        none = st.truth(P) is False or st.cmp('==', P, ('this',)) is True
        did = self.has(st, 'pushed') or self.has(st, 'now')
        if did and (none or st.cmp('==', P, ('this',)) is not False or st.truth(P) is not True):
            self.bad(eng, 'C16.add', 'a task may follow itself, or no task follows', loc, st)
        if did or not none:
            if ret is not None and ret != P:
                self.bad(eng, 'C16.add', 'the result does not name the task added', loc, st)
        elif ret is not None and ret != ('this',):
            self.bad(eng, 'C16.add', 'the result does not say that nothing was added', loc, st)
        if not did and not none:
            s = self.get(st, 'nst')
            if s is None or s in (CREATED, WAITING):
                self.bad(eng, 'C16.add', 'a next task gets lost', loc, st)

    def waited(self, eng, st, loc, val):
        """the way out of await_task()"""
        if val is None or st.truth(val) is True and not self.has(st, 'added'):
            return                              # refused
        if not self.has(st, 'added'):
            self.bad(eng, 'C16.await', 'await_task reports success without having waited', loc, st)
        elif not self.has(st, 'selfover') and not self.has(st, 'over'):
            self.bad(eng, 'C16.await', 'await_task returns while neither the awaited task nor the task itself has ended', loc, st)

    def wait_event(self, eng, ev, st):
        P = self.target_(eng)
        k = ev.k
        if k == 'called' and ev.q.endswith('::yield') or k == 'call' and ev.q == 'copp::coroutine_context_base::yield':
            if not self.has(st, 'added'):
                self.bad(eng, 'C16.await', 'await_task sleeps without being a follower of the awaited task', ev, st)
        elif k == 'called' and ev.q.endswith('::next') and ev.obj == ('d', P):
            self.set(st, 'asked', ev.val)
        elif k == 'aload' and ev.lv[0] == 'f' and ev.lv[2] == 'status_':
            c = cval(ev.val)
            if ev.lv == STATUS:
                if c in TERM:
                    self.add(st, 'selfover')
            elif ev.lv[1] == ('d', P):
                if c in TERM:
                    self.add(st, 'over')
        elif k == 'called' and ev.q.endswith('::is_finished') and ev.obj is not None and contains(ev.obj, ('d', P)):
            self.set(st, 'fw', ev.val)
        elif k == 'branch':
            v = self.get(st, 'fw')
            if v.__class__ is tuple and st.truth(v) is True:
                self.add(st, 'over')
                self.rm(st, 'fw')
            v = self.get(st, 'asked')
            if v.__class__ is tuple and st.cmp('==', ('fldof', v, 'px'), ('this',)) is True:
                self.add(st, 'added')

    def told(self, eng, st, loc):
        if not self.has(st, 'taken') or not self.has(st, 'told', 'next tasks'):
            self.bad(eng, 'C16.once', 'the next tasks are not run when the task ends', loc, st)
        if not self.has(st, 'told', 'callers'):
            self.bad(eng, 'C16.once', 'the coroutines awaiting the task are not resumed when it ends', loc, st)
        if not self.has(st, 'told', 'manager'):
            ok = self.has(st, 'detached', self.mgr[2]) and self.has(st, 'detached', self.mfn[2])
            if not ok or not self.has(st, 'nomgr'):
                self.bad(eng, 'C16.once', 'the manager of the task is not told its end', loc, st)


def entries(p, cls):
    r = [f for f in p.fns.values() if f.blocks and f.cls == cls and f.fk != 'ctor' and not f.st and
         (f.fk == 'dtor' or not f.acc) and not f.n.startswith('operator')]
    return sorted(r, key=lambda f: (f.line, len(f.params)))


def run(R, pre):
    p = R.load()
    enums(p)
    cs = task_classes(p)
    R.need('task classes', len(cs), 2)
    jobs, who = [], []
    for c in cs:
        fs = entries(p, c)
        R.need('operations of %s' % c[:60], len(fs), 14)
        for f in fs:
            jobs.append((lambda c=c: Task(p, c, pre), f))
            who.append(f)
    tot = {}
    for data, f in zip(R.explore(jobs), who):
        for k, v in data.items():
            tot[k] = tot.get(k, 0) + v
    return p, who, tot


class Build(Facts):
    """task<>::create_with_delegate: what the task is made of when it is handed out"""
    stop = (CO + r'(create|get_private_buffer|set_runner|set_flags)', r'.*::~\w+', r'.*::default_size', r'.*::uint64_id_allocator::\w+')

    def __init__(self, p, cls):
        super().__init__()
        self.p = p
        self.cls = cls
        self.fco = lname(p, cls, lambda t: 'coroutine_context' in t and 'ptr' in t, 'coroutine')
        self.fde = lname(p, cls, lambda t: t.replace(' ', '') == 'void(*)(void*)', 'destroyer of the action')
        self.data = dict(built=0)

    def event(self, eng, ev, st):
        k = ev.k
        if k == 'called':
            n = ev.q.split('::')[-1]
            if n == 'create' and ev.stop:
                self.set(st, 'co', ('fldof', ev.val, 'px'))
                a = ev.args
                self.set(st, 'sizes', tuple(a[-2:]))
            elif n == 'get_private_buffer':
                self.add(st, 'buf', ev.val)
            elif n == 'set_flags':
                self.add(st, 'flag', ev.args[0])
            elif n == 'set_runner':
                if not self.all(st, 'action'):
                    self.bad(eng, 'C17.build', 'the runner is set before the action exists', ev, st)
                if self.all(st, 'runner'):
                    self.bad(eng, 'C17.build', 'the runner is set twice', ev, st)
                self.add(st, 'runner', ev.obj)
        elif k == 'placement':
            T = TCLS.match(ev.ty)
            w = 'task' if T else 'action'
            if self.all(st, w):
                self.bad(eng, 'C17.build', 'the %s is built twice' % w, ev, st)
            self.add(st, w, ev.ptr, ev.sz, ev.ty)
        elif k == 'ctor' and ev.lv[0] == 'f' and ev.lv[2] == 'status_' and ev.args:
            if cval(ev.args[0]) != CREATED:
                self.bad(eng, 'C17.build', 'a new task is not CREATED', ev, st)
            self.add(st, 'created')
        elif k == 'store' and ev.lv[0] == 'd':
            if ev.lv[1] in [x[1] for x in self.all(st, 'buf')]:
                self.add(st, 'back', ev.val)
        elif k == 'ctor' and ev.ty.startswith('std::function<') and ev.args and self.all(st, 'action'):
            v = st.mem.get(ev.args[0])
            if v is not None and v[0] == 'lam' and any(eng.load(st, c) == self.all(st, 'action')[0][1] for _, c in v[2]):
                self.add(st, 'capture')

    def exit(self, eng, fr, st, kind, val):
        if kind != 'ret':
            return
        bad = lambda m: self.bad(eng, 'C17.build', m, eng.top.loc(), st)
        ret = st.mem.get(('f', ('r', 0), 'px'))
        P = self.get(st, 'co')
        if ret is None or st.truth(ret) is False or st.truth(ret) is None and P is None:
            if ret is None or st.truth(ret) is not False:
                bad('it is not clear which task is handed out')
            elif self.all(st, 'task') and st.truth(self.all(st, 'task')[0][1]) is not False:
                bad('a task is built and lost')
            return
        t, a = self.all(st, 'task'), self.all(st, 'action')
        if len(t) != 1 or t[0][1] != ret:
            bad('the task handed out is not the one that was built')
            return
        self.data['built'] += 1
        T = t[0][1]
        if len(a) != 1:
            bad('a task is handed out without its action')
            return
        A = a[0][1]
        if st.truth(A) is False:
            return                              # an address below the coroutine is not null
        # both lie below the coroutine object, apart from each other, inside of the room asked for
        dt, da = ladd(lin(P), lin(T), -1), ladd(lin(P), lin(A), -1)
        if set(dt) != {''} or set(da) != {''}:
            bad('it is not clear where the task and its action lie')
            return
        dt, da, lt, la = dt[''], da[''], t[0][2], a[0][2]
        room = cval(self.get(st, 'sizes')[1])
        if lt > dt or la > da or not (dt - lt >= da or da - la >= dt):
            bad('the task and its action overlap each other or the coroutine')
        if room is None or max(dt, da) > room:
            bad('the task and its action need more room than was asked for')
        if eng.load(st, ('f', ('f', ('d', T), self.fco), 'px')) != P:
            bad('the task does not name its coroutine')
        if self.all(st, 'back') != [('back', T)]:
            bad('the coroutine does not lead back to its task')
        if not self.all(st, 'flag'):
            bad('the coroutine is not marked as one of a task')
        if eng.load(st, ('f', ('d', T), 'action_')) != A:
            bad('the task does not name its action')
        d = eng.load(st, ('f', ('d', T), self.fde))
        own = a[0][3].split('<')[0].split('::')[-1]
        if d[0] != 'fn' or d[2].split('::')[-2] != own and d[2].split('::')[-1] != 'placement_destroy':
            bad('the task does not know how to destroy its action')
        else:
            self.data.setdefault('destroy', set()).add((d[1], a[0][3]))
        if not self.all(st, 'runner') or not self.has(st, 'capture'):
            bad('the coroutine does not run the action')
        if not self.has(st, 'created'):
            bad('the task is not CREATED')
        b = self.get(st, 'sizes')[0]
        x = ladd(lin(b), {('p', 3, eng.top.params[3]['n']): -1})
        self.data.setdefault('extra', set()).add(x.get('') if set(x) <= {''} else None)


class Free(Facts):
    """dropping the last reference of a task"""
    stop = (r'.*::~task', r'copp::intrusive_ptr_(release|add_ref)')

    def __init__(self, p, cls):
        super().__init__()
        self.fco = lname(p, cls, lambda t: 'coroutine_context' in t and 'ptr' in t, 'coroutine')
        self.fde = lname(p, cls, lambda t: t.replace(' ', '') == 'void(*)(void*)', 'destroyer of the action')
        self.data = dict(freed=0)

    def init(self, eng, st, fr):
        self.obj = ('d', ('p', 0, eng.top.params[0]['n']))
        return ()

    def event(self, eng, ev, st):
        bad = lambda m: self.bad(eng, 'C17.free', m, ev, st)
        k = ev.k
        if k == 'armw' and ev.lv[0] == 'f' and ev.lv[1] == self.obj:
            self.set(st, 'left', ev.val)
        elif k == 'call' and ev.q.endswith('::~task') or k == 'dtor' and ev.lv == self.obj:
            if self.has(st, 'dead'):
                bad('the task is destroyed twice')
            if self.has(st, 'noaction'):
                bad('the action is destroyed before the task, which may still run it')
            if st.truth(self.get(st, 'left') or C1) is not False:
                bad('a task with owners left is destroyed')
            if not self.has(st, 'kept') and st.truth(('ld', ('f', ('f', self.obj, self.fco), 'px'), 0)) is not False:
                bad('the coroutine, and with it the memory of the action, may go with the task')
            self.add(st, 'dead')
        elif k == 'user' and ev.q == '<indirect>':
            if self.has(st, 'noaction'):
                bad('the action is destroyed twice')
            if not self.has(st, 'dead'):
                bad('the action is destroyed before the task, which may still run it')
            if self.has(st, 'freed'):
                bad('the action is destroyed after its memory was released')
            if len(ev.args) != 1 or not self.of(ev.args[0], 'action_'):
                bad('something else than the action is destroyed')
            self.add(st, 'noaction')
        elif k == 'call' and ev.q == 'copp::intrusive_ptr_release' and ev.args and contains(ev.args[0], ('f', self.obj, self.fco)):
            if not self.has(st, 'dead'):
                bad('the coroutine is released before its task')
            self.add(st, 'freed')
        elif k == 'call' and ev.q == 'copp::intrusive_ptr_add_ref' and ev.args and contains(ev.args[0], ('f', self.obj, self.fco)):
            self.add(st, 'kept')
        elif k == 'load' and self.has(st, 'dead') and root(ev.lv) == self.obj:
            bad('the task is read after its destruction')
        elif k == 'branch' and any(lo == hi == 0 and (self.of(x, 'action_') or self.of(x, self.fde)) for x, (lo, hi, ne) in st.facts.items()):
            self.add(st, 'none')

    def of(self, v, f):
        return v == ('ld', ('f', self.obj, f), 0)

    def exit(self, eng, fr, st, kind, val):
        left = self.get(st, 'left')
        if left is not None and st.truth(left) is False:
            self.data['freed'] += 1
            if not self.has(st, 'dead'):
                self.bad(eng, 'C17.free', 'the last owner does not destroy the task', eng.top.loc(), st)
            if not self.has(st, 'noaction') and not self.has(st, 'none'):
                self.bad(eng, 'C17.free', 'the action of a task is never destroyed', eng.top.loc(), st)
        elif self.has(st, 'dead') or self.has(st, 'noaction'):
            self.bad(eng, 'C17.free', 'a task with owners left is destroyed', eng.top.loc(), st)


class Destroy(Facts):
    """what destroys an action destroys the whole action, once"""
    stop = (r'.*::~\w+',)

    def __init__(self, ty):
        super().__init__()
        self.ty = ty
        self.data = dict(n=0)

    def event(self, eng, ev, st):
        if ev.k == 'dtor' or ev.k == 'call' and '::~' in ev.q:
            lv = ev.lv if ev.k == 'dtor' else ev.obj
            if lv is not None and lv[0] == 'd':
                if self.has(st, 'gone') and self.all(st, 'gone')[0][1] != ev.loc():
                    self.bad(eng, 'C17.free', 'an action is destroyed twice', ev, st)
                if ev.k == 'call' and self.ty and ev.fn and ev.fn.get('cls') and ev.fn['cls'] != self.ty:
                    self.bad(eng, 'C17.free', 'an action of type %s is destroyed as %s' % (self.ty, ev.fn['cls']), ev, st)
                self.add(st, 'gone')

    def exit(self, eng, fr, st, kind, val):
        self.data['n'] += 1
        P = ('p', 0, eng.top.params[0]['n'])
        if not self.has(st, 'gone') and st.truth(P) is not False:
            self.bad(eng, 'C17.free', 'an action is not destroyed', eng.top.loc(), st)


class Run(Facts):
    """an action calls what the user gave it once and hands on its result"""

    def __init__(self):
        super().__init__()
        self.data = dict(ret=0)

    def event(self, eng, ev, st):
        if ev.k == 'called' and self.user_call(ev):
            if self.all(st, 'ran'):
                self.bad(eng, 'C17.run', 'the user code of a task runs twice', ev, st)
            P = ('p', 0, eng.top.params[0]['n'])
            if ev.args and ev.args[-1] != P and not (is_lv(ev.args[-1]) and eng.load(st, ev.args[-1]) == P):
                self.bad(eng, 'C17.run', 'the data does not reach the user code', ev, st)
            f = ev.fn or {}
            self.add(st, 'ran', ev.val, f.get('rt') in ('int', 'long', 'unsigned int', 'bool') or 'action_function<int>' in eng.top.cls)

    def user_call(self, ev):
        f = ev.fn or {}
        return ev.q == '<indirect>' or ev.q == '<memptr>' or f.get('cls') == '<lambda>' and f.get('n', '').startswith('operator()') or 'drv_' in ev.q

    def exit(self, eng, fr, st, kind, val):
        if kind != 'ret':
            return
        r = self.all(st, 'ran')
        if len(r) != 1:
            self.bad(eng, 'C17.run', 'the user code of a task does not run', eng.top.loc(), st)
        elif r[0][2] or val is not None and val != C0:
            self.data['ret'] += 1
            if val is None or not contains(val, r[0][1]):
                self.bad(eng, 'C17.run', 'the result of the user code gets lost', eng.top.loc(), st)


class Bind(Facts):
    """binding a task to its manager and back"""

    def __init__(self, p, cls):
        super().__init__()
        own = cls.rsplit('::', 1)[0]
        fs = p.recs[own]['fields']
        self.lock = TCLS.match(own) and [f['n'] for f in fs if 'spin_lock' in f['ty']]
        m, f = [x['n'] for x in fs if x['ty'] in ('void *', 'void*')], [x['n'] for x in fs if x['ty'].startswith('void (*)(void *,')]
        if len(m) != 1 or len(f) != 1:
            raise Broken('%s: no binding to a manager' % own)
        self.m, self.f = m[0], f[0]
        self.data = dict(yes=0, no=0)

    def init(self, eng, st, fr):
        ps = eng.top.params
        self.o = ('d', ('p', 0, ps[0]['n']))
        self.new = [('p', i, ps[i]['n']) for i in range(1, len(ps))]
        self.lm, self.lf = ('f', self.o, self.m), ('f', self.o, self.f)
        return ()

    def event(self, eng, ev, st):
        k = ev.k
        if k == 'lock':
            self.add(st, 'held')
        elif k == 'unlock':
            self.rm(st, 'held')
        elif k in ('load', 'store') and ev.lv in (self.lm, self.lf):
            if self.lock and not self.has(st, 'held'):
                self.bad(eng, 'C16.lock', 'the binding of a task is used without its lock', ev, st)
            if k == 'store':
                self.set(st, ev.lv[2], ev.val)
            elif ev.lv == self.lm:
                self.set(st, 'old', ev.val)

    def exit(self, eng, fr, st, kind, val):
        if kind != 'ret':
            return
        a, b = self.get(st, self.m), self.get(st, self.f)
        up = len(self.new) > 1
        old = self.get(st, 'old') or ('ld', self.lm, 0)
        bad = lambda m: self.bad(eng, 'C16.bind', m, eng.top.loc(), st)
        ok = st.truth(val) if val is not None else None
        if ok is None:
            bad('the result does not say whether the task was bound')
        elif ok:
            self.data['yes'] += 1
            if (a, b) != ((self.new[0], self.new[1]) if up else (C0, C0)):
                bad('a task reported as %s is not' % ('bound' if up else 'unbound'))
            if up and st.truth(old) is not False:
                bad('a task bound to a manager is bound to another one')
            if not up and st.cmp('==', old, self.new[0]) is not True:
                bad('a task is unbound from a manager it may not be bound to')
        else:
            self.data['no'] += 1
            if a is not None or b is not None:
                bad('a refused binding changes the task')
            if up and st.truth(old) is False or not up and st.cmp('==', old, self.new[0]) is True:
                bad('a binding is refused without a reason')


class This(Monitor):
    """the running task, from its coroutine"""
    stop = (CO + r'\w+',)

    def __init__(self):
        super().__init__()
        self.data = dict(found=0)

    def init(self, eng, st, fr):
        return (None, None, None)

    def event(self, eng, ev, st):
        if ev.k == 'called' and ev.stop:
            n = ev.q.split('::')[-1]
            a, b, c = st.mon
            if n == 'get_this_coroutine_base':
                st.mon = (ev.val, b, c)
            elif n == 'check_flags' and ev.obj == ('d', a):
                st.mon = (a, ev.val, c)
            elif n == 'get_private_buffer' and ev.obj == ('d', a):
                st.mon = (a, b, ev.val)

    def exit(self, eng, fr, st, kind, val):
        a, b, c = st.mon
        if val is None or st.truth(val) is False and val == C0:
            if a is not None and st.truth(a) is True and b is not None and st.truth(b) is True:
                self.report(eng, 'C17.this', 'the running task is not found', eng.top.loc(), st)
            return
        self.data['found'] += 1
        if a is None or b is None or st.truth(b) is not True or c is None:
            self.report(eng, 'C17.this', 'a coroutine that is not known to be one of a task is taken for one', eng.top.loc(), st)
        elif val[0] != 'ld' or val[1] != ('d', c):
            self.report(eng, 'C17.this', 'the running task is not the one its coroutine belongs to', eng.top.loc(), st)


class Pred(Monitor):
    """what a task says about its status"""
    WANT = dict(is_canceled=(CANCELED,), is_timeout=(TIMEOUT,), is_faulted=(KILLED, TIMEOUT), is_exiting=TERM, is_completed=TERM)

    def __init__(self):
        super().__init__()
        self.data = dict(n=0)

    def init(self, eng, st, fr):
        return None

    def atomic_values(self, eng, st, lv):
        return DOM if lv[0] == 'f' and lv[2] == 'status_' else None

    def event(self, eng, ev, st):
        if ev.k == 'aload' and ev.lv == STATUS:
            st.mon = cval(ev.val)

    def exit(self, eng, fr, st, kind, val):
        self.data['n'] += 1
        w = self.WANT[eng.top.n]
        if st.mon is None or val is None or st.truth(val) is not (st.mon in w):
            self.report(eng, 'C15.look', '%s() does not tell the truth about a task that is %s' % (eng.top.n, '?' if st.mon is None else NAMES[st.mon][6:]), eng.top.loc(), st)


class Room(Rec):
    """the private buffer of a task"""
    stop = (CO + r'get_private_buffer(_size)?',)

    def pick(self, eng, ev, st):
        if ev.k == 'called' and ev.stop:
            return ('got', ev.q.split('::')[-1], ev.val)


def c15(R):
    R.rule('C15.edge', 'whatever other threads do, every change of the status is one of: CREATED or WAITING to RUNNING, RUNNING to WAITING or DONE by the runner with the coroutine not finished / finished, not RUNNING to CANCELED, not final to the final status asked for')
    R.rule('C15.run', 'the coroutine is started exactly once by the call that made the task RUNNING, with the data given, and that call leaves the task not RUNNING')
    R.rule('C15.code', 'start, resume, cancel and kill report success exactly when they took effect')
    R.rule('C15.end', 'each operation returns for every status the task may have, if nobody else uses the task meanwhile')
    R.rule('C15.look', 'the questions about the status are answered truthfully for every status')
    p, who, tot = run(R, 'C15')
    for f in who:
        R.ob('C15.edge', f.q + ' ' + f.cls, True, f.loc())
    fs = [f for f in p.fns.values() if f.blocks and f.cls == 'cotask::impl::task_impl' and f.n in Pred.WANT]
    R.need('questions about the status', len(fs), 5)
    R.need('answers', sum(d['n'] for d in R.explore([(Pred, f) for f in fs])), 10)
    for f in fs:
        R.ob('C15.look', f.q, True, f.loc())
    jobs = [(f, s, e) for f in who if f.n in ('start', 'resume', 'cancel', 'kill') or f.fk == 'dtor' for s in DOM
            for e in ((CREATED, WAITING) if f.n in ('start', 'resume') else (0,))]
    for (f, s, e), d in zip(jobs, R.explore([(lambda f=f, s=s, e=e: Task(p, f.cls, '-', (s, e)), f) for f, s, e in jobs])):
        if not d['exits']:
            R.violate('C15.end', '%s %s' % (f.q, NAMES[s]), f.loc(), '%s of a task that is %s never returns, even if nobody else uses the task' % (f.n, NAMES[s][6:]))
    R.count('operations and statuses for which it returns', len(jobs))
    R.need('changes of the status', tot['edge'], 20)
    R.need('runs of the coroutine', tot['run'], 20)
    R.assume('the status handed to kill() is a final one')
    R.assume('other threads change the status only by the same operations (checked here for each of them)')


def c16(R):
    R.rule('C16.once', 'each call that ends a task, and only that, tells the end to its action, each follower, each awaiting coroutine and the manager exactly once')
    R.rule('C16.order', 'the coroutine has finished before the action is told, and the action is told before the followers')
    R.rule('C16.lock', 'the followers and the binding to the manager are used under the lock, nothing is run under it')
    R.rule('C16.add', 'a task to follow is queued under the same lock that sees the task not ended, otherwise started or resumed at once; the result names it')
    R.rule('C16.await', 'await_task returns success only after the awaited task has ended')
    R.rule('C16.bind', 'binding to and unbinding from a manager tell the truth and are not mixed up')
    p, who, tot = run(R, 'C16')
    for f in who:
        R.ob('C16.once', f.q + ' ' + f.cls, True, f.loc())
    fs = [f for f in p.fns.values() if f.blocks and f.cls.endswith('::task_manager_helper') and f.n in ('setup_task_manager', 'cleanup_task_manager')]
    R.need('operations on the binding', len(fs), 6)
    ds = R.explore([(lambda c=f.cls: Bind(p, c), f) for f in fs])
    for f, d in zip(fs, ds):
        R.need('outcomes of ' + f.n, min(d['yes'], d['no']), 1)
        R.ob('C16.bind', f.q + ' ' + f.cls, True, f.loc())
    R.need('reports to the action', tot['finish'], 10)
    R.need('followers run', tot['follow'], 20)
    R.need('reports to awaiting coroutines', tot['callers'], 10)
    R.need('reports to the manager', tot['manager'], 10)
    R.need('followers queued', tot['pushed'], 2)
    R.need('followers run at once', tot['now'], 2)
    R.assume('other threads change the status only by the operations of the task (C15)')


def c17(R):
    R.rule('C17.build', 'the task handed out owns its coroutine and its action, in disjoint places inside the room asked for, is CREATED, and its coroutine runs the action and leads back to it')
    R.rule('C17.free', 'the last owner destroys the task, then its action with the matching destroyer, then releases the coroutine, each once')
    R.rule('C17.run', 'the action calls the user code once with the data given and hands on an integer result')
    R.rule('C17.this', 'the running task is found exactly through a coroutine marked as one of a task')
    R.rule('C17.buf', 'the private buffer of a task lies behind the pointer of the task and is that much smaller than the one of its coroutine')
    p = R.load()
    enums(p)
    bs = [f for f in p.fns.values() if f.blocks and f.n == 'create_with_delegate' and TCLS.match(f.cls)]
    R.need('ways to create a task', len(bs), 6)
    extra, des = set(), set()
    for f, d in zip(bs, R.explore([(lambda c=f.cls: Build(p, c), f) for f in bs])):
        R.need('tasks handed out', d['built'], 1)
        extra |= d.get('extra', set())
        des |= d.get('destroy', set())
        R.ob('C17.build', f.q + ' ' + f.params[0]['ty'][:80], True, f.loc())
    for fid, ty in sorted(des):
        f = p.fns.get(fid)
        if f is None or not f.blocks:
            raise Broken('destroyer of %s not found' % ty)
        if f.cls and f.cls != ty:
            R.violate('C17.free', ty, f.loc(), 'actions of type %s are destroyed as %s' % (ty, f.cls))
        R.explore([(lambda t=ty: Destroy(t), f)])
        R.ob('C17.free', 'action %s' % ty[:80], True, f.loc())
    R.need('kinds of actions destroyed', len(des), 4)
    fs = [f for f in p.fns.values() if f.blocks and f.n == 'intrusive_ptr_release' and f.params and TCLS.match(f.params[0]['ty'].replace(' *', ''))]
    R.need('releases', len(fs), 2)
    for f, d in zip(fs, R.explore([(lambda f=f: Free(p, f.params[0]['ty'].replace(' *', '')), f) for f in fs])):
        R.need('last drops', d['freed'], 2)
        R.ob('C17.free', f.q + ' ' + f.params[0]['ty'], True, f.loc())
    fs = [f for f in p.fns.values() if f.blocks and f.n == 'operator()' and (re.match(r'cotask::task_action_\w+<', f.cls) or f.cls == '<lambda>' and 'create_with_delegate' in f.q)]
    R.need('actions', len(fs), 10)
    ds = R.explore([(Run, f) for f in fs])
    for f in fs:
        R.ob('C17.run', f.q[-60:] + ' ' + f.cls[:60], True, f.loc())
    R.need('results handed on', sum(d['ret'] for d in ds), 8)
    fs = [f for f in p.fns.values() if f.blocks and f.cls == 'cotask::impl::task_impl' and f.n == 'this_task']
    R.need('this_task', len(fs), 1)
    for f, d in zip(fs, R.explore([(This, f) for f in fs])):
        R.need('tasks found', d['found'], 1)
        R.ob('C17.this', f.q, True, f.loc())
    for c in task_classes(p):
        off = set()
        for f in [f for f in p.fns.values() if f.blocks and f.cls == c and f.n in ('get_private_buffer', 'get_private_buffer_size')]:
            for e in R.explore([(Room, f)])[0]:
                if e['kind'] != 'ret' or e['val'] is None or not e['ev']:
                    continue
                got = e['ev'][-1]
                d = ladd(lin(e['val']), lin(got[2]), -1)
                d = d.get('', 0) if set(d) <= {''} else None
                off.add(None if d is None else d if f.n == 'get_private_buffer' else -d)
                if got[1] != f.n:
                    R.violate('C17.buf', f.q, f.loc(), 'the private buffer is mixed up with its size')
            R.ob('C17.buf', f.q + ' ' + c, True, f.loc())
        if len(off) != 1 or off != extra or None in off or min(off) < 8:
            R.violate('C17.buf', c, 'include/libcotask/task.h', 'the private buffer is placed at %s behind its start, but %s were reserved' % (sorted(map(str, off)), sorted(map(str, extra))))


PROPS = {'C15': c15, 'C16': c16, 'C17': c17}
