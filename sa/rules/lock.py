"""Reference counting pointer, atomic wrapper, spin lock, lock holders (C08, C09); nothing foreign under a lock (C10)."""
from rules.common import *

ACQ = (2, 4, 5)          # acquire, acq_rel, seq_cst
REL = (3, 4, 5)
IP = 'copp::util::intrusive_ptr'


def sv(eng, st, v):
    return eng.load(st, v) if isinstance(v, tuple) and is_lv(v) else v


def truthy(st, v):
    return v is not None and v != C0 and v[0] != 'undef' and st.truth(v) is not False


# ------------------------------------------------------------------------------------------------- conservation
class Own(Rec):
    """acquisitions minus releases of every resource equal the change of its owners"""
    field = 'px'
    throws = False

    def __init__(self, alias=False):
        super().__init__()
        self.alias = alias

    def setup(self, eng, st, fr):
        f = fr.fn
        self.other = None
        self.box = None
        self.raw = []
        for i, x in enumerate(f.params):
            t = x['ty']
            lv = ('d', ('p', i, x['n']))
            if self.isown(t):
                self.other = THIS if self.alias else lv
                if self.alias:
                    st.mem[('v', fr.fid, x['v'], x['n'])] = ('a', THIS)
            elif 'unique_ptr' in t:
                self.box = lv
        self.before = {}
        if self.other and not self.alias:
            st.assume(('op', '==', self.other[1], ('this',)), False)
        if f.fk != 'ctor':
            self.before['this'] = eng.load(st, tf(self.field))
        if self.other and not self.alias:
            self.before['other'] = eng.load(st, ('f', self.other, self.field))

    def isown(self, t):
        return 'intrusive_ptr<' in t and '&' in t

    def res(self, eng, st, ev):
        if ev.k == 'call' and re.fullmatch(r'(.*::)?intrusive_ptr_(add_ref|release)', ev.q):
            return ('acq' if ev.q.endswith('add_ref') else 'rel', sv(eng, st, ev.args[0]), '')
        return None

    def pick(self, eng, ev, st):
        r = self.res(eng, st, ev)
        if r:
            return r + (eng.load(st, tf(self.field)),)
        return None

    def final(self, eng, fr, st, kind, val):
        r = dict(st=st.copy(), before=self.before, after={})
        if fr.fn.fk != 'dtor':
            r['after']['this'] = eng.load(st, tf(self.field))
        if self.other and not self.alias:
            r['after']['other'] = eng.load(st, ('f', self.other, self.field))
        if self.box:
            r['box'] = eng.load(st, self.box)
        return r


def same(st, a, b):
    return a == b or (a[0] != 'undef' and b[0] != 'undef' and st.cmp('==', a, b) is True)


def conserve(R, rule, f, d, extra_before=(), extra_after=(), alias=False):
    fin = d['fin']
    st = fin['st']
    vals = list(fin['before'].values()) + list(fin['after'].values()) + [e[1] for e in d['ev']] + list(extra_before) + list(extra_after)
    done = []
    for v in vals:
        if not truthy(st, v) or any(same(st, v, w) for w in done):
            continue
        done.append(v)
        n = lambda l: sum(1 for x in l if truthy(st, x) and same(st, x, v))
        delta = n(list(fin['after'].values()) + list(extra_after)) - n(list(fin['before'].values()) + list(extra_before))
        got = n([e[1] for e in d['ev'] if e[0] == 'acq']) - n([e[1] for e in d['ev'] if e[0] == 'rel'])
        if delta != got:
            R.ob(rule, f.q, False, f.loc(), '%s: owners change by %d, but it is acquired/released %+d times' % (show(v), delta, got), d['path'], f.q)
            return False
    R.ob(rule, f.q + ('%s' % (' (self)' if alias else '')), True, f.loc())
    return True


class Compare(Rec):
    """free comparisons and swap of reference counting pointers"""
    throws = False

    def final(self, eng, fr, st, kind, val):
        if kind != 'ret':
            return None
        w = []
        for i, x in enumerate(fr.fn.params):
            if 'intrusive_ptr<' in x['ty']:
                lv = ('f', ('d', ('p', i, x['n'])), 'px')
                w.append((('ld', lv, 0), eng.load(st, lv)))
            else:
                v = C0 if 'nullptr_t' in x['ty'] else ('p', i, x['n'])
                w.append((v, v))
        if len(w) != 2:
            return None
        (a0, a1), (b0, b1) = w
        if fr.fn.n == 'swap':
            return (same(st, a1, b0) and same(st, b1, a0),)
        if (a0, b0) != (a1, b1) or val is None:
            return (False,)
        ok = True
        for want in (True, False):
            s = st.copy()
            if s.assume(('op', '==', a0, b0), want) is False:
                continue
            t = s.truth(val)
            if t is None and val[0] == 'op' and val[1] in ('==', '!=') and {repr(val[2]), repr(val[3])} == {repr(a0), repr(b0)}:
                t = want == (val[1] == '==')
            ok = ok and t is (want == (fr.fn.n == 'operator=='))
        return (ok,)


def free_ops(R, p):
    R.rule('C08.compare', 'comparing two pointers compares the objects they name and changes nothing; the free swap exchanges them')
    fs = [f for f in p.fns.values() if f.blocks and not f.cls and f.n in ('operator==', 'operator!=', 'swap') and any('intrusive_ptr<' in x['ty'] for x in f.params) and
          'intrusive_ptr' in f.loc()]
    R.need('free comparisons and swaps', len(fs), 1)
    for f, data in zip(fs, R.explore([(Compare, f) for f in fs])):
        for d in data:
            if d['fin'] is not None:
                R.ob('C08.compare', f.q + ' ' + ','.join(x['ty'] for x in f.params), d['fin'][0], f.loc(), '%s does not %s' % (
                    f.q, 'exchange the objects' if f.n == 'swap' else 'say whether both name the same object'), d['path'], f.q)


def c08(R):
    p = R.load()
    free_ops(R, p)
    R.rule('C08.count', 'in every operation of the reference counting pointer, references added minus references dropped of each object equal the change of its owners')
    R.rule('C08.order', 'an assignment never adds a reference after it dropped one, and a reference is dropped only after the pointer stopped naming the object (the object\'s destructor may come back)')
    R.rule('C08.empty', 'a moved-from or detached pointer is empty; swap exchanges; get, dereference, bool and comparisons only read')
    R.rule('C08.counter', 'adding and dropping a reference is one atomic step of one on the counter; the object is destroyed exactly when the step reaches zero')
    fs = [f for f in p.fns.values() if f.cls.startswith(IP + '<') and f.blocks]
    R.need('operations of the reference counting pointer', len(fs), 60)
    jobs, todo = [], []
    for f in fs:
        jobs.append((Own, f, lambda e, s, fr: e.mon.setup(e, s, fr)))
        todo.append((f, False))
        if f.fk is None and len(f.params) == 1 and 'intrusive_ptr<' in f.params[0]['ty'] and f.cls.split(IP)[1] in f.params[0]['ty'] and f.n in ('operator=', 'swap'):
            jobs.append((lambda: Own(True), f, lambda e, s, fr: e.mon.setup(e, s, fr)))
            todo.append((f, True))
    for data, (f, alias) in zip(R.explore(jobs), todo):
        name = f.q.rsplit('::', 1)[-1]
        if name == 'operator=' and 'operator' not in f.n:
            name = f.n
        for d in data:
            fin, st = d['fin'], d['fin']['st']
            eb, ea = [], []
            if f.n == 'detach':
                ea.append(d['val'] if d['val'] is not None else C0)
            for i, x in enumerate(f.params):
                if x['ty'].rstrip().endswith('*') and x['ty'] != 'void *':
                    flag = [(j, y) for j, y in enumerate(f.params) if y['ty'] == 'bool']
                    if flag and st.truth(('p', flag[0][0], flag[0][1]['n'])) is False:
                        eb.append(('p', i, x['n']))
            if not conserve(R, 'C08.count', f, d, eb, ea, alias):
                continue
            rel = [i for i, e in enumerate(d['ev']) if e[0] == 'rel' and truthy(st, e[1])]
            acq = [i for i, e in enumerate(d['ev']) if e[0] == 'acq' and truthy(st, e[1])]
            if f.fk is None:
                ok = not (rel and acq and max(acq) > min(rel))
                R.ob('C08.order', f.q, ok, f.loc(), 'a reference is added after one was dropped: the object may be gone', d['path'], f.q)
                ok = all(not (same(st, d['ev'][i][1], d['ev'][i][3]) and truthy(st, d['ev'][i][3])) for i in rel)
                R.ob('C08.order', f.q, ok or alias, f.loc(), 'the reference is dropped while the pointer still names the object', d['path'], f.q)
            b, a = fin['before'], fin['after']
            pt = f.params[0]['ty'] if f.params else ''
            if alias:
                R.ob('C08.empty', f.q, same(st, b['this'], a['this']), f.loc(), 'assignment to itself loses the object', d['path'], f.q)
                continue
            if f.n == 'swap':
                R.ob('C08.empty', f.q, a['this'] == b['other'] and a['other'] == b['this'], f.loc(), 'swap does not exchange', d['path'], f.q)
            elif (f.fk == 'ctor' or f.n == 'operator=') and 'other' in b:
                R.ob('C08.empty', f.q, same(st, a['this'], b['other']), f.loc(), 'the pointer does not take over the object', d['path'], f.q)
                if pt.endswith('&&'):
                    R.ob('C08.empty', f.q, a['other'] == C0 or f.n == 'operator=' and same(st, a['other'], b['this']), f.loc(), 'the moved-from pointer still names the object', d['path'], f.q)
                else:
                    R.ob('C08.empty', f.q, a['other'] == b['other'], f.loc(), 'copying changes the source', d['path'], f.q)
            elif f.n == 'detach' or f.n == 'reset' and not f.params:
                R.ob('C08.empty', f.q, a['this'] == C0 or st.truth(a['this']) is False, f.loc(), 'the pointer is not empty afterwards', d['path'], f.q)
            elif f.n in ('reset',) or f.fk == 'ctor' and f.params and pt.endswith('*'):
                R.ob('C08.empty', f.q, same(st, a['this'], ('p', 0, f.params[0]['n'])), f.loc(), 'the pointer does not name the object given', d['path'], f.q)
            elif f.fk == 'ctor' and not f.params:
                R.ob('C08.empty', f.q, a['this'] == C0, f.loc(), 'a fresh pointer is not empty', d['path'], f.q)
            elif 'unique_ptr' in pt:
                R.ob('C08.empty', f.q, fin.get('box') == C0 and truthy(st, a['this']) is not None, f.loc(), 'the unique pointer still owns the object', d['path'], f.q)
            elif f.fk is None:
                R.ob('C08.empty', f.q, a['this'] == b['this'], f.loc(), 'reading changes the pointer', d['path'], f.q)
            if f.n in ('get', 'operator->') and d['val'] is not None:
                R.ob('C08.empty', f.q, same(st, d['val'], b['this']), f.loc(), 'another object is returned', d['path'], f.q)
            if f.n in ('operator bool', 'operator!') and d['val'] is not None:
                t, v = st.truth(b['this']), d['val']
                want = ('op', '!=' if f.n == 'operator bool' else '==', b['this'], C0)
                ok = v == want or v == eq_norm(want) or st.truth(v) == st.truth(want) and st.truth(v) is not None or \
                    v == ('op', '!', ('op', '!=' if f.n == 'operator!' else '==', b['this'], C0)) or (v == b['this'] and f.n == 'operator bool') or \
                    v == ('op', '!', b['this']) and f.n == 'operator!'
                R.ob('C08.empty', f.q, ok, f.loc(), 'the test for emptiness is wrong (%s)' % show(v), d['path'], f.q)
    # ---- counters
    fs = [f for f in p.fns.values() if re.fullmatch(r'(\w+::)*intrusive_ptr_(add_ref|release)', f.q) and f.blocks]
    R.need('functions that count references', len(fs), 10)
    jobs = [(Count, f) for f in fs]
    for data, f in zip(R.explore(jobs), fs):
        add = f.q.endswith('add_ref')
        ptr = ('p', 0, f.params[0]['n'])
        for d in data:
            st = d['fin']
            at = [e for e in d['ev'] if e[0] == 'rmw']
            kill = [e for e in d['ev'] if e[0] == 'kill']
            if st.truth(ptr) is False:
                R.ob('C08.counter', f.q, not at and not kill, f.loc(), 'a null object is counted', d['path'], f.q)
                continue
            ok = len(at) == 1 and at[0][1] == ('str', 'add' if add else 'sub') and at[0][2] == C1
            if not R.ob('C08.counter', f.q, ok, f.loc(), 'the counter is not changed by exactly one atomic step of one', d['path'], f.q):
                continue
            if add:
                R.ob('C08.counter', f.q, not kill, f.loc(), 'adding a reference destroys', d['path'], f.q)
                continue
            new = at[0][4] if not at[0][5] else ('op', '-', at[0][4], C1)
            zero = st.cmp('==', at[0][4], C1) if at[0][5] else st.cmp('==', at[0][4], C0)
            R.ob('C08.counter', f.q, at[0][3] in REL, f.loc(), 'the step down does not publish this owner\'s writes', d['path'], f.q)
            if zero is True:
                R.ob('C08.counter', f.q, len(kill) == 1, f.loc(), 'the last reference destroys the object %d times' % len(kill), d['path'], f.q)
            else:
                R.ob('C08.counter', f.q, zero is False and not kill, f.loc(), 'the object is destroyed although references are left' if kill else
                     'it is not decided whether this was the last reference', d['path'], f.q)


def eq_norm(v):
    return ('op', v[1], v[3], v[2])


class Count(Rec):
    stop = (r'.*::~\w+', r'copp::allocator::.*', r'.*::(de)?allocate')

    def pick(self, eng, ev, st):
        if ev.k == 'armw':
            return ('rmw', ('str', ev.op), ev.arg, ev.order, ev.val, ev.d.get('post', True))
        if ev.k == 'store' and root(ev.lv)[0] == 'd' and 'generator_vtable' in eng.top.params[0]['ty']:
            # private to one future and its awaitables (one thread): a plain counter
            old, raw = ev.d.get('old'), ev.d.get('raw')
            d = ladd(lin(raw), lin(old), -1) if old is not None and raw is not None else {}
            return ('rmw', ('str', 'add' if d == {'': 1} else 'sub' if d == {'': -1} else '?'), C1, 4, raw or C0, False)
        if ev.k in ('astore', 'cas'):
            return ('rmw', ('str', ev.k), C0, 0, C0, True)
        if ev.k == 'delete' or ev.k == 'dtor' and root(ev.lv)[0] == 'd' or ev.k == 'call' and '::~' in ev.q and root(ev.obj)[0] == 'd':
            return ('kill',)
        return None

    def event(self, eng, ev, st):
        r = self.pick(eng, ev, st)
        if r is None:
            return
        if r == ('kill',):
            # only the object itself, not members of the control object
            lv = ev.d.get('lv') if ev.k == 'dtor' else ev.d.get('obj') if ev.k == 'call' else eng.deref(ev.val) if 'val' in ev.d else ('d', ('p', 0, eng.top.params[0]['n']))
            if lv != ('d', ('p', 0, eng.top.params[0]['n'])):
                return
            kind = 'delete' if ev.k == 'delete' else 'dtor'
            prev = [e[1] for e in st.mon if e[0] == 'kill']
            if prev and (ev.k == 'dtor' or kind == 'delete' and prev[-1] == 'dtor' and 'delete' not in prev):
                return
            r = ('kill', kind)
        st.mon = st.mon + (r + (ev.loc(),),)
        eng.tr(st, ev.fr, ev.line, str(r[0]))

    def final(self, eng, fr, st, kind, val):
        return st.copy()



# ------------------------------------------------------------------------------------------------- spin lock
LCK = 'copp::util::lock::'


class Spin(Monitor):
    """the lock word under arbitrary interference; ghost: do I hold the lock"""
    throws = False

    def __init__(self, held):
        super().__init__()
        self.held = held
        self.data = []

    def init(self, eng, st, fr):
        return (self.held, 0, None, None)     # held, how often taken, order of taking, order of release

    def word(self, lv):
        return root(lv) == THIS

    def atomic_values(self, eng, st, lv):
        if not self.word(lv):
            return None
        if not st.mon[0] and eng.top.n == 'try_unlock':
            return (0,)          # opening a lock somebody else holds is the caller's fault
        return (1,) if st.mon[0] else (0, 1)

    def change(self, eng, ev, st, old, new, order):
        held, n, ta, tr = st.mon
        if new not in (0, 1):
            self.bad(eng, st, ev, 'C09.spin', 'the lock word gets a value that is neither locked nor unlocked')
        elif held and new == 0:
            st.mon = (False, n, ta, order)
        elif held:
            pass
        elif old == 0 and new == 1:
            st.mon = (True, n + 1, order, tr)
        elif old == 1 and new == 0:
            self.bad(eng, st, ev, 'C09.spin', 'the lock of another owner is opened')
        elif old is None and new == 1:
            self.bad(eng, st, ev, 'C09.spin', 'the lock word is set to locked without looking whether it was')
        elif old is None and new == 0 and self.held is False and eng.top.fk != 'ctor':
            self.bad(eng, st, ev, 'C09.spin', 'a lock not held is opened')

    def bad(self, eng, st, ev, rule, msg):
        self.report(eng, rule, msg, ev, st)

    def event(self, eng, ev, st):
        if ev.k not in ('cas', 'astore', 'armw', 'aload') or not self.word(ev.lv):
            return
        if ev.k == 'astore':
            self.change(eng, ev, st, 1 if st.mon[0] else None, cval(ev.val), ev.order)
        elif ev.k == 'cas':
            if ev.ok:
                self.change(eng, ev, st, cval(ev.exp), cval(ev.des), ev.order)
        elif ev.k == 'armw':
            new = cval(ev.arg) if ev.op == 'exchange' else cval(ev.d.get('new') or UNDEF)
            if new is None:
                self.bad(eng, st, ev, 'C09.spin', 'the lock word gets an unknown value')
            else:
                self.change(eng, ev, st, cval(ev.val), new, ev.order)
        else:
            st.mon = st.mon[:2] + (ev.order if not st.mon[0] else st.mon[2], st.mon[3] if st.mon[3] is not None else ('c', cval(ev.val)))

    def exit(self, eng, fr, st, kind, val):
        self.data.append(dict(kind=kind, val=val, mon=st.mon, truth=None if val is None else st.truth(eng.load(st, val) if is_lv(val) else val), path=eng.path(st)[-25:]))


def spin(R, p):
    fs = {f.n: f for f in p.fns.values() if f.cls == LCK + 'spin_lock' and f.blocks and f.fk is None}
    R.need('operations of the spin lock', len([n for n in ('lock', 'unlock', 'try_lock', 'try_unlock', 'is_locked') if n in fs]), 5)
    plan = [('lock', False), ('unlock', True), ('try_lock', False), ('try_unlock', True), ('try_unlock', False), ('is_locked', False)]
    plan = [(n, h) for n, h in plan]
    jobs = [((lambda h=h: Spin(h)), fs[n]) for n, h in plan]
    for data, (n, h) in zip(R.explore(jobs), plan):
        f = fs[n]
        if not data:
            R.ob('C09.spin', n, False, f.loc(), 'the operation never returns', fn=f.q)
        for d in data:
            held, k, ta, tr = d['mon']

            def chk(ok, msg):
                R.ob('C09.spin', n, ok, f.loc(), msg, d['path'], f.q)
            if n in ('lock', 'try_lock'):
                if n == 'lock':
                    chk(held, 'lock() returns without owning the lock')
                else:
                    chk(d['truth'] is held, 'try_lock() reports %s although the lock is %s' % (d['truth'], 'taken' if held else 'not taken'))
                if held:
                    chk(ta in ACQ, 'taking the lock does not acquire the previous owner\'s writes')
            elif n in ('unlock', 'try_unlock') and h:
                chk(not held, 'the lock stays taken')
                chk(tr in REL, 'opening the lock does not release this owner\'s writes')
                if n == 'try_unlock':
                    chk(d['truth'] is True, 'try_unlock() of a taken lock does not report success')
            elif n == 'try_unlock':
                chk(not held, 'try_unlock() takes the lock')
            elif n == 'is_locked':
                chk(not held and k == 0, 'is_locked() changes the lock')
                chk(ta in ACQ, 'is_locked() does not acquire')
                chk(tr is not None and isinstance(tr, tuple) and d['truth'] is (tr[1] == 1), 'is_locked() reports the wrong state')


# ------------------------------------------------------------------------------------------------- lock holder
KIND = {'lock': 'x', 'try_lock': 'x', 'unlock': 'x', 'try_unlock': 'x', 'read_lock': 'r', 'read_unlock': 'r', 'write_lock': 'w', 'write_unlock': 'w'}


class Hold(Own):
    stop = (r'drv_rw::.*',)

    def __init__(self, field, alias=False):
        super().__init__(alias)
        self.field = field

    def isown(self, t):
        return 'lock_holder<' in t and '&' in t

    def res(self, eng, st, ev):
        if ev.k in ('lock', 'unlock'):
            return ('acq' if ev.k == 'lock' else 'rel', eng.addr(ev.lv), 'x')
        if ev.k == 'call' and ev.obj is not None and ev.q.rsplit('::', 1)[-1] in ('read_lock', 'read_unlock', 'write_lock', 'write_unlock'):
            n = ev.q.rsplit('::', 1)[-1]
            return ('rel' if 'unlock' in n else 'acq', eng.addr(ev.obj), KIND[n])
        return None


def holders(R, p):
    fs = [f for f in p.fns.values() if re.match(r'copp::util::lock::lock_holder<', f.cls) and f.blocks]
    R.need('operations of lock holders', len(fs), 14)
    jobs, todo = [], []
    for f in fs:
        ptr = [x['n'] for x in p.recs[f.cls]['fields'] if x['ty'].rstrip().endswith('*')]
        if len(ptr) != 1:
            raise Broken('lock_holder: the field naming the lock was not found')
        for al in ((False, True) if f.n == 'operator=' else (False,)):
            jobs.append(((lambda fl=ptr[0], al=al: Hold(fl, al)), f, lambda e, s, fr: e.mon.setup(e, s, fr)))
            todo.append((f, ptr[0], al))
    want = {}
    for data, (f, fl, al) in zip(R.explore(jobs), todo):
        kind = 'r' if 'read_lock' in f.cls else 'w' if 'write_lock' in f.cls else 'x'
        for d in data:
            fin, st = d['fin'], d['fin']['st']
            b = fin['before']
            if 'other' in b and 'this' in b and truthy(st, b['other']) and same(st, b['this'], b['other']) and not al:
                continue          # two holders of one exclusive lock: excluded by the rule itself
            if not conserve(R, 'C09.holder', f, d, alias=al):
                continue
            for e in d['ev']:
                R.ob('C09.holder', f.q, e[2] == kind, f.loc(), 'a %s holder uses the wrong operation of the lock' % {'r': 'read', 'w': 'write', 'x': 'plain'}[kind], d['path'], f.q)
            if f.fk == 'ctor' and 'other' not in b:
                R.ob('C09.holder', f.q, len(d['ev']) <= 1 and all(e[0] == 'acq' for e in d['ev']), f.loc(), 'construction does more than taking the lock once', d['path'], f.q)
                want.setdefault(f.cls, set()).add(bool(d['ev']))
            elif f.n == 'is_available':
                v = d['val']
                R.ob('C09.holder', f.q, v in (('op', '!=', b['this'], C0), ('op', '!=', C0, b['this']), ('op', '!', ('op', '==', b['this'], C0)), ('op', '!', ('op', '==', C0, b['this'])), b['this']) or
                     st.truth(v) is not None and st.truth(v) is st.truth(b['this']), f.loc(), 'is_available() does not tell whether the lock is held', d['path'], f.q)
            elif f.n == 'reset':
                R.ob('C09.holder', f.q, st.truth(fin['after']['this']) is False, f.loc(), 'the holder is not empty after reset()', d['path'], f.q)
            elif 'other' in fin['after'] and not al:
                R.ob('C09.holder', f.q, same(st, fin['after']['this'], b['other']), f.loc(), 'the lock is not handed over', d['path'], f.q)
            elif al:
                R.ob('C09.holder', f.q, same(st, fin['after']['this'], b['this']), f.loc(), 'assignment to itself loses the lock', d['path'], f.q)
    for c, w in want.items():
        R.ob('C09.holder', c, True in w, '', 'constructing the holder never takes the lock')


# ------------------------------------------------------------------------------------------------- atomic wrapper
def wrapper(R, p):
    fs = [f for f in p.fns.values() if re.match(r'copp::util::lock::atomic_int_type<', f.cls) and 'unsafe_int_type' not in f.cls and f.blocks]
    R.need('operations of the atomic wrapper', len(fs), 60)

    class W(Rec):
        throws = False

        def pick(self, eng, ev, st):
            if ev.k == 'cas':
                return ('cas', ev.exp, ev.des, ev.order, ev.forder, C1 if ev.ok else C0, C1 if ev.weak else C0)
            if ev.k == 'astore':
                return ('store', ev.val, ev.order)
            if ev.k == 'aload':
                return ('load', ev.val, ev.order)
            if ev.k == 'armw':
                return ('rmw', ('str', ev.op), ev.arg, ev.order, ev.val, C1 if ev.d.get('post') or ev.op == 'exchange' else C0)
            return None

        def final(self, eng, fr, st, kind, val):
            r = dict(st=st.copy())
            if 'compare_exchange' in fr.fn.n:
                r['exp'] = eng.load(st, ('d', ('p', 0, fr.fn.params[0]['n'])))
            if fr.fn.fk == 'ctor':
                r['data'] = [v for k, v in st.mem.items() if root(k) == THIS and k != THIS]
            return r
    RMW = {'operator++': 'add', 'operator--': 'sub', 'exchange': 'exchange', 'fetch_add': 'add', 'fetch_sub': 'sub', 'fetch_and': 'and', 'fetch_or': 'or', 'fetch_xor': 'xor'}
    jobs = [(W, f, None) for f in fs]
    done = 0
    for data, f in zip(R.explore(jobs), fs):
        P = [('p', i, x['n']) for i, x in enumerate(f.params)]
        seen = set()
        if f.fk == 'ctor':
            continue
        for d in data:
            st, val = d['fin']['st'], d['val']
            if val is not None and is_lv(val):
                val = C0
            evs = [e[:-1] for e in d['ev']]

            def chk(ok, msg):
                return R.ob('C09.atomic', f.q + f.cls, ok, f.loc(), msg, d['path'], f.q)
            if not chk(len(evs) == 1, '%s is not one atomic step' % f.n):
                continue
            e = evs[0]
            done += 1
            if f.n == 'store' or f.n == 'operator=':
                chk(e[0] == 'store' and e[1] == P[0], 'another value is stored')
                chk(e[-1] == (P[1] if len(P) > 1 else 5), 'the memory order asked for is not used')
                if f.n == 'operator=':
                    chk(val == P[0], 'another value is returned')
            elif f.n == 'load' or f.n.startswith('operator ') and not f.n.startswith('operator+'):
                chk(e[0] == 'load' and e[2] == (P[0] if P else 5), 'the memory order asked for is not used')
                chk(val == e[1], 'another value is returned')
            elif f.n in RMW:
                if not chk(e[0] == 'rmw' and e[1] == ('str', RMW[f.n]), '%s performs another operation' % f.n):
                    continue
                unary = f.n in ('operator++', 'operator--')
                chk(e[2] == (C1 if unary else P[0]), 'another operand is used')
                order = 5 if unary else P[1]
                chk(e[3] == order, 'the memory order asked for is not used')
                old = bool(P) if unary else True
                k = 0 if (e[5] == C1) == old else (1 if e[5] == C1 else -1) * (1 if e[1] == ('str', 'add') else -1)
                chk(val is not None and ladd(lin(val), lin(e[4]), -1) == ({'': k} if k else {}), 'another value is returned')
            elif 'compare_exchange' in f.n:
                if not chk(e[0] == 'cas', 'no compare-exchange'):
                    continue
                chk(e[1] == ('ld', ('d', P[0]), 0) or e[1] == eng_ld(d, P[0]), 'another expected value is compared')
                chk(e[2] == P[1], 'another value is stored')
                chk(e[3] == P[2] and e[4] == (P[3] if len(P) > 3 else P[2]), 'the memory orders asked for are not used')
                chk(not (e[6] == C1 and f.n.endswith('strong')), 'a strong compare-exchange may fail spuriously')
                chk(val is not None and st.truth(val) is (e[5] == C1), 'success and failure are confused')
                seen.add(e[5])
                if e[5] == C0:
                    chk(isinstance(d['fin']['exp'], tuple) and d['fin']['exp'][0] == 'cold', 'a failed compare-exchange does not report the value found')
        if 'compare_exchange' in f.n:
            R.ob('C09.atomic', f.q, len(seen) == 2, f.loc(), 'the compare-exchange cannot succeed and fail', None, f.q)
    R.need('atomic steps of the wrapper', done, 80)


def eng_ld(d, p):
    return ('ld', ('d', p), 0)


def c09(R):
    p = R.load()
    R.rule('C09.spin', 'whatever other threads do to the lock word: lock() returns only as the owner, try_lock() reports truthfully, taking acquires, opening releases, and nobody opens a lock he does not hold')
    R.rule('C09.holder', 'acquisitions minus releases of every lock equal the change of its holders in every holder operation; each holder kind uses the matching lock operations')
    R.rule('C09.atomic', 'every operation of the atomic wrapper is exactly one atomic step with the operands, memory orders and result asked for')
    spin(R, p)
    holders(R, p)
    wrapper(R, p)



# ------------------------------------------------------------------------------------------------- nothing foreign under a lock
HEAVY = (r'cotask::task::(start|resume|cancel|kill|yield|next|then|await_task|active_next_tasks|_notify_finished|on_finished)', r'cotask::impl::task_impl::(_notify_finished|on_finished)',
         r'cotask::task_future(_base)?::(start|kill|resume|cancel|set_value)', r'copp::coroutine_context(_base|_container)?::(?!is_finished|get_).*',
         r'copp::promise_caller_manager::(resume_callers|~.*)', r'copp::promise_base_type::.*resume.*', r'cotask::task_manager::(tick|start|resume|kill|cancel|reset|remove_task|add_task)')
FOREIGN = re.compile('|'.join('(?:%s)' % x for x in HEAVY if 'is_finished' not in x) + r'|copp::coroutine_context(_base|_container)?::(start|resume|yield|create|set_runner|~.*)')
LOCKCALL = re.compile(r'(copp::util::lock::(lock_holder::lock_holder|spin_lock::(lock|try_lock|unlock|try_unlock)))|std::(lock_guard|unique_lock|scoped_lock)::.*|std::(recursive_)?mutex::.*')


class Under(Monitor):
    stop = HEAVY
    merge_after = 3

    def __init__(self):
        super().__init__()
        self.data = dict(locks=0, calls=0, pairs=set(), held=[])

    def init(self, eng, st, fr):
        return None

    def event(self, eng, ev, st):
        k = ev.k
        if k == 'lock':
            self.data['locks'] += 1
            for h in ev.held:
                if h == ev.lv:
                    self.report(eng, 'C10.once', 'a lock that is already held is taken again: %s' % show(ev.lv), ev, st)
                else:
                    self.data['pairs'].add((fields(h)[0] if fields(h) else show(h), fields(ev.lv)[0] if fields(ev.lv) else show(ev.lv)))
        elif k == 'unlock':
            if ev.lv not in ev.held and not ev.fr.fn.cls.startswith(LCK + 'spin_lock'):
                self.report(eng, 'C10.once', 'a lock that is not held is opened: %s' % show(ev.lv), ev, st)
        elif not st.locks:
            return
        elif k in ('user', 'delete'):
            self.data['calls'] += 1
            if k == 'user':
                self.report(eng, 'C10.foreign', 'code of the user (%s) runs while %s is held' % (ev.q, show(st.locks[-1])), ev, st)
        elif k == 'call':
            self.data['calls'] += 1
            if FOREIGN.fullmatch(ev.q):
                self.report(eng, 'C10.foreign', '%s runs while %s is held' % (ev.q, show(st.locks[-1])), ev, st)
            elif ev.q.endswith('intrusive_ptr_release') and ev.args:
                v = sv(eng, st, ev.args[0])
                if truthy(st, v):
                    self.report(eng, 'C10.foreign', 'a reference is dropped (its destructor may call back) while %s is held' % show(st.locks[-1]), ev, st)
        elif k == 'throw':
            self.data['calls'] += 1

    def exit(self, eng, fr, st, kind, val):
        if st.locks:
            self.data['held'].append((show(st.locks[-1]), eng.path(st)[-15:]))


def c10(R):
    p = R.load()
    R.rule('C10.foreign', 'while a lock of the library is held: no resume/start/kill/cancel of any coroutine or task, no callback, no drop of a task reference')
    R.rule('C10.once', 'no lock is taken twice by one thread or opened without being held, on any path; no operation returns or throws holding one')
    R.rule('C10.order', 'the order in which different locks are nested has no cycle')
    callers = {}
    direct = []
    for f in p.fns.values():
        for nd in f.nodes.values():
            g = nd.get('fn')
            if isinstance(g, dict):
                callers.setdefault(g.get('id'), set()).add(f.id)
                if LOCKCALL.fullmatch(g.get('q') or ''):
                    direct.append(f)
    infra = lambda f: f.cls.startswith(LCK) or '/verif/drivers' in f.id
    todo = {f.id: f for f in direct if f.blocks and not infra(f)}
    R.need('functions that take a lock', len(todo), 25)
    done = {}
    pairs = {}
    nl = nc = 0
    rounds = 0
    while todo and rounds < 4:
        rounds += 1
        fs = list(todo.values())
        todo = {}
        for data, f in zip(R.explore([(Under, f) for f in fs]), fs):
            done[f.id] = f
            nl += data['locks']
            nc += data['calls']
            for a, b in data['pairs']:
                pairs.setdefault(a, {})[b] = f
            up = [p.fns[c] for c in callers.get(f.id, ()) if c in p.fns and not infra(p.fns[c]) and c not in done]
            if data['held'] and 'lock_holder<' in (getattr(f, 'rt', '') or '') + ' '.join(x['ty'] for x in f.params):
                for g in up:
                    todo[g.id] = g
            else:
                R.ob('C10.once', f.q, not data['held'], f.loc(), 'returns while holding %s' % (data['held'][0][0] if data['held'] else ''),
                     data['held'][0][1] if data['held'] else None, f.q)
    R.count('lock acquisitions on paths', nl)
    R.count('calls under a lock', nc)
    # cycles
    seen = {}

    def dfs(a, stack):
        if a in stack:
            return stack[stack.index(a):] + [a]
        for b in pairs.get(a, {}):
            c = dfs(b, stack + [a])
            if c:
                return c
        return None
    for a in sorted(pairs):
        c = dfs(a, [])
        f = list(pairs[a].values())[0]
        R.ob('C10.order', a, c is None, f.loc(), 'locks are nested in a cycle: %s' % ' -> '.join(c or []), None, f.q)
    for f in done.values():
        R.ob('C10.foreign', f.q + ' ' + f.cls, True, f.loc())


PROPS = {'C08': c08, 'C09': c09, 'C10': c10}
