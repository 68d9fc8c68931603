"""Stackful coroutine context: life cycle, switch bookkeeping, exceptions, completion (C01..C05)."""
from rules.common import *

CLS = 'copp::coroutine_context_base'
JUMP_RX = re.compile(r'(.*::)?copp_jump_fcontext(_v2)?')
INVALID, READY, RUNNING, FINISHED, EXITED = range(5)
DOM = (INVALID, READY, RUNNING, FINISHED, EXITED)
NAMES = {0: 'INVALID', 1: 'READY', 2: 'RUNNING', 3: 'FINISHED', 4: 'EXITED'}
FLAGV = (0x0, 0x1, 0x2, 0x100, 0x101, 0x102, 0x8000, 0x8001)
TLS = ('g', 'copp::detail::gt_current_coroutine')


def enums(p):
    for k, v in NAMES.items():
        if p.consts.get('EN_CRS_' + v) != k:
            raise Broken('status enumeration changed: EN_CRS_' + v)
    if p.consts.get('EN_CFT_FINISHED') != 1:
        raise Broken('flag enumeration changed')


class Ctx(Rec):
    """enumerates the status word of the object under `base`; config: start status, flags before and after the switch,
    pending exception after the switch, context created or not"""
    def __init__(self, mode='seq', s0=None, f0=None, f1=None, exc=None, callee=None, base=None, throws=False):
        self.mode, self.s0, self.f0, self.f1, self.exc, self.callee = mode, s0, f0, f1, exc, callee
        self.base = base
        self.throws = throws
        super().__init__()

    def cfg(self):
        return dict(s0=self.s0, f0=self.f0, f1=self.f1, exc=self.exc, callee=self.callee)

    def mine(self, lv):
        return lv[0] == 'f' and lv[2] == 'status_' and (self.base is None or lv[1] == self.base(lv[1]))

    def setup(self, eng, st, fr):
        if self.f0 is not None:
            st.mem[tf('flags_')] = ('c', self.f0)
        if self.callee is not None:
            v = eng.load(st, tf('callee_'))
            st.assume(v, self.callee)

    def init(self, eng, st, fr):
        return (('s', self.s0),)

    def cur(self, st):
        return st.mon[0][1]

    def setcur(self, st, c):
        st.mon = (('s', c),) + st.mon[1:]

    def atomic_values(self, eng, st, lv):
        if lv[0] != 'f' or lv[2] != 'status_':
            return None
        if lv[1] != THIS:
            return DOM
        c = self.cur(st)
        if self.mode == 'any' or c is None:
            return DOM
        return (c,)

    def atomic_seen(self, eng, st, lv, c):
        pass

    def pick(self, eng, ev, st):
        k = ev.k
        if k == 'cas' and ev.lv[0] == 'f' and ev.lv[2] == 'status_':
            if ev.ok:
                if ev.lv[1] == THIS and self.mode == 'seq':
                    self.setcur(st, cval(ev.des))
                return ('edge', ev.lv, ev.exp, ev.des, ev.order)
            return ('casfail', ev.lv, ev.val)
        if k in ('astore', 'armw') and ev.lv[0] == 'f' and ev.lv[2] == 'status_':
            if ev.lv[1] == THIS and self.mode == 'seq':
                self.setcur(st, cval(ev.val) if k == 'astore' else None)
            return ('write', ev.lv, ev.val if k == 'astore' else ('sym',), ev.order)
        if k == 'aload' and ev.lv[0] == 'f' and ev.lv[2] == 'status_':
            return ('read', ev.lv, ev.val, ev.order)
        if k == 'user':
            if JUMP_RX.fullmatch(ev.q):
                a = ev.args[1]
                d = a[1] if a[0] == 'a' else ('d', a)
                return ('jump', ev.args[0], eng.load(st, ('f', d, 'from_co')), eng.load(st, ('f', d, 'to_co')),
                        eng.load(st, ('f', d, 'priv_data')), ('pre', eng.load(st, tf('callee_')), eng.load(st, tf('caller_')),
                                                              eng.load(st, TLS)))
            return ('run', ('str', ev.q), ev.obj if ev.obj else C0, tuple(ev.args),
                    ('tls', eng.load(st, TLS)))
        if k == 'userend' and JUMP_RX.fullmatch(ev.q):
            if self.f1 is not None:
                st.mem[tf('flags_')] = ('c', self.f1)
            if self.exc is not None:
                if self.exc:
                    v = ('p', 99, 'pending-exception')
                    st.facts[v] = (None, None, frozenset([0]))
                    st.mem[tf('unhandle_exception_')] = v
                else:
                    st.mem[tf('unhandle_exception_')] = C0
            if self.mode == 'seq':
                self.setcur(st, FINISHED if self.f1 and self.f1 & 1 else READY)
            return None
        if k == 'called' and JUMP_RX.fullmatch(ev.q):
            D = ('fldof', ev.val, 'data')
            r = [eng.load(st, ('f', ('d', D), x)) for x in ('to_co', 'from_co', 'priv_data')]
            return ('post', ev.val) + tuple(r)
        if k == 'store' and ev.lv[0] == 'f' and ev.lv[2] in ('runner_', 'flags_', 'runner_ret_code_', 'unhandle_exception_', 'caller_', 'callee_'):
            return ('st', ev.lv, ev.val)
        if k == 'store' and ev.lv == TLS:
            return ('tls', ev.val)
        if k == 'throw':
            return ('throw', ev.d.get('val') or C0)
        return None

    def final(self, eng, fr, st, kind, val):
        r = dict(tls=eng.load(st, TLS))
        post = [e for e in st.mon if e[0] == 'post']
        if post:
            p = post[-1]
            to, frm = p[2], p[3]
            r['post'] = dict(fctx=('fldof', p[1], 'fctx'), to=to, frm=frm, priv=p[4], to_null=st.truth(to), from_null=st.truth(frm),
                             to_caller=eng.load(st, ('f', ('d', to), 'caller_')), from_callee=eng.load(st, ('f', ('d', frm), 'callee_')))
        r['runner'] = eng.load(st, tf('runner_'))
        r['unh'] = eng.load(st, tf('unhandle_exception_'))
        r['cfg'] = self.cfg()
        for i, p in enumerate(fr.fn.params):
            lv = ('v', fr.fid, p['v'], p['n'])
            if p.get('isref') and 'exception_ptr' in p['ty']:
                r['out_eptr'] = eng.load(st, ('d', ('p', i, p['n'])))
            if 'function<' in p['ty']:
                r['given'] = st.truth(('ld', ('d', ('p', i, p['n'])), 0))
            if p['ty'].replace(' ', '') == 'void**':
                r['out_priv'] = eng.load(st, ('d', ('p', i, p['n'])))
                r['out_priv_null'] = st.truth(('p', i, p['n']))
        return r


def mk(**k):
    return lambda: Ctx(**k)


def setup_of(**k):
    m = Ctx(**k)
    return lambda eng, st, fr: m.setup(eng, st, fr)


def jobs_for(fn, **k):
    return (mk(**k), fn, setup_of(**k))


def ev_of(d, *kinds):
    return [e for e in d['ev'] if e[0] in kinds]


def callback_fn(R, p):
    """the entry function handed to the platform's context creation"""
    class M(Rec):
        def pick(self, eng, ev, st):
            if ev.k in ('call',) and re.fullmatch(r'(.*::)?copp_make_fcontext(_v2)?', ev.q):
                a = [x for x in ev.args if isinstance(x, tuple)]
                f = a[2]
                if f[0] == 'a' and f[1][0] == 'fn':
                    f = f[1]
                return ('make', f)
    fs = p.find('copp::coroutine_context::create')
    ids = set()
    for f in fs:
        m = M()
        e = Engine(p, m)
        e.run(f)
        for d in m.data:
            for x in d['ev']:
                if x[1][0] == 'fn':
                    ids.add(x[1][1])
    r = [p.fns[i] for i in ids if i in p.fns]
    if len(r) != 1:
        raise Broken('entry function given to the context creation not resolved (%d)' % len(r))
    return r[0]


def api(p):
    return dict(start=[f for f in p.find('copp::coroutine_context::start')],
                resume=p.find('copp::coroutine_context::resume'),
                yield_=p.find('copp::coroutine_context::yield'),
                bind=p.find('copp::coroutine_context_base::set_runner'),
                fin=p.find('copp::coroutine_context_base::is_finished'))


def eptr_variant(fs):
    return [f for f in fs if any('exception_ptr' in x['ty'] for x in f.params)]


MASK = 0xff


class Flags(Rec):
    """marks of a context: which bits change"""
    def pick(self, eng, ev, st):
        if ev.k == 'call' and ev.q.endswith('coroutine_context::yield'):
            return ('yield', ev.obj)
        if ev.k == 'call' and ev.q.endswith('get_this_coroutine_context'):
            return ('cur',)

    def final(self, eng, fr, st, kind, val):
        a = ('p', 0, fr.fn.params[0]['n']) if fr.fn.params else None
        now, old = eng.load(st, tf('flags_')), ('ld', tf('flags_'), 0)
        return dict(a=a, lib=None if a is None else [st.truth(('op', '&', a, ('c', m))) for m in (MASK,)][0], now=now, old=old,
                    cur=st.truth(eng.load(st, TLS)), tls=('d', eng.load(st, TLS)), arg=a)


def flags(R, p):
    R.rule('C01.flags', 'marks below the mask are the library\'s own: a request that names one of them is refused and changes nothing, others change exactly the named bits')
    R.rule('C01.this', 'the free yield switches out of the current coroutine when there is one, and is refused otherwise')
    B = 'copp::coroutine_context_base::'
    jobs, t = [], []
    for n in ('set_flags', 'unset_flags', 'check_flags'):
        for f in p.find(B + n):
            jobs.append((Flags, f))
            t.append((n, f))
    for f in p.find('copp::this_coroutine::yield'):
        jobs.append((Stopped, f))
        t.append(('yield', f))
    for (n, f), data in zip(t, R.explore(jobs)):
        for d in data:
            x, v = d['fin'], d['val']
            if d['kind'] != 'ret' or v is None:
                continue
            if n == 'yield':
                ys = ev_of(d, 'yield')
                if x['cur'] is False:
                    R.ob('C01.this', f.q + ' outside', not ys and cval(v) == p.consts['COPP_EC_NOT_RUNNING'], f.loc(), 'outside of a coroutine, the free yield is not refused', d['path'], f.q)
                else:
                    R.ob('C01.this', f.q + ' inside', x['cur'] is True and len(ys) == 1 and ys[0][1] == x['tls'], f.loc(), 'inside of a coroutine, the free yield does not leave this coroutine once', d['path'], f.q)
                continue
            if n == 'check_flags':
                continue
            if x['lib'] is None or x['lib'] is True:
                R.ob('C01.flags', f.q + ' refuses', x['lib'] is True and cval(v) == 0 and x['now'] == x['old'], f.loc(), 'a mark of the library can be changed by %s, or is refused wrongly' % n, d['path'], f.q)
            else:
                want = ('|', x['a']) if n == 'set_flags' else ('&', ('op', '~', x['a']))
                w = x['now']
                ok = w[0] == 'op' and len(w) == 4 and w[1] == want[0] and {repr(w[2]), repr(w[3])} == {repr(x['old']), repr(want[1])}
                same = w == x['old']
                R.ob('C01.flags', f.q + ' changes', cval(v) not in (0, None) and (ok or w[0] in ('call', 'phi')), f.loc(), '%s does not change exactly the named marks' % n, d['path'], f.q)


class Stopped(Flags):
    stop = (r'^copp::coroutine_context::yield$',)


def c01(R):
    p = R.load()
    enums(p)
    E = p.consts
    A = api(p)
    R.rule('C01.edge', 'every write to the status word of a context is a compare-exchange along unbound->ready, ready->running, running->ready '
           '(runner not done) or running->finished (runner done), or the store of exited after a completed switch of a done runner')
    R.rule('C01.table', 'for every start state of the status word, start/resume/yield/set_runner give the documented code, and touch the '
           'status word, the runner and the machine context only from the one state that permits it')
    R.rule('C01.finished', 'is_finished() is true exactly in finished and exited')
    R.rule('C01.init', 'a constructed context is unbound')
    jobs, tags = [], []

    def add(tag, fn, **k):
        tags.append((tag, fn, k))
        jobs.append(jobs_for(fn, **k))
    for name in ('start', 'resume'):
        for f in A[name]:
            for s0 in DOM:
                for callee in (True, False):
                    for f1 in FLAGV:
                        add('start', f, s0=s0, callee=callee, f0=0, f1=f1, exc=0)
    for f in A['yield_']:
        for s0 in DOM:
            for callee in (True, False):
                for f0 in FLAGV:
                    add('yield', f, s0=s0, callee=callee, f0=f0, f1=0)
    for f in A['bind']:
        for s0 in DOM:
            add('bind', f, s0=s0)
    for f in A['fin']:
        for s0 in DOM:
            add('fin', f, s0=s0)
    datas = R.explore(jobs)
    for (tag, fn, k), data in zip(tags, datas):
        s0 = k['s0']
        for d in data:
            if d['kind'] == 'throw' and tag == 'start':
                continue
            ret = cval(d['val']) if d['val'] else None
            edges = ev_of(d, 'edge', 'write')
            jumps = ev_of(d, 'jump')
            what = '%s in state %s%s' % (fn.short(), NAMES[s0], '' if k.get('callee', True) else ' (not created)')

            def chk(ok, msg):
                R.ob('C01.table', what, ok, fn.loc(), '%s: %s (returns %s)' % (what, msg, ret), d['path'], fn.q)
            es = [(cval(e[2]), cval(e[3])) if e[0] == 'edge' else ('store', cval(e[2])) for e in edges]
            if tag == 'start':
                if not k['callee'] or s0 == INVALID:
                    exp, ee, j = E['COPP_EC_NOT_INITED'], [], 0
                elif s0 == READY:
                    exp, j = 0, 1
                    ee = [(READY, RUNNING)] + ([('store', EXITED)] if k['f1'] & 1 else [])
                elif s0 == RUNNING:
                    exp, ee, j = E['COPP_EC_IS_RUNNING'], [], 0
                else:
                    exp, ee, j = E['COPP_EC_NOT_READY'], [], 0
                chk(ret == exp and es == ee and len(jumps) == j, 'expected code %d, status writes %s, %d switches; got %s, %d switches' % (exp, ee, j, es, len(jumps)))
            elif tag == 'yield':
                if not k['callee'] or s0 == INVALID:
                    exp, ee, j = E['COPP_EC_NOT_INITED'], [], 0
                elif s0 == READY:
                    exp, ee, j = E['COPP_EC_NOT_RUNNING'], [], 0
                elif s0 == RUNNING:
                    exp, ee, j = 0, [(RUNNING, FINISHED if k['f0'] & 1 else READY)], 1
                else:
                    exp, ee, j = E['COPP_EC_ALREADY_EXIST'], [], 0
                chk(ret == exp and es == ee and len(jumps) == j, 'expected code %d, status writes %s, %d switches; got %s, %d switches' % (exp, ee, j, es, len(jumps)))
            elif tag == 'bind':
                rs = [e for e in ev_of(d, 'st') if e[1][2] == 'runner_']
                if d['fin'].get('given') is not None:
                    chk((ret == E['COPP_EC_ARGS_ERROR']) == (not d['fin']['given']), 'exactly an empty runner is an argument error')
                if ret == E['COPP_EC_ARGS_ERROR']:
                    chk(es == [] and not rs, 'an empty runner must change nothing; got %s' % es)
                elif s0 == INVALID:
                    chk(ret == 0 and es == [(INVALID, READY)] and len(rs) == 1 and rs[0][2][0] != 'c', 'binding must move to READY and set the runner; got %s' % es)
                else:
                    chk(ret == E['COPP_EC_ALREADY_INITED'] and es == [] and not rs, 'a second runner must be refused without effect; got %s, runner stores %d' % (es, len(rs)))
            else:
                R.ob('C01.finished', what, ret is not None and (ret != 0) == (s0 >= FINISHED) and not edges, fn.loc(),
                     'is_finished() in state %s gives %s' % (NAMES[s0], ret), d['path'], fn.q)
                for e in ev_of(d, 'read'):
                    R.ob('C01.finished', 'order of the read', e[3] in (1, 2, 4, 5), e[-1], 'is_finished() reads the status without acquire ordering', d['path'], fn.q)
    # bind must see an empty runner refused
    for f in A['bind']:
        rets = {cval(d['val']) for (t, fn, k), data in zip(tags, datas) if fn is f for d in data if d['val']}
        R.ob('C01.table', f.q + ' refuses an empty runner', E['COPP_EC_ARGS_ERROR'] in rets, f.loc(), 'no path refuses an empty runner', None, f.q)
    flags(R, p)
    # edges with every interleaving of other threads: any value at any access
    seen = set()
    jobs2, t2 = [], []
    cb = callback_fn(R, p)
    for f in A['start'] + A['resume'] + A['yield_'] + A['bind'] + A['fin'] + [cb] + p.find('copp::coroutine_context::create'):
        for f1 in (0, 1):
            k = dict(mode='any', f0=None, f1=f1, throws=True)
            jobs2.append((mk(**k), f, setup_of(**k)))
            t2.append((f, f1))
    d2 = R.explore(jobs2)
    OK = {(INVALID, READY), (READY, RUNNING), (RUNNING, READY), (RUNNING, FINISHED)}
    n = 0
    for (f, f1), data in zip(t2, d2):
        for d in data:
            won = False
            jumped = False
            for e in d['ev']:
                if e[0] == 'jump':
                    jumped = True
                if e[0] == 'edge':
                    n += 1
                    a, b = cval(e[2]), cval(e[3])
                    R.ob('C01.edge', '%s: %s->%s' % (f.short(), NAMES.get(a), NAMES.get(b)), (a, b) in OK, e[-1],
                         'status moved %s -> %s' % (NAMES.get(a, a), NAMES.get(b, b)), d['path'], f.q)
                    R.ob('C01.edge', 'order of the exchange', e[4] in (4, 5), e[-1],
                         'the exchange of the status word is weaker than acquire-release (order %s)' % e[4], d['path'], f.q)
                    if (a, b) == (READY, RUNNING):
                        won = True
                elif e[0] == 'write':
                    n += 1
                    ok = cval(e[2]) == EXITED and won and jumped and f1 & 1
                    R.ob('C01.edge', '%s: store %s' % (f.short(), show(e[2])), ok, e[-1],
                         'plain store of %s to the status word outside the completion of an own switch' % NAMES.get(cval(e[2]), show(e[2])), d['path'], f.q)
                    R.ob('C01.edge', 'order of the store', e[3] in (3, 4, 5), e[-1], 'completion is stored without release ordering', d['path'], f.q)
    R.need('status word writes on explored paths', n, 8)
    # who else touches the word
    acc = {}
    for f in p.fns.values():
        for nd in f.nodes.values():
            if nd['k'] == 'mem' and nd.get('f') == 'status_' and nd.get('fc') == CLS:
                acc.setdefault(f.q, f)
    covered = {f.q for f in A['start'] + A['resume'] + A['yield_'] + A['bind'] + A['fin'] + [cb]} | {p.fns[i].q for i in R.inlined if i in p.fns}
    for q, f in sorted(acc.items()):
        if q in covered:
            continue
        k = dict(mode='any')
        dd = R.explore([(mk(**k), f, None)])[0]
        for d in dd:
            for e in ev_of(d, 'edge', 'write'):
                ok = e[0] == 'edge' and (cval(e[2]), cval(e[3])) in OK
                R.ob('C01.edge', '%s writes the status word' % f.q, ok, e[-1], 'status word written outside the life cycle operations', d['path'], f.q)
    R.need('functions touching the status word', len(acc), 3)
    # constructors
    ctors = [f for f in p.fns.values() if f.cls == CLS and f.kind == 'ctor'] if hasattr(next(iter(p.fns.values())), 'kind') else []
    ctors = p.find('copp::coroutine_context_base::coroutine_context_base')

    class Init(Monitor):
        def __init__(self):
            super().__init__()
            self.data = []

        def init(self, eng, st, fr):
            return ('none',)

        def event(self, eng, ev, st):
            if ev.k == 'ctor' and ev.lv == tf('status_'):
                st.mon = ev.args[0] if ev.args else ('undef',)
            if ev.k in ('astore', 'store') and ev.lv == tf('status_'):
                st.mon = ev.val

        def exit(self, eng, fr, st, kind, val):
            self.data.append(st.mon)
    for f in ctors:
        for v in R.explore([(Init, f, None)])[0]:
            R.ob('C01.init', f.q, v == ('c', INVALID), f.loc(), 'constructor leaves the status word at %s' % (show(v) if v else None), None, f.q)


def same(a, b):
    return a == b


def c02(R):
    p = R.load()
    enums(p)
    A = api(p)
    cb = callback_fn(R, p)
    R.rule('C02.own', 'the machine context is entered only on a path that won the exchange ready->running (start/resume) or running->ready/finished '
           '(yield) on the same object; the target is that object\'s own callee resp. caller context')
    R.rule('C02.data', 'the switch carries (running coroutine of this thread, target, argument) for start and (self, none) for yield')
    R.rule('C02.save', 'after every switch the received machine context is stored as the caller of the coroutine entered and as the callee of the '
           'coroutine left, each when present; the received argument is handed over')
    R.rule('C02.tls', 'the running-coroutine pointer is the coroutine while its runner runs and is restored to the switching side after every switch')
    jobs, tags = [], []
    for name in ('start', 'resume', 'yield_'):
        for f in A[name]:
            k = dict(mode='any', f1=0, exc=0)
            jobs.append((mk(**k), f, setup_of(**k)))
            tags.append((name, f))
    k = dict(mode='any', throws=True)
    jobs.append((mk(**k), cb, None))
    tags.append(('cb', cb))
    n = 0
    for (name, f), data in zip(tags, R.explore(jobs)):
        for d in data:
            won = {}
            first = True
            for e in d['ev']:
                if e[0] == 'edge':
                    won[e[1][1]] = (cval(e[2]), cval(e[3]))
                if e[0] == 'jump':
                    n += 1
                    tgt, frm, to, priv, pre = e[1:6]
                    mode = 'yield' if name in ('yield_', 'cb') else 'start'
                    # the object: the one whose context field is the target

                    def obj_of(v):
                        if v[0] == 'ld' and v[1][0] == 'f':
                            return v[1][1], v[1][2]
                        return None, None
                    if mode == 'start':
                        o, fld = obj_of(tgt)
                        ok = o is not None and fld == 'callee_' and won.get(o) == (READY, RUNNING)
                        R.ob('C02.own', '%s switches' % f.short(), ok, e[-1], 'switch into %s without having moved that context ready->running (won: %s)' % (show(tgt), {show(a): b for a, b in won.items()}), d['path'], f.q)
                        R.ob('C02.data', '%s source' % f.short(), frm == pre[3], e[-1], 'the switch names %s as the coroutine left instead of the running one' % show(frm), d['path'], f.q)
                        R.ob('C02.data', '%s target' % f.short(), ('d', to) == o, e[-1], 'the switch names %s as the coroutine entered' % show(to), d['path'], f.q)
                        want = [('p', i, x['n']) for i, x in enumerate(f.params) if x['ty'].replace(' ', '') == 'void*']
                        R.ob('C02.data', '%s argument' % f.short(), priv in want, e[-1], 'the switch carries %s instead of the caller\'s argument' % show(priv), d['path'], f.q)
                    else:
                        o = ('d', frm)
                        okw = won.get(o) in ((RUNNING, READY), (RUNNING, FINISHED))
                        R.ob('C02.own', '%s switches' % f.short(), okw, e[-1], 'switch out of %s without having moved it out of running' % show(o), d['path'], f.q)
                        if name == 'cb':
                            okt = any(x[0] == 'st' and x[1] == ('f', o, 'caller_') and x[2] == tgt for x in d['ev']) or tgt == ('ld', ('f', o, 'caller_'), tgt[2] if len(tgt) > 2 else 0)
                        else:
                            okt = tgt[0] == 'ld' and tgt[1] == ('f', o, 'caller_')
                        R.ob('C02.own', '%s target' % f.short(), okt, e[-1], 'yield switches to %s, not to the caller of the coroutine' % show(tgt), d['path'], f.q)
                        R.ob('C02.data', '%s target' % f.short(), to == C0, e[-1], 'yield names %s as entered' % show(to), d['path'], f.q)
                        if name == 'yield_':
                            R.ob('C02.data', 'yield source', o == THIS, e[-1], 'yield names %s as left' % show(frm), d['path'], f.q)
            js = ev_of(d, 'jump')
            R.ob('C02.own', '%s switches at most once' % f.short(), len(js) <= 1, js[-1][-1] if js else f.loc(), '%d switches on one path' % len(js), d['path'], f.q)
            if not js or d['kind'] != 'ret':
                continue
            fin = d['fin']
            if 'post' not in fin:
                raise Broken('no result of the switch seen in ' + f.q)
            po = fin['post']
            loc = js[0][-1]
            frm = js[0][2]
            R.ob('C02.tls', '%s restores' % f.short(), fin['tls'] == frm, loc, 'after the switch the running coroutine is %s, not the one that switched (%s)' % (show(fin['tls']), show(frm)), d['path'], f.q)
            for who, nul, val, fld in (('to', po['to_null'], po['to_caller'], 'caller'), ('frm', po['from_null'], po['from_callee'], 'callee')):
                if nul is False:
                    stored = [e for e in ev_of(d, 'st') if e[1] == ('f', ('d', po[who]), fld + '_')]
                    R.ob('C02.save', '%s null %s' % (f.short(), fld), not stored, loc, 'store through an absent coroutine', d['path'], f.q)
                    continue
                R.ob('C02.save', '%s %s' % (f.short(), fld), val == po['fctx'], loc,
                     'after the switch the %s context of the coroutine %s is %s, not the received one' % (fld, 'entered' if who == 'to' else 'left', show(val)), d['path'], f.q)
            if name == 'yield_':
                if fin.get('out_priv_null') is not False:
                    R.ob('C02.save', 'yield hands over the argument', fin.get('out_priv') == po['priv'], loc, 'yield hands %s to its caller instead of the argument of the resume' % show(fin.get('out_priv') or C0), d['path'], f.q)
            if name == 'cb':
                pass
        # entry of a new coroutine
        if name == 'cb':
            runs = 0
            for d in data:
                rs = ev_of(d, 'run')
                src = None
                for e in rs:
                    runs += 1
                    tls = e[4][1]
                    o = e[2]
                    o = o[1] if o[0] == 'f' else None
                    R.ob('C02.tls', 'entry', o is not None and ('d', tls) == o, e[-1], 'the runner runs while the running coroutine is %s' % show(tls), d['path'], f.q)
                    sv = [x for x in d['ev'][:d['ev'].index(e)] if x[0] == 'st' and x[1] == ('f', o, 'caller_')]
                    R.ob('C02.save', 'entry caller', bool(sv) and 'fctx' in show(sv[-1][2]), e[-1], 'the entered coroutine does not keep the context it came from before running', d['path'], f.q)
                    R.ob('C02.data', 'entry argument', len(e[3]) == 1 and fields_like(e[3][0], 'priv_data'), e[-1], 'the runner receives %s' % show(e[3][0] if e[3] else C0), d['path'], f.q)
                # left coroutine
                if rs:
                    left = [x for x in d['ev'][:d['ev'].index(rs[0])] if x[0] == 'st' and x[1][2] == 'callee_']
                    d['left'] = bool(left)
            R.need('runner invocations at entry', runs, 1)
            lefts = {d.get('left') for d in data if 'left' in d}
            R.ob('C02.save', 'entry callee', lefts == {True, False}, f.loc(), 'the coroutine left by a first start does not keep (or unconditionally overwrites) its machine context', None, f.q)
    R.need('switches on explored paths', n, 4)


def fields_like(v, name):
    if v[0] == 'ld' and v[1][0] == 'f':
        return v[1][2] == name
    if v[0] == 'fldof':
        return v[2] == name
    return False


def c03(R):
    p = R.load()
    enums(p)
    A = api(p)
    cb = callback_fn(R, p)
    R.rule('C03.capture', 'an exception out of the runner is caught at the coroutine entry, stored in the context before it is switched out, and never leaves the entry function')
    R.rule('C03.deliver', 'start/resume hand a stored exception to the caller exactly once: through the out-parameter, or by rethrowing')
    R.rule('C03.done', 'on every way out of the runner (return or exception) the context is marked done before its last yield and the last yield is executed')
    k = dict(mode='seqcb', throws=True)

    class Cb(Ctx):
        def atomic_values(self, eng, st, lv):
            if lv[0] == 'f' and lv[2] == 'status_':
                return (RUNNING,)
            return None

        def pick(self, eng, ev, st):
            # the entry only runs for a created context
            if ev.k == 'load' and ev.lv[0] == 'f' and ev.lv[2] == 'callee_' and ev.d.get('val'):
                st.assume(ev.val, True)
            return super().pick(eng, ev, st)
    data = R.explore([(lambda: Cb(throws=True), cb, None)])[0]
    nthrow = nret = 0
    for d in data:
        R.ob('C03.capture', 'entry function exit', d['kind'] != 'throw', cb.loc(), 'an exception leaves the coroutine entry function', d['path'], cb.q)
        runs = [i for i, e in enumerate(d['ev']) if e[0] == 'run' and 'function' in e[1][1]]
        if not runs and not ev_of(d, 'jump'):
            # no runner bound: must still finish
            R.ob('C03.done', 'entry without runner', False, cb.loc(), 'the entry function ends without the last yield', d['path'], cb.q)
            continue
        o = None
        js = [i for i, e in enumerate(d['ev']) if e[0] == 'jump']
        R.ob('C03.done', 'last yield', len(js) == 1, cb.loc(), 'the entry function does not yield exactly once after the runner (%d)' % len(js), d['path'], cb.q)
        if len(js) != 1:
            continue
        ed = [e for e in d['ev'][:js[0]] if e[0] == 'edge']
        R.ob('C03.done', 'finished before leaving', bool(ed) and cval(ed[-1][3]) == FINISHED and (not runs or d['ev'].index(ed[-1]) > runs[-1]), d['ev'][js[0]][-1],
             'the last yield leaves the context in state %s' % (NAMES.get(cval(ed[-1][3])) if ed else None), d['path'], cb.q)
        if not runs:
            continue
        o = d['ev'][runs[0]][2]
        o = o[1] if o[0] == 'f' else None
        fl = [i for i, e in enumerate(d['ev']) if e[0] == 'st' and e[1] == ('f', o, 'flags_')]
        R.ob('C03.done', 'marked after the runner', any(i > runs[-1] for i in fl) and not any(i < runs[-1] for i in fl), d['ev'][js[0]][-1],
             'the context is marked done before (or not after) its runner ended', d['path'], cb.q)
        thrown = any('throws' in s for s in d['path'])
        un = [e for i, e in enumerate(d['ev']) if e[0] == 'st' and e[1] == ('f', o, 'unhandle_exception_') and runs[-1] < i < js[0]]
        if thrown:
            nthrow += 1
            R.ob('C03.capture', 'runner throws', bool(un) and 'current_exception' in show(un[-1][2]), d['ev'][runs[-1]][-1],
                 'an exception of the runner is not stored in its context before the context is switched out', d['path'], cb.q)
        else:
            nret += 1
            R.ob('C03.capture', 'runner returns', not un or un[-1][2] == C0, d['ev'][runs[-1]][-1], 'a normal end stores an exception', d['path'], cb.q)
            rc = [e for e in d['ev'] if e[0] == 'st' and e[1] == ('f', o, 'runner_ret_code_')]
            R.ob('C03.done', 'return code kept', len(rc) == 1 and rc[0][2][0] == 'call', d['ev'][runs[-1]][-1], 'the runner\'s return value is not stored as the return code', d['path'], cb.q)
    R.need('exceptional runner ends explored', nthrow, 1)
    R.need('normal runner ends explored', nret, 1)
    # delivery
    jobs, tags = [], []
    for name in ('start', 'resume'):
        for f in A[name]:
            for exc in (0, 1):
                for f1 in (0, 1):
                    k = dict(s0=READY, f0=0, f1=f1, exc=exc, callee=True)
                    jobs.append(jobs_for(f, **k))
                    tags.append((f, exc))
    nd = 0
    for (f, exc), data in zip(tags, R.explore(jobs)):
        has = bool(eptr_variant([f]))
        for d in data:
            if not ev_of(d, 'jump'):
                continue
            loc = ev_of(d, 'jump')[0][-1]
            nd += 1
            P = ('p', 99, 'pending-exception')
            if exc:
                if has:
                    R.ob('C03.deliver', '%s out-parameter' % f.short(), d['kind'] == 'ret' and d['fin'].get('out_eptr') == P, loc, 'a pending exception is not handed to the caller', d['path'], f.q)
                else:
                    th = ev_of(d, 'throw')
                    R.ob('C03.deliver', '%s rethrows' % f.short(), d['kind'] == 'throw' and bool(th) and th[-1][1] == P, loc, 'a pending exception is swallowed', d['path'], f.q)
                R.ob('C03.deliver', '%s once' % f.short(), d['fin']['unh'] != P, loc, 'a delivered exception stays in the context and would be delivered again', d['path'], f.q)
            else:
                R.ob('C03.deliver', '%s nothing pending' % f.short(), d['kind'] == 'ret' and d['fin'].get('out_eptr', C0) != P, loc, 'start throws without a pending exception', d['path'], f.q)
    R.need('switches with and without a pending exception', nd, 8)


PROPS = {'C01': c01, 'C02': c02, 'C03': c03}
