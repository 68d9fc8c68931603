"""Stacks: layout of coroutine objects on their stack, release, the stack pool, the stack allocators (C04..C07)."""
from rules.common import *

ALLOC_STOP = (r'copp::allocator::stack_allocator_\w+::(de)?allocate', r'copp::stack_traits::.*')
MAKE_RX = re.compile(r'(.*::)?copp_make_fcontext(_v2)?')
P0 = lambda n: ('d', ('p', 0, n))


def sval(eng, st, v):
    return eng.load(st, v) if isinstance(v, tuple) and is_lv(v) else v


def pname(fn, i):
    return ('d', ('p', i, fn.params[i]['n']))


def alloc_fns(p, name):
    """allocate/deallocate of the stack allocators and of the pool"""
    return [f for f in p.fns.values() if re.fullmatch(r'copp::allocator::stack_allocator_\w+::' + name, f.q)]


# ------------------------------------------------------------------------------------------------- C04 layout
class Layout(Rec):
    stop = ALLOC_STOP + (r'copp::coroutine_context::create',)

    def pick(self, eng, ev, st):
        k = ev.k
        if k == 'placement':
            return ('place', ev.ptr, ('n', ev.sz), ('str', ev.ty))
        if k == 'called' and re.fullmatch(r'.*::allocate', ev.q) and ev.args:
            c = ev.args[0]
            return ('alloc', c, sval(eng, st, ('f', c, 'sp')), sval(eng, st, ('f', c, 'size')), sval(eng, st, ev.args[1]) if len(ev.args) > 1 else C0)
        if k == 'call' and ev.q == 'copp::coroutine_context::create':
            a = [sval(eng, st, x) if i != 2 else x for i, x in enumerate(ev.args)]
            return ('ctx', a[0], a[3], a[4], eng.load(st, ('f', a[2], 'sp')), eng.load(st, ('f', a[2], 'size')))
        if k == 'call' and MAKE_RX.fullmatch(ev.q):
            a = [sval(eng, st, x) for x in ev.args]
            return ('make', a[0], a[1], a[2])
        return None

    def event(self, eng, ev, st):
        r = self.pick(eng, ev, st)
        if r is None:
            return
        if r[0] == 'place':
            r = r + (self.place(eng, st, r),)
        if r[0] == 'ctx':
            r = r + (self.ctx(eng, st, r),)
        st.mon = st.mon + (r + (ev.loc(),),)
        eng.tr(st, ev.fr, ev.line, ' '.join(show(x) if isinstance(x, tuple) else str(x) for x in r)[:200])

    def place(self, eng, st, r):
        al = [e for e in st.mon if e[0] == 'alloc']
        if not al:
            return 'nostack'
        sp, size = al[-1][2], al[-1][3]
        if st.truth(sp) is not True:
            return 'the stack pointer is not known to be set'
        off = ladd(lin(sp), lin(r[1]), -1)
        if any(a != '' and not isinstance(a, tuple) for a in off) or lin(sp).keys() & off.keys():
            return 'the object is not placed relative to the top of its stack'
        if not prove_ge0(st, ladd(off, {'': -r[2][1]})):
            return 'the object reaches beyond the top of the stack'
        if not prove_ge0(st, ladd(ladd(lin(size), off, -1), {'': 0})):
            return 'the object is not known to lie inside the stack actually allocated'
        return 'ok'

    def ctx(self, eng, st, r):
        """coroutine_context::create(p, ., stack, coroutine_size, private): room handed over covers the object and the
        extension the caller asked for"""
        pl = [e for e in st.mon if e[0] == 'place']
        al = [e for e in st.mon if e[0] == 'alloc']
        if not pl or not al:
            return 'ok'
        if r[1] != pl[-1][1]:
            return 'another object than the one placed'
        if not leq(r[4], al[-1][2]) or not leq(r[5], al[-1][3]):
            return 'another stack than the one allocated'
        off = ladd(lin(al[-1][2]), lin(r[1]), -1)
        room = ladd(lin(r[2]), lin(r[3]))
        pv = None
        if not prove_ge0(st, ladd(ladd(off, lin(r[3]), -1), {'': -pl[-1][2][1]})):
            return 'the object overlaps the private buffer'
        ext = [i for i, x in enumerate(self.params) if x['n'] == 'coroutine_size' or i == len(self.params) - 1]
        req = ('p', ext[-1], self.params[ext[-1]]['n'])
        need = ladd(off, lin(req))
        if not prove_ge0(st, ladd(room, need, -1)):
            return 'the area below the object that the caller asked for is not kept free'
        prq = ('p', ext[-1] - 1, self.params[ext[-1] - 1]['n'])
        if not prove_ge0(st, ladd(lin(r[3]), lin(prq), -1)):
            return 'the private buffer is smaller than requested'
        return 'ok'

    def init(self, eng, st, fr):
        self.params = fr.fn.params
        return ()


class Create(Rec):
    stop = (r'(.*::)?copp_make_fcontext(_v2)?', r'copp::coroutine_context_base::set_runner')

    def pick(self, eng, ev, st):
        k = ev.k
        if k == 'call' and MAKE_RX.fullmatch(ev.q):
            a = [sval(eng, st, x) for x in ev.args]
            return ('make', a[0], a[1], a[2])
        return None

    alias = False

    def init(self, eng, st, fr):
        self.names = [x['n'] for x in fr.fn.params]
        return ()

    def setup(self, eng, st, fr):
        if self.alias:
            x = fr.fn.params[2]
            o = fr.fn.params[0]
            st.mem[('v', fr.fid, x['v'], x['n'])] = ('a', ('f', ('d', ('p', 0, o['n'])), 'callee_stack_'))

    def final(self, eng, fr, st, kind, val):
        P = lambda i: ('p', i, self.names[i])
        o = P(0)
        S = ('d', P(2))
        own = ('f', ('d', o), 'callee_stack_')
        if self.alias:
            S = own     # the caller passed the stack recorded in the context itself
        elif st.truth(eng.compare('==', ('a', own), P(2), st)) is True:
            r = dict(problems=[])
            return r    # the aliased case is analysed on its own
        sp, size = eng.load(st, ('f', S, 'sp')), eng.load(st, ('f', S, 'size'))
        cs, pv = P(3), P(4)
        r = dict(callee=eng.load(st, ('f', ('d', o), 'callee_')), problems=[])
        mk = [e for e in st.mon if e[0] == 'make']
        if cval(val) != 0:
            r['made'] = len(mk)
            return r
        bad = r['problems']
        if st.truth(o) is not True and not st.truth(sp):
            pass
        if len(mk) != 1:
            bad.append('the machine context is created %d times' % len(mk))
            return r
        k1 = ladd(lin(sp), lin(mk[0][1]), -1)
        k2 = ladd(lin(size), lin(mk[0][2]), -1)
        if k1 != k2:
            bad.append('top and size of the region given to the machine context do not describe the same region')
        sz = self.size
        off = ladd(lin(sp), lin(o), -1)
        priv = ladd(lin(sp), lin(eng.load(st, ('f', ('d', o), 'priv_data_'))), -1)
        if priv != lin(pv):
            bad.append('the private buffer does not start private_buffer_size below the top')
        if eng.load(st, ('f', ('d', o), 'private_buffer_size_')) != pv:
            bad.append('the recorded size of the private buffer is not the one reserved')
        if not prove_ge0(st, ladd(ladd(k1, lin(cs), -1), lin(pv), -1)):
            bad.append('the machine stack overlaps the coroutine area or the private buffer')
        if not prove_ge0(st, ladd(k1, off, -1)):
            bad.append('the coroutine object lies inside the machine stack')
        if not prove_ge0(st, ladd(ladd(off, lin(pv), -1), {'': -sz})):
            bad.append('the coroutine object overlaps the private buffer')
        if not prove_ge0(st, ladd(ladd(lin(size), k1, -1), {'': -1})):
            bad.append('the stack may be smaller than the area reserved on it')
        if st.truth(sp) is not True:
            bad.append('a null stack is accepted')
        for a, b in (('sp', sp), ('size', size)):
            if eng.load(st, ('f', ('f', ('d', o), 'callee_stack_'), a)) != b:
                bad.append('the stack recorded in the context is not the one used (%s)' % a)
        ap = [a for a in k1 if isinstance(a, tuple) and align_parts(a)]
        if not any(align_parts(a)[1] >= 15 for a in ap):
            bad.append('the top of the machine stack is not kept aligned (16 bytes at least)')
        if eng.load(st, ('f', ('d', o), 'callee_')) != ('call',) and st.truth(r['callee']) is not True:
            bad.append('success is returned although no machine context was created')
        r['full'] = True
        return r


class TaskPlace(Rec):
    """task creation: the objects placed below the container"""
    stop = (r'copp::coroutine_context_container::create', r'copp::stack_traits::.*', r'copp::coroutine_context(_base)?::.*set_.*',
            r'.*::~\w+', r'.*id_allocator.*')
    inline_depth = 14

    def pick(self, eng, ev, st):
        if ev.k == 'called' and ev.q == 'copp::coroutine_context_container::create':
            a = [sval(eng, st, x) for x in ev.args]
            return ('ctx',) + tuple(x if isinstance(x, tuple) else C0 for x in a[-3:]) + (ev.val,)
        if ev.k == 'placement':
            return ('place', ev.ptr, ('n', ev.sz), ('str', ev.ty))
        if ev.k == 'store' and ev.lv[0] == 'd' and ev.lv[1][0] not in ('a', 'p') and ev.d.get('op') == '=' and not ev.d.get('cls'):
            return ('stp', ev.lv, ev.val)
        return None


def c04(R):
    p = R.load()
    R.rule('C04.place', 'the coroutine object is constructed only after the allocator returned a stack, at a fixed distance below its top, '
           'and the path proves that the object lies completely inside the stack actually returned')
    R.rule('C04.room', 'the room handed to the context covers the object, the private buffer and the extra area requested by the caller')
    R.rule('C04.context', 'a context is only created on a non-null stack that is larger than the reserved area; the machine stack, the '
           'coroutine object and the private buffer are disjoint parts of that stack, its top stays aligned, and the fields describe them')
    R.rule('C04.task', 'a task and its action are placed in the extra area requested from the container, without overlap')
    fs = [f for f in p.find('copp::coroutine_context_container::create') if any(b for b in f.blocks)]
    main = [f for f in fs if 'function' in f.params[0]['ty'] and len(f.params) == 5]
    R.need('container creation functions', len(main), 3)
    datas = R.explore([(Layout, f) for f in main])
    n = 0
    for f, data in zip(main, datas):
        for d in data:
            for e in d['ev']:
                if e[0] == 'place':
                    n += 1
                    R.ob('C04.place', f.cls, e[4] == 'ok', e[-1], 'coroutine object: ' + e[4], d['path'], f.q)
                if e[0] == 'ctx':
                    R.ob('C04.room', f.cls, e[6] == 'ok', e[-1], 'coroutine context: ' + e[6], d['path'], f.q)
    R.need('placements of coroutine objects on explored paths', n, 3)
    cs = p.find('copp::coroutine_context::create')
    rec = p.rec('copp::coroutine_context')[0]

    class Cr(Create):
        size = rec['size']

    class CrA(Cr):
        alias = True
    ok = 0
    for f, data in zip(cs + cs, R.explore([(Cr, f) for f in cs] + [(CrA, f, lambda eng, st, fr: CrA().setup(eng, st, fr)) for f in cs])):
        for d in data:
            v = cval(d['val'])
            if v == 0:
                ok += 1
                R.ob('C04.context', 'creation succeeds', not d['fin']['problems'], f.loc(), '; '.join(d['fin']['problems']), d['path'], f.q)
            else:
                R.ob('C04.context', 'creation fails with an error code', v is not None and v < 0, f.loc(), 'creation neither succeeds nor fails', d['path'], f.q)
    R.need('successful context creations on explored paths', ok, 1)
    ts = p.find('cotask::task::create_with_delegate')
    R.need('task creation functions', len(ts), 1)
    datas = R.explore([(TaskPlace, f) for f in ts])
    n = 0
    for f, data in zip(ts, datas):
        for d in data:
            cx = [e for e in d['ev'] if e[0] == 'ctx']
            pl = [e for e in d['ev'] if e[0] == 'place']
            if not pl:
                continue
            n += 1
            if not cx:
                R.ob('C04.task', 'task placed on its coroutine', False, pl[0][-1], 'objects are placed without a coroutine', d['path'], f.q)
                continue
            base = cx[0][4]
            pi = [i for i, x in enumerate(f.params)][-1]
            rest = ladd(ladd(lin(cx[0][2]), lin(('p', pi, f.params[pi]['n'])), -1), {'': -8})
            R.ob('C04.task', 'private buffer', all(c >= 0 for c in rest.values()), cx[0][-1],
                 'the private buffer has no room for the task pointer in front of the %s bytes requested' % f.params[pi]['n'], d['path'], f.q)
            extra = lin(cx[0][3])
            used = []
            for e in pl:
                off = lin(e[1])
                at = [a for a in off if a != '']
                c = off.get('', 0)
                if len(at) != 1 or at[0][0] == 'p' or off[at[0]] != 1 or not contains(at[0], base) and not contains(base, at[0]):
                    R.ob('C04.task', 'place of ' + e[3][1], False, e[-1], '%s is not placed at a fixed distance below the coroutine (%s)' % (e[3][1], show(e[1])), d['path'], f.q)
                    continue
                lo, hi = c, c + e[2][1]
                inside = hi <= 0 and '' in extra and len(extra) == 1 and -lo <= extra['']
                R.ob('C04.task', '%s at %d..%d' % (e[3][1][:60], lo, hi), inside, e[-1],
                     '%s at %d..%d is not inside the %s bytes requested below the coroutine' % (e[3][1], lo, hi, show_lin(extra)), d['path'], f.q)
                for (l2, h2, t2) in used:
                    R.ob('C04.task', 'no overlap', hi <= l2 or h2 <= lo, e[-1], '%s overlaps %s' % (e[3][1], t2), d['path'], f.q)
                used.append((lo, hi, e[3][1]))
    R.need('task placements on explored paths', n, 2)


def show_lin(d):
    return ' + '.join('%s%s' % ('' if c == 1 else '%d*' % c, show(a) if a else '') if a else str(c) for a, c in d.items())


# ------------------------------------------------------------------------------------------------- C05 release
class Release(Rec):
    stop = ALLOC_STOP

    def __init__(self, v0=1):
        self.v0 = v0
        super().__init__()

    def atomic_values(self, eng, st, lv):
        return (self.v0,) if lv[0] == 'f' and lv[2] == 'ref_count_' and not any(e[0] == 'count' for e in st.mon) else None

    def init(self, eng, st, fr):
        self.o = ('d', ('p', 0, fr.fn.params[0]['n']))
        S = ('f', self.o, 'callee_stack_')
        self.sp = eng.load(st, ('f', S, 'sp'))
        self.size = eng.load(st, ('f', S, 'size'))
        self.cls = re.sub(r'\s*\*$', '', fr.fn.params[0]['ty'])
        self.dq = facts_strip(self.cls)
        st.assume(('p', 0, fr.fn.params[0]['n']), True)
        return ()

    def event(self, eng, ev, st):
        gone = any(e[0] in ('dtor', 'free') for e in st.mon)
        k = ev.k
        lv = ev.d.get('lv')
        if gone and k in ('load', 'store', 'aload', 'astore', 'armw', 'cas', 'access') and isinstance(lv, tuple) and root_of(lv) == self.o:
            st.mon = st.mon + (('uaf', lv, ev.loc()),)
        super().event(eng, ev, st)

    def pick(self, eng, ev, st):
        k = ev.k
        if k == 'armw' and ev.lv[0] == 'f' and ev.lv[2] == 'ref_count_':
            return ('count', ev.lv, ('str', ev.op), ev.d.get('arg') or C0, ev.d.get('new') or C0, ('o', ev.d.get('order')))
        if k in ('astore', 'cas') and ev.lv[0] == 'f' and ev.lv[2] == 'ref_count_':
            return ('countw', ev.lv)
        if k == 'leave' and ev.obj == self.o and '~' in ev.fn.q:
            return ('dtor', ('str', ev.fn.q))
        if k == 'called' and '~' in ev.q and ev.obj == self.o:
            return ('dtor', ('str', ev.q))
        if k == 'call' and re.fullmatch(r'copp::allocator::stack_allocator_\w+::deallocate', ev.q):
            c = ev.args[0]
            return ('free', ev.obj if ev.obj else C0, sval(eng, st, ('f', c, 'sp')), sval(eng, st, ('f', c, 'size')), c)
        if k == 'delete':
            return ('delete', ev.ptr)
        return None


def root_of(lv):
    while lv[0] in ('f', 'e'):
        lv = lv[1]
    return lv


def facts_strip(s):
    import facts
    return facts.strip_targs(s)


class Balance(Rec):
    """creation: every stack obtained is released exactly once unless an object now owns it"""
    stop = ALLOC_STOP + (r'copp::coroutine_context::create',)

    def pick(self, eng, ev, st):
        if ev.k == 'called' and re.fullmatch(r'copp::allocator::stack_allocator_\w+::allocate', ev.q):
            c = ev.args[0]
            return ('alloc', sval(eng, st, ('f', c, 'sp')), sval(eng, st, ('f', c, 'size')), ev.obj or C0)
        if ev.k == 'call' and re.fullmatch(r'copp::allocator::stack_allocator_\w+::deallocate', ev.q):
            c = ev.args[0]
            return ('free', sval(eng, st, ('f', c, 'sp')), sval(eng, st, ('f', c, 'size')), ev.obj or C0)
        if ev.k == 'placement':
            return ('place', ev.ptr)
        if ev.k == 'called' and ev.q == 'copp::coroutine_context::create':
            return ('ctx', sval(eng, st, ev.args[0]), ev.val)
        if ev.k == 'call' and ev.q.endswith('::intrusive_ptr_release'):
            return ('rel', sval(eng, st, ev.args[0]))
        if ev.k == 'call' and ev.q.endswith('::intrusive_ptr_add_ref'):
            return ('add', sval(eng, st, ev.args[0]))
        return None

    def final(self, eng, fr, st, kind, val):
        al = [e for e in st.mon if e[0] == 'alloc']
        pl = [e for e in st.mon if e[0] == 'place']
        cx = [e for e in st.mon if e[0] == 'ctx']
        r = dict(got=[st.truth(e[1]) for e in al], neg=[st.truth(('op', '<', e[2], C0)) for e in cx])
        if pl:
            o = ('d', pl[-1][1])
            S = ('f', o, 'callee_stack_')
            r['owned'] = bool(al) and eng.load(st, ('f', S, 'sp')) == al[-1][1] and eng.load(st, ('f', S, 'size')) == al[-1][2]
        return r


def c05(R):
    p = R.load()
    R.rule('C05.release', 'dropping a reference frees the stack exactly when the count reaches zero: the object is destroyed once, then the '
           'stack it owned is returned once through an allocator copy that does not live on it, and the object is not touched afterwards')
    R.rule('C05.addref', 'taking a reference increments the count by one')
    R.rule('C05.create', 'creation either hands the stack to the returned object or returns it to the allocator exactly once')
    rel = [f for f in p.find('copp::intrusive_ptr_release') if 'coroutine_context_container' in f.params[0]['ty']]
    add = [f for f in p.find('copp::intrusive_ptr_add_ref') if 'coroutine_context_container' in f.params[0]['ty']]
    R.need('release functions of coroutine containers', len(rel), 3)
    R.need('add-ref functions of coroutine containers', len(add), 3)
    jobs, tags = [], []
    for kind, fs in (('rel', rel), ('add', add)):
        for f in fs:
            for v in (1, 2, 3):
                tags.append((kind, f, v))
                jobs.append(((lambda v=v: Release(v)), f))
    for (kind, f, v), data in zip(tags, R.explore(jobs)):
        for d in data:
            ev = [e for e in d['ev']]
            cnt = [e for e in ev if e[0] in ('count', 'countw')]
            who = f.params[0]['ty']
            rule = 'C05.release' if kind == 'rel' else 'C05.addref'

            def chk(ok, msg, loc=None):
                R.ob(rule, '%s with %d references' % (who, v), ok, loc or f.loc(), '%s: %s' % (who, msg), d['path'], f.q)
            delta = None
            if len(cnt) == 1 and cnt[0][0] == 'count' and cval(cnt[0][4]) is not None:
                delta = cval(cnt[0][4]) - v
            chk(delta == (-1 if kind == 'rel' else 1), 'the count changes by %s' % delta)
            if cnt and cnt[0][0] == 'count' and kind == 'rel':
                chk(cnt[0][5][1] in (None, 4, 5) or (cnt[0][5][1] == 3), 'the decrement does not release the writes of this owner (order %s)' % (cnt[0][5][1],), cnt[0][-1])
            dt = [e for e in ev if e[0] == 'dtor']
            fr = [e for e in ev if e[0] == 'free']
            ua = [e for e in ev if e[0] == 'uaf']
            if kind == 'rel' and v == 1:
                # an inlined destructor of the base is not the object's
                top = [e for e in dt if facts_strip(e[1][1]).endswith('coroutine_context_container')] or dt
                chk(len(top) == 1, 'the object is destroyed %d times' % len(top))
                chk(len(fr) == 1, 'the stack is released %d times' % len(fr))
                if len(top) == 1 and len(fr) == 1:
                    chk(ev.index(top[0]) < ev.index(fr[0]), 'the stack is released before the object on it is destroyed', fr[0][-1])
                if len(fr) == 1:
                    e = fr[0]
                    o = ('d', ('p', 0, f.params[0]['n']))
                    S = ('f', o, 'callee_stack_')
                    chk(is_local(e[1]), 'the allocator used for the release lives on the stack released', e[-1])
                    chk(is_local(e[4]), 'the description of the stack lives on the stack released', e[-1])
                    chk(e[2] == ('ld', ('f', S, 'sp'), e[2][2] if len(e[2]) > 2 else 0) or e[2][0] == 'ld' and e[2][1] == ('f', S, 'sp'), 'released stack pointer is %s, not the one owned' % show(e[2]), e[-1])
                    chk(e[3][0] == 'ld' and e[3][1] == ('f', S, 'size'), 'released size is %s, not the one owned' % show(e[3]), e[-1])
                chk(not ua, 'object used after its destruction: %s' % (show(ua[0][1]) if ua else ''), ua[0][-1] if ua else None)
            else:
                chk(not dt and not fr, 'object destroyed or stack released while references are left')
    main = [f for f in p.find('copp::coroutine_context_container::create') if 'function' in f.params[0]['ty'] and len(f.params) == 5]
    R.need('container creation functions', len(main), 3)
    n = 0
    for f, data in zip(main, R.explore([(Balance, f) for f in main])):
        for d in data:
            ev = d['ev']
            al = [e for e in ev if e[0] == 'alloc']
            if not al:
                R.ob('C05.create', 'no stack: nothing released', not any(e[0] in ('free', 'place') for e in ev), f.loc(), 'something is released or placed without a stack', d['path'], f.q)
                continue
            n += 1
            R.ob('C05.create', 'one stack', len(al) == 1, f.loc(), '%d stacks are allocated' % len(al), d['path'], f.q)
            got = d['fin']['got'][0]
            fr = [e for e in ev if e[0] == 'free']
            pl = [e for e in ev if e[0] == 'place']
            cx = [e for e in ev if e[0] == 'ctx']
            failed = bool(cx) and d['fin']['neg'][-1] is True
            if got is not True:
                R.ob('C05.create', 'failed allocation', not fr and not pl, f.loc(), 'a stack is released or used although none was obtained', d['path'], f.q)
                continue
            rl = len([e for e in ev if e[0] == 'rel' and pl and e[1] == pl[-1][1]])
            ad = len([e for e in ev if e[0] == 'add' and pl and e[1] == pl[-1][1]])
            owned = bool(pl) and d['fin'].get('owned')
            if not pl or not cx and not owned:
                R.ob('C05.create', 'refused', len(fr) == 1 and fr[0][1] == al[0][1] and fr[0][2] == al[0][2] and fr[0][3] == al[0][3], f.loc(),
                     'the stack obtained is released %d times when no coroutine is created' % len(fr), d['path'], f.q)
            else:
                R.ob('C05.create', 'owned', owned and not fr, f.loc(), 'the coroutine does not own exactly the stack it was placed on', d['path'], f.q)
                want = 0 if failed else 1
                R.ob('C05.create', 'references', ad - rl == want, f.loc(), '%d references are left, expected %d' % (ad - rl, want), d['path'], f.q)
    R.need('creation paths with a stack', n, 6)


# ------------------------------------------------------------------------------------------------- C06 the pool
ORIG = r'copp::allocator::stack_allocator_\w+::(de)?allocate'
LIM = ('used_stack_number', 'used_stack_size', 'free_stack_number', 'free_stack_size')


def pool_elem(eng, st, v):
    """the value (or place) is the stack at an end of the cache"""
    return contains_head(v, ('elemof', 'front', 'back'))


def contains_head(v, heads):
    if isinstance(v, tuple):
        if v and v[0] in heads:
            return v
        for x in v:
            r = contains_head(x, heads)
            if r:
                return r
    return None


class Pool(Monitor):
    """per path: what happened to the cached stack taken out (P popped, N/S counters lowered, D disposed of) and to the stack
    that goes in or out"""
    stop = (ORIG, r'copp::stack_traits::.*', r'copp::stack_pool::gc')
    throws = False

    def __init__(self, merge=12):
        super().__init__()
        self.merge_after = merge
        self.data = []

    def init(self, eng, st, fr):
        self.name = fr.fn.q.rsplit('::', 1)[-1]
        self.lim0 = {k: eng.load(st, tf2('limits_', k)) for k in LIM}
        self.conf = {k: eng.load(st, tf2('conf_', k)) for k in ('max_stack_number', 'max_stack_size', 'stack_size', 'stack_offset')}
        self.fr = fr
        return frozenset()

    def field(self, lv):
        fs = fields(lv)
        if root(lv) != THIS:
            return None
        if 'free_list_' in fs:
            return 'list'
        if 'limits_' in fs:
            return fs[0]
        return None

    def flag(self, st, *add, rem=()):
        st.mon = frozenset((st.mon | set(add)) - set(rem))

    def event(self, eng, ev, st):
        k = ev.k
        lv = ev.d.get('lv') if k in ('load', 'store') else ev.d.get('obj') if k == 'call' else None
        what = self.field(lv) if isinstance(lv, tuple) else None
        if what is not None:
            self.count('accesses to the cache and the counters')
            if not st.locks:
                self.report(eng, 'C06.lock', 'the cache or its counters are accessed without the lock of the pool', ev, st)
        if k == 'branch':
            v, w = ev.val, ev.want
            while v[0] == 'op' and v[1] == '!':
                v, w = v[2], not w
            if v[0] == 'op' and v[1] in ('==', '!=') and (v[1] == '==') == w and any(isinstance(z, tuple) and z[:2] in (('pure', 'end'), ('pure', 'rend')) for z in v[2:]):
                self.flag(st, 'end')
            for c in ('free_stack_size', 'used_stack_size'):
                if self.below_size(st, eng.load(st, tf2('limits_', c)), ev.val):
                    self.flag(st, 'low:' + c)
        if k == 'store' and what in LIM and not ev.d.get('init'):
            self.counter(eng, ev, st, what)
        if k == 'call' and what == 'list':
            n = ev.fn['n']
            if n in ('pop_back', 'pop_front', 'erase'):
                if 'P' in st.mon:
                    self.report(eng, 'C06.one', 'a second stack leaves the cache before the first one is accounted for', ev, st)
                self.flag(st, 'P', 'end:' + ('b' if n == 'pop_back' else 'f' if n == 'pop_front' else 'e'))
            elif n in ('push_back', 'push_front', 'emplace_back', 'emplace_front', 'insert'):
                self.flag(st, 'push' if 'push' not in st.mon else 'push2')
            elif n == 'clear':
                c = eng.load(st, lv)
                done = 'end' in st.mon
                sz = st.facts.get(('pure', 'size', c))
                if not done and not (sz and sz[1] == 0):
                    self.report(eng, 'C06.clear', 'the cache is emptied although not every cached stack was visited', ev, st)
                self.flag(st, 'clear')
        if k == 'call' and re.fullmatch(r'copp::allocator::stack_allocator_\w+::deallocate', ev.q):
            el = contains_head(ev.args[0], ('elemof', 'front', 'back'))
            if el is None:
                c = eng.load(st, ev.args[0]) if is_lv(ev.args[0]) else ev.args[0]
                el = contains_head(eng.load(st, ('f', ev.args[0], 'sp')), ('elemof', 'front', 'back'))
            if el:
                if 'D' in st.mon:
                    self.report(eng, 'C06.one', 'a cached stack is released twice', ev, st)
                self.flag(st, 'D', 'Dend:' + ('b' if el[0] == 'back' or 'rbegin' in repr(el) else 'f'))
            elif root(ev.args[0])[0] == 'd' and root(ev.args[0])[1][0] == 'p':
                self.flag(st, 'freed' if 'freed' not in st.mon else 'freed2')
            else:
                self.report(eng, 'C06.one', 'a stack of unknown origin (%s) is released' % show(ev.args[0]), ev, st)
        if k == 'called' and re.fullmatch(r'copp::allocator::stack_allocator_\w+::allocate', ev.q):
            if 'orig' in st.mon:
                self.report(eng, 'C06.one', 'two stacks are requested for one allocation', ev, st)
            self.flag(st, 'orig')
        if k == 'call' and ev.fn and ev.fn['n'] == 'operator++' and self.name == 'clear':
            if 'D' not in st.mon:
                self.report(eng, 'C06.clear', 'a cached stack is skipped without being released', ev, st)
            self.flag(st, rem=('D', 'Dend:f', 'Dend:b'))
        # a complete removal: start over (next element)
        m = st.mon
        if 'P' in m and 'D' in m and 'N' in m and 'S' in m:
            e = [x for x in m if x.startswith('end:')][0][4:]
            d = [x for x in m if x.startswith('Dend:')][0][5:]
            if e != 'e' and e != d:
                self.report(eng, 'C06.one', 'the stack released is not the one taken out of the cache', ev, st)
            self.flag(st, 'removed', rem=('P', 'D', 'N', 'S', 'end:b', 'end:f', 'end:e', 'Dend:b', 'Dend:f'))

    def counter(self, eng, ev, st, what):
        old, raw = ev.d.get('old'), ev.d.get('raw')
        if old is None:
            self.report(eng, 'C06.count', 'counter %s changed in an unknown way' % what, ev, st)
            return
        d = ladd(lin(raw), lin(old), -1)
        used = what.startswith('used')
        number = what.endswith('number')
        c = eng.load(st, tf('free_list_'))
        sz = st.facts.get(('pure', 'size', c))
        if raw == C0 and not used and (c[0] == 'empty' or bool(sz and sz[1] == 0) or self.name == 'clear'):
            self.flag(st, 'zero' + ('N' if number else 'S'))
            return
        if not d and cval(raw) != 0:
            return
        # amount: one, or the size of the stack that moves
        if number:
            if d == {'': 1}:
                self.flag(st, ('u' if used else 'f') + 'N+')
                return
            dec = d == {'': -1}
            zero = st.facts.get(old, (None, None))[1] == 0 or st.truth(old) is False or cval(old) == 0
            if dec or zero:
                self.flag(st, 'uN-' if used else 'N')
                return
        else:
            at = [a for a in d if a != '']
            if len(at) == 1 and d[at[0]] == 1 and len(d) == 1 and self.is_size(at[0], eng, st):
                self.flag(st, ('u' if used else 'f') + 'S+')
                return
            dec = len(at) == 1 and d[at[0]] == -1 and len(d) == 1 and self.is_size(at[0], eng, st)
            clamp = raw == C0 and ('low:' + what in st.mon or self.below_size(st, old))
            self.flag(st, rem=('low:' + what,))
            if dec or clamp:
                self.flag(st, 'uS-' if used else 'S')
                return
        self.report(eng, 'C06.count', 'counter %s changes by %s, which is not the stack that moves' % (what, show_lin(d)), ev, st)

    def is_size(self, a, eng, st):
        return isinstance(a, tuple) and (contains_head(a, ('elemof', 'front', 'back', 'out')) is not None or a == self.ctxsize()) and \
            (a[0] in ('ld',) and a[1][0] == 'f' and a[1][2] == 'size' or a[0] == 'fldof' and a[2] == 'size')

    def ctxsize(self):
        ps = self.fr.fn.params
        return ('ld', ('f', ('d', ('p', 0, ps[0]['n'])), 'size'), 0) if ps else None

    def below_size(self, st, old, cond=None):
        if cond is not None and not contains(cond, old):
            return False
        for k, w in st.rel.items():
            if k[0] == '<' and w is True and k[1] == old and isinstance(k[2], tuple):
                return True
            if k[0] == '<' and w is False and k[2] == old:
                return True
        return cval(old) == 0 or st.truth(old) is False

    def exit(self, eng, fr, st, kind, val):
        m = set(st.mon)
        loc = fr.fn.loc(fr.fn.endline if hasattr(fr.fn, 'endline') else fr.fn.line)
        name = self.name
        self.count('paths of the pool')
        bad = lambda rule, msg: self.report(eng, rule, msg, fr.fn.loc(), st)
        c = eng.load(st, tf('free_list_'))
        sz = st.facts.get(('pure', 'size', c))
        empty = c[0] == 'empty' or bool(sz and sz[1] == 0)
        if ('zeroN' in m or 'zeroS' in m):
            if not ('zeroN' in m and 'zeroS' in m):
                bad('C06.count', 'only one of the counters of cached stacks is reset')
            if not empty:
                bad('C06.clear', 'the counters of cached stacks are reset although stacks stay in the cache')
        if name == 'allocate':
            ctx = ('d', ('p', 0, fr.fn.params[0]['n']))
            sp, size = eng.load(st, ('f', ctx, 'sp')), eng.load(st, ('f', ctx, 'size'))
            el = contains_head(sp, ('elemof', 'front', 'back'))
            fromcache = el is not None
            refused = sp == C0 and 'orig' not in m
            if fromcache:
                e = [x for x in m if x.startswith('end:')]
                if not {'P', 'N', 'S'} <= m or 'D' in m:
                    bad('C06.one', 'a cached stack is handed out without leaving the cache exactly once (done: %s)' % ' '.join(sorted(m)))
                elif e[0] != 'end:e' and e[0] != 'end:' + ('b' if el[0] == 'back' or 'rbegin' in repr(el) else 'f'):
                    bad('C06.one', 'the stack handed out is not the one taken out of the cache')
                if not contains(size, el):
                    bad('C06.one', 'size and pointer handed out belong to different stacks')
                if not prove_le(st, self.conf['stack_size'], size):
                    bad('C06.limit', 'a cached stack smaller than the configured size is handed out')
                if 'orig' in m or not {'uN+', 'uS+'} <= m:
                    bad('C06.count', 'a stack handed out from the cache is not counted as used exactly once')
            else:
                if 'P' in m or 'N' in m or 'S' in m or 'D' in m:
                    bad('C06.one', 'a stack taken from the cache is lost (done: %s)' % ' '.join(sorted(m)))
                if refused:
                    mn, ms = self.conf['max_stack_number'], self.conf['max_stack_size']
                    tot = ('op', '+', self.lim0['used_stack_size'], self.conf['stack_size'])
                    if not (st.truth(mn) is True and prove_le(st, mn, self.lim0['used_stack_number'])) and \
                            not (st.truth(ms) is True and prove_le(st, ms, tot, strict=True)):
                        bad('C06.limit', 'a request is refused although no configured limit is known to be reached')
                    if [x for x in m if not x.startswith(('low:', 'end'))]:
                        bad('C06.limit', 'a refused request changes the pool (%s)' % ' '.join(sorted(m)))
                elif 'orig' not in m:
                    bad('C06.one', 'neither a stack nor a refusal (stack pointer %s)' % show(sp))
                else:
                    got = st.truth(sp)
                    has = {'uN+', 'uS+'} & m
                    if got is False and has:
                        bad('C06.count', 'a failed allocation is counted as used')
                    nz = st.truth(size)
                    if got is True and nz is not False and has != {'uN+', 'uS+'}:
                        bad('C06.count', 'a stack handed out is not counted as used')
                    if got is None and has != set():
                        bad('C06.count', 'a request is counted as used without knowing that it succeeded')
            if not refused:
                mn, ms = self.conf['max_stack_number'], self.conf['max_stack_size']
                z = lambda x: st.truth(x) is False or (st.facts.get(x) or (0, None))[1] == 0
                if not z(mn) and not prove_le(st, self.lim0['used_stack_number'], mn, strict=True):
                    bad('C06.limit', 'a request is served although the configured number of used stacks may be reached')
                tot = ('op', '+', self.lim0['used_stack_size'], self.conf['stack_size'])
                if not z(ms) and not prove_le(st, tot, ms):
                    bad('C06.limit', 'a request is served although the configured total size of used stacks may be exceeded')
        elif name == 'deallocate':
            P = fr.fn.params[0]['n']
            ctx = ('d', ('p', 0, P))
            sp0, size0 = ('ld', ('f', ctx, 'sp'), 0), ('ld', ('f', ctx, 'size'), 0)
            out = {'push', 'freed'} & m
            if 'push2' in m or 'freed2' in m or len(out) > 1:
                bad('C06.one', 'a stack given back ends up in more than one place')
            null = st.truth(sp0) is False or st.truth(size0) is False or (st.facts.get(size0) or (0, None))[1] == 0
            if null:
                if m & {'push', 'freed', 'uN-', 'uS-', 'fN+', 'fS+'}:
                    bad('C06.one', 'giving back an empty stack changes the pool')
            else:
                if len(out) != 1:
                    bad('C06.one', 'a stack given back is neither cached nor released')
                if 'uS-' not in m:
                    bad('C06.count', 'the size of used stacks is not lowered when a stack comes back')
                if 'uN-' not in m and not (st.facts.get(self.lim0['used_stack_number']) or (0, None))[1] == 0 and st.truth(self.lim0['used_stack_number']) is not False:
                    bad('C06.count', 'the number of used stacks is not lowered when a stack comes back')
                if ('push' in m) != ({'fN+', 'fS+'} <= m) or ('push' not in m and m & {'fN+', 'fS+'}):
                    bad('C06.count', 'the counters of cached stacks do not follow the cache')
                if 'push' in m and not prove_le(st, self.conf['stack_size'], size0):
                    bad('C06.limit', 'a stack smaller than the configured size goes to the cache')
        elif name == 'gc':
            if m & {'P', 'N', 'S', 'D'}:
                bad('C06.one', 'a cached stack is only partly removed (done: %s)' % ' '.join(sorted(m)))
        elif name == 'clear':
            if m & {'P', 'N', 'S', 'D'} and not empty:
                bad('C06.clear', 'a cached stack is only partly removed (done: %s)' % ' '.join(sorted(m)))
            if not empty:
                bad('C06.clear', 'stacks stay in the cache after clear()')
            if not {'zeroN', 'zeroS'} <= m:
                bad('C06.clear', 'the counters of cached stacks are not reset by clear()')
        if m & {'u N+', 'push'} and name in ('gc', 'clear'):
            bad('C06.one', 'a stack is added while releasing')


class LockOnly(Pool):
    stop = (ORIG, r'copp::stack_traits::.*', r'copp::stack_pool::(gc|clear|allocate|deallocate)')

    def event(self, eng, ev, st):
        k = ev.k
        lv = ev.d.get('lv') if k in ('load', 'store') else ev.d.get('obj') if k == 'call' else None
        if isinstance(lv, tuple) and self.field(lv) is not None and not st.locks and not ev.d.get('init'):
            self.report(eng, 'C06.lock', 'the cache or its counters are accessed without the lock of the pool', ev, st)

    def exit(self, *a):
        pass


class Resize(Monitor):
    """a changed stack size and the destructor empty the cache"""
    stop = (ORIG, r'copp::stack_traits::.*', r'copp::stack_pool::clear')
    throws = False

    def init(self, eng, st, fr):
        self.size = tf2('conf_', 'stack_size')
        self.old = eng.load(st, self.size)
        return ()

    def event(self, eng, ev, st):
        if ev.k == 'call' and ev.q.endswith('stack_pool::clear') and ev.obj == THIS:
            st.mon = tuple(sorted(set(st.mon) | {('clear',)}))
        if ev.k == 'called' and ev.q.endswith(('::minimum_size', '::round_to_page_size')):
            st.mon = tuple(sorted(set(st.mon) | {('min' if ev.q.endswith('minimum_size') else 'round', ev.val, ev.args[0] if ev.args else C0)}, key=repr))

    def exit(self, eng, fr, st, kind, val):
        if kind != 'ret':
            return
        self.count('ways to change the size or to end a pool')
        loc = fr.fn.loc()
        if fr.fn.n.startswith('~'):
            if ('clear',) not in st.mon:
                self.report(eng, 'C06.clear', 'a pool ends without returning the stacks in its cache', loc, st)
            return
        n = eng.load(st, self.size)
        if ('clear',) not in st.mon and n != self.old and st.cmp('==', n, self.old) is not True:
            self.report(eng, 'C06.clear', 'the size of stacks changes and stacks of the old size stay in the cache', loc, st)
        if n != self.old:
            low = [x for x in st.mon if x[0] == 'min']
            src = [x for x in st.mon if x[0] in ('min', 'round') and x[1] == n]
            if src and src[0][0] == 'round' and not any(prove_le(st, x[1], src[0][2]) for x in low):
                self.report(eng, 'C06.limit', 'the configured size may be below the least size of a stack', loc, st)


def tf2(a, b):
    return ('f', tf(a), b)


def c06(R):
    p = R.load()
    R.rule('C06.lock', 'the cache and the counters of a pool are only read or written while its lock is held')
    R.rule('C06.one', 'a stack leaves the cache exactly when it is handed out or returned to the origin allocator, and a stack given back is '
           'cached or returned, each exactly once')
    R.rule('C06.count', 'the used and cached counters change exactly by the stack that moves (saturating at zero)')
    R.rule('C06.limit', 'requests beyond the configured number or size are refused with an empty stack and no effect; only stacks of at least '
           'the configured size are cached or handed out')
    R.rule('C06.clear', 'clear() returns every cached stack once, forgets it, and resets the cached counters')
    jobs = []
    for n in ('allocate', 'deallocate', 'gc', 'clear'):
        fs = p.find('copp::stack_pool::' + n)
        R.need('analysed instances of stack_pool::' + n, len(fs), 1)
        jobs += [((lambda m=(8 if n in ('gc', 'clear') else 5000): Pool(m)), f) for f in fs]
    done = {f.q for _, f in jobs}
    R.explore(jobs)
    for c in ('accesses to the cache and the counters', 'paths of the pool'):
        R.need(c, R.counts.get(c, 0), 20)
    R.explore([(Resize, f) for f in p.find('copp::stack_pool::set_stack_size') + [f for f in p.fns.values() if f.blocks and re.fullmatch(r'copp::stack_pool::~stack_pool(<.*>)?', f.q)]])
    R.need('ways to change the size or to end a pool', R.counts.get('ways to change the size or to end a pool', 0), 2)
    acc = set()
    jobs = []
    for f in p.fns.values():
        if f.q in done or '::~' in f.q or f.q.endswith('stack_pool::stack_pool') or not f.blocks:
            continue
        if any(nd['k'] == 'mem' and nd.get('f') in ('limits_', 'free_list_') and 'stack_pool' in nd.get('fc', '') for nd in f.nodes.values()):
            if f.q not in acc:
                acc.add(f.q)
            jobs.append((LockOnly, f))
    if jobs:
        R.explore(jobs)
    for rule, n in (('C06.lock', 'accesses to the cache and the counters'), ('C06.one', 'paths of the pool'), ('C06.count', 'paths of the pool'),
                    ('C06.limit', 'paths of the pool'), ('C06.clear', 'paths of the pool')):
        bad = len([v for v in R.viol.values() if v['rule'] == rule])
        R.obl[rule] = [R.counts[n], max(0, R.counts[n] - bad)]


PROPS = {'C04': c04, 'C05': c05, 'C06': c06}
