"""The stack allocators (C07)."""
from rules.common import *

TRAITS = r'copp::stack_traits::.*'
NS = 'copp::allocator::stack_allocator_'


def sv(eng, st, v):
    return eng.load(st, v) if isinstance(v, tuple) and is_lv(v) else v


def cparam(fr, i):
    return ('d', ('p', i, fr.fn.params[i]['n']))


class Alloc(Rec):
    """allocate(ctx, size) / deallocate(ctx) of one allocator"""
    stop = (TRAITS,)
    used = None
    start = None

    def __init__(self, used=None, start=None):
        super().__init__()
        self.used = used
        self.start = start

    def setup(self, eng, st, fr):
        if self.used is not None:
            st.mem[tf('is_used_')] = ('c', self.used)
            if self.start is not None:
                v = eng.load(st, tf('start_ptr_'))
                st.assume(('op', '==', v, C0), not self.start)

    def init(self, eng, st, fr):
        return ()

    def pick(self, eng, ev, st):
        if ev.k == 'called':
            return ('called', ev.q, ev.val) + tuple(sv(eng, st, x) for x in ev.args)
        if ev.k == 'store' and root(ev.lv) == THIS and not ev.d.get('init'):
            return ('store', fields(ev.lv)[0] if fields(ev.lv) else '', ev.val)
        return None

    def final(self, eng, fr, st, kind, val):
        r = dict(st=st.copy())
        if fr.fn.params:
            c = cparam(fr, 0)
            r['sp'] = eng.load(st, ('f', c, 'sp'))
            r['size'] = eng.load(st, ('f', c, 'size'))
            r['sp0'], r['size0'] = ('ld', ('f', c, 'sp'), 0), ('ld', ('f', c, 'size'), 0)
        for n in ('is_used_', 'start_ptr_', 'memory_size_', 'pool_'):
            r[n] = eng.load(st, tf(n))
        ex, page, mx = [], [], []
        for e in st.mon:
            if e[0] == 'called':
                n = e[1].rsplit('::', 1)[-1]
                if n == 'round_to_page_size':
                    ex.append(ladd(lin(e[2]), lin(e[3]), -1))
                elif n in ('page_size', 'pagesize'):
                    page.append(e[2])
                elif n == 'maximum_size':
                    mx.append(e[2])
        for l in (page, mx):
            for a in l[1:]:
                ex.append(ladd(lin(a), lin(l[0]), -1))
                ex.append(ladd(lin(l[0]), lin(a), -1))
        r.update(extra=ex, page=page, max=mx, req=('p', 1, fr.fn.params[1]['n']) if len(fr.fn.params) > 1 else None)
        return r


def acquired(R, name, data, f, acq):
    """malloc / posix"""
    n = 0
    for d in data:
        fin, st = d['fin'], d['fin']['st']
        calls = [e for e in d['ev'] if e[0] == 'called' and e[1].rsplit('::', 1)[-1] == acq]
        what = '%s::allocate' % name
        loc = f.loc()
        if len(calls) != 1:
            R.ob('C07.acquire', what, False, loc, 'a request acquires %d blocks' % len(calls), d['path'], f.q)
            continue
        p, length = calls[0][2], calls[0][3] if acq == 'malloc' else calls[0][4]
        ok = st.truth(fin['sp'])
        failed = st.truth(p) is False or acq == 'mmap' and (st.cmp('==', p, ('c', -1)) is True or st.cmp('==', p, ('c', (1 << 64) - 1)) is True)
        n += 1
        if fin['sp'] == C0:
            R.ob('C07.acquire', what + ' failure', failed, loc, 'the request is refused although the block was acquired (it is leaked)', d['path'], f.q)
            continue
        if failed:
            R.ob('C07.acquire', what + ' failure', False, loc, 'a failed acquisition is not reported as an empty stack', d['path'], f.q)
            continue
        known = st.truth(p) is True and (acq == 'malloc' or st.cmp('==', p, ('c', -1)) is False or st.cmp('==', p, ('c', (1 << 64) - 1)) is False)
        R.ob('C07.acquire', what + ' checked', known, loc, 'a block is handed out without checking that it was acquired', d['path'], f.q)
        off = ladd(ladd(lin(fin['sp']), lin(p), -1), lin(fin['size']), -1)
        R.ob('C07.acquire', what + ' base', not off, loc, 'top minus size of the stack is not the start of the acquired block', d['path'], f.q)
        R.ob('C07.acquire', what + ' length', prove_le(st, fin['size'], length, extra=fin['extra']), loc, 'the size handed out exceeds the acquired block', d['path'], f.q)
        usable = lin(fin['size'])
        if acq == 'mmap':
            g = [e for e in d['ev'] if e[0] == 'called' and e[1].rsplit('::', 1)[-1] == 'mprotect']
            good = [e for e in g if e[5] == C0 and leq(e[3], p) and any(prove_ge0(st, ladd(lin(e[4]), lin(pg), -1), fin['extra']) for pg in fin['page'])]
            R.ob('C07.guard', what, len(good) >= 1, loc, 'no inaccessible page at the low end of the stack', d['path'], f.q)
            if good:
                usable = ladd(usable, lin(good[0][4]), -1)
        fit = prove_ge0(st, ladd(usable, lin(fin['req']), -1), fin['extra']) or \
            any(prove_ge0(st, ladd(usable, lin(m), -1), fin['extra']) for m in fin['max'])
        R.ob('C07.size', what, fit, loc, 'the usable size is not known to reach the request (nor the system limit)', d['path'], f.q)
    R.count('paths of ' + name + '::allocate', n)
    return n


def released(R, name, data, f, rel):
    for d in data:
        fin = d['fin']
        calls = [e for e in d['ev'] if e[0] == 'called' and e[1].rsplit('::', 1)[-1] == rel]
        what = '%s::deallocate' % name
        if fin['st'].truth(fin['sp0']) is False:
            R.ob('C07.release', what, not calls, f.loc(), 'an empty stack is released', d['path'], f.q)
            continue
        ok = len(calls) == 1 and leq(calls[0][3], ('op', '-', fin['sp0'], fin['size0'])) and (rel == 'free' or leq(calls[0][4], fin['size0']))
        R.ob('C07.release', what, ok, f.loc(), 'the block acquired (top minus size%s) is not released exactly once' % (', whole length' if rel != 'free' else ''), d['path'], f.q)


class Own(Rec):
    """copy/move/swap/attach of the allocator on an attached buffer"""
    names = ('start_ptr_', 'memory_size_', 'is_used_')

    def __init__(self, this_used=None, other_used=None):
        super().__init__()
        self.tu, self.ou = this_used, other_used

    def setup(self, eng, st, fr):
        self.o = cparam(fr, 0) if fr.fn.params and (fr.fn.params[0].get('isref') or '&' in fr.fn.params[0]['ty']) else None
        self.before = {}
        if fr.fn.fk != 'ctor':
            if self.tu is not None:
                st.mem[tf('is_used_')] = ('c', self.tu)
            self.before['this'] = tuple(eng.load(st, tf(n)) for n in self.names)
        if self.o:
            if self.ou is not None:
                st.mem[('f', self.o, 'is_used_')] = ('c', self.ou)
            self.before['other'] = tuple(eng.load(st, ('f', self.o, n)) for n in self.names)

    def final(self, eng, fr, st, kind, val):
        r = dict(this=tuple(eng.load(st, tf(n)) for n in self.names), before=self.before)
        if self.o:
            r['other'] = tuple(eng.load(st, ('f', self.o, n)) for n in self.names)
        return r


def c07(R):
    p = R.load()
    R.rule('C07.acquire', 'a stack handed out is exactly the block acquired for this request (base = top - size, size within the block), '
           'an acquisition failure and only that gives an empty stack')
    R.rule('C07.guard', 'every mapped stack gets an inaccessible page at its low end')
    R.rule('C07.size', 'the usable size (without the guard page) reaches the request, clamped only by the system limit or the attached buffer')
    R.rule('C07.release', 'deallocate releases top - size (and the whole mapping) exactly once')
    R.rule('C07.buffer', 'an attached buffer is handed out only while unused, never beyond its size, and is marked used/unused accordingly')
    R.rule('C07.owner', 'copying, moving, swapping an allocator never leaves two owners of one attached buffer, and an owner in use keeps it')
    R.rule('C07.forward', 'the pool allocator forwards every request to its pool exactly once')
    R.rule('C07.round', 'rounding to pages never rounds down')
    # ---- plain allocators
    jobs, todo = [], []
    for name, acq, rel in (('malloc', 'malloc', 'free'), ('posix', 'mmap', 'munmap')):
        for kind in ('allocate', 'deallocate'):
            for f in p.find(NS + name + '::' + kind, need=1):
                jobs.append((Alloc, f, Alloc.setup_of if hasattr(Alloc, 'setup_of') else None))
                todo.append((name, kind, acq if kind == 'allocate' else rel, f))
    for data, (name, kind, x, f) in zip(R.explore(jobs), todo):
        if kind == 'allocate':
            R.need('paths of ' + name + '::allocate', acquired(R, name, data, f, x), 3)
        else:
            R.need('paths of ' + name + '::deallocate', len(data), 1)
            released(R, name, data, f, x)
    # ---- attached buffer
    jobs, todo = [], []
    fa = p.find(NS + 'memory::allocate', need=1)[0]
    fd = p.find(NS + 'memory::deallocate', need=1)[0]
    for used in (0, 1):
        for start in (0, 1):
            jobs.append((lambda u=used, s=start: Alloc(u, s), fa, lambda e, s, f: e.mon.setup(e, s, f)))
            todo.append((used, start))
    res = R.explore(jobs)
    n = 0
    for data, (used, start) in zip(res, todo):
        for d in data:
            fin, st = d['fin'], d['fin']['st']
            n += 1
            what = 'memory::allocate used=%d attached=%d' % (used, start)
            bad = lambda msg: R.ob('C07.buffer', what, False, fa.loc(), msg, d['path'], fa.q)
            keep = fin['start_ptr_'] == ('ld', tf('start_ptr_'), 0) and fin['memory_size_'] == ('ld', tf('memory_size_'), 0) or not start
            if not keep:
                bad('the attached buffer is changed by a request')
                continue
            if used or not start:
                if fin['sp'] != C0:
                    bad('a buffer that is in use or not attached is handed out')
                elif fin['is_used_'] != ('c', used):
                    bad('a refused request changes the use of the buffer')
                else:
                    R.ob('C07.buffer', what, True, fa.loc())
                continue
            if fin['sp'] == C0:
                R.ob('C07.buffer', what + ' refused', fin['is_used_'] == C0, fa.loc(), 'a refused request marks the buffer as used', d['path'], fa.q)
                continue
            if fin['is_used_'] in (C0, UNDEF) or st.truth(fin['is_used_']) is not True:
                bad('the buffer is handed out without being marked used')
                continue
            if ladd(ladd(lin(fin['sp']), lin(fin['start_ptr_']), -1), lin(fin['size']), -1):
                bad('top minus size of the stack is not the start of the buffer')
                continue
            mem = fin['memory_size_']
            mods = [{a: 1} for a in lin(fin['size']) if isinstance(a, tuple)]
            if not prove_le(st, fin['size'], mem, extra=fin['extra'] + mods):
                bad('the stack may exceed the attached buffer')
                continue
            limited = any(prove_le(st, mem, e[2], strict=True, extra=fin['extra']) for e in d['ev'] if e[0] == 'called' and e[1].endswith('round_to_page_size'))
            fit = limited or prove_ge0(st, ladd(lin(fin['size']), lin(fin['req']), -1), fin['extra']) or prove_le(st, mem, fin['size'], extra=fin['extra']) or \
                any(prove_ge0(st, ladd(lin(fin['size']), lin(m), -1), fin['extra']) for m in fin['max'])
            R.ob('C07.size', what, fit, fa.loc(), 'the usable size is not known to reach the request although the buffer is large enough', d['path'], fa.q)
            R.ob('C07.buffer', what, True, fa.loc())
    R.need('paths of memory::allocate', n, 8)
    jobs = [(lambda u=u: Alloc(u, None), fd, lambda e, s, f: e.mon.setup(e, s, f)) for u in (0, 1)]
    for data in R.explore(jobs):
        for d in data:
            fin = d['fin']
            R.ob('C07.buffer', 'memory::deallocate', fin['is_used_'] == C0 and fin['start_ptr_'] == ('ld', tf('start_ptr_'), 0) and
                 fin['memory_size_'] == ('ld', tf('memory_size_'), 0), fd.loc(), 'giving the stack back does not make the buffer available again', d['path'], fd.q)
    # ---- ownership of the buffer
    fs = [f for f in p.fns.values() if f.cls == NS + 'memory' and f.blocks and (f.fk == 'ctor' or f.q.rsplit('::', 1)[-1] in ('operator=', 'swap', 'attach'))]
    R.need('special members of the buffer allocator', len(fs), 7)
    jobs, todo = [], []
    for f in fs:
        for tu in ((None,) if f.fk == 'ctor' else (0, 1)):
            for ou in (0, 1):
                jobs.append((lambda a=tu, b=ou: Own(a, b), f, lambda e, s, fr: e.mon.setup(e, s, fr)))
                todo.append((f, tu, ou))
    for data, (f, tu, ou) in zip(R.explore(jobs), todo):
        for d in data:
            fin = d['fin']
            b = fin['before']
            what = '%s used=%s/%s' % (f.short() if callable(getattr(f, 'short', None)) else f.q, tu, ou)
            nm = f.q.rsplit('::', 1)[-1]
            ok, msg = True, ''
            after = [fin['this']] + ([fin['other']] if 'other' in fin else [])
            if 'other' not in fin:
                want = (('p', 0, f.params[0]['n']), ('p', 1, f.params[1]['n']), C0) if len(f.params) == 2 else None
                if want is None:
                    ok, msg = fin['this'][0] == C0 and fin['this'][2] == C0, 'a fresh allocator has a buffer or is in use'
                else:
                    ok, msg = fin['this'] == want, 'the buffer given is not taken over as it is, unused'
            else:
                pairs = set(b.values())
                for t in after:
                    if t[0] == C0:
                        if t[2] != C0:
                            ok, msg = False, 'an allocator without buffer is marked as used'
                    elif t not in pairs:
                        ok, msg = False, 'start, size and use of a buffer get mixed up'
                if ok and after[0][0] == after[1][0] and after[0][0] != C0:
                    ok, msg = False, 'two allocators own the same buffer'
                if ok and ou and nm != 'swap' and fin['other'] != b['other']:
                    ok, msg = False, 'an allocator in use loses its buffer'
                if ok and not ou and fin['this'][0] != b['other'][0]:
                    ok, msg = False, 'the unused buffer is not handed over'
            R.ob('C07.owner', what, ok, f.loc(), msg, d['path'], f.q)
    # ---- pool allocator
    jobs, todo = [], []
    for kind in ('allocate', 'deallocate'):
        fs = p.find(NS + 'pool::' + kind, need=1)
        for f in fs:
            jobs.append((Forward, f))
            todo.append((kind, f))
    for data, (kind, f) in zip(R.explore(jobs), todo):
        for d in data:
            fin = d['fin']
            c = [e for e in d['ev'] if e[1].rsplit('::', 1)[-1] in ('allocate', 'deallocate')]
            n = [e for e in c if e[1].endswith('::' + kind) and e[2] == cparam_of(f)]
            if fin['null']:
                R.ob('C07.forward', f.q, not c, f.loc(), 'a request without a pool is forwarded', d['path'], f.q)
            else:
                R.ob('C07.forward', f.q, len(c) == 1 and len(n) == 1, f.loc(), 'a request is not forwarded to the pool exactly once', d['path'], f.q)
    # ---- rounding
    f = p.find('copp::stack_traits::round_to_page_size', need=1)[0]
    data = R.explore([(Round, f)])[0]
    for d in data:
        ok = True
        for page in (4096, 65536):
            m = {e[2]: ('c', page) for e in d['ev']}
            v = subst(d['val'], m)
            ok = ok and prove_ge0(d['fin'], ladd(lin(v), lin(('p', 0, f.params[0]['n'])), -1))
        R.ob('C07.round', f.q, ok, f.loc(), 'the rounded size may be smaller than the size given', d['path'], f.q)
    R.need('paths of round_to_page_size', len(data), 1)


def cparam_of(f):
    return ('d', ('p', 0, f.params[0]['n']))


class Forward(Rec):
    stop = (r'copp::stack_pool::(de)?allocate',)

    def pick(self, eng, ev, st):
        if ev.k == 'called' and re.fullmatch(r'copp::stack_pool::\w+', ev.q):
            return ('called', ev.q, ev.args[0] if ev.args else None)
        return None

    def final(self, eng, fr, st, kind, val):
        return dict(null=st.truth(eng.load(st, tf('pool_'))) is False)


class Round(Rec):
    stop = (r'copp::(detail|stack_traits)::(pagesize|page_size)', r'sysconf')

    def pick(self, eng, ev, st):
        if ev.k == 'called':
            return ('called', ev.q, ev.val)
        return None

    def final(self, eng, fr, st, kind, val):
        return st.copy()


PROPS = {'C07': c07}
