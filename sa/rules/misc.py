"""Identifiers (C28)."""
from rules.promise import *
import re

FILE = 'uint64_id_allocator'
W64 = 1 << 64


def decls(p):
    """variables of static storage: name -> declaration"""
    r = {}

    def walk(o):
        if isinstance(o, dict):
            if o.get('kind') in ('slocal', 'global') and 'n' in o:
                d = r.setdefault(o.get('q', o['n']), {})
                d.update(o)
            for v in o.values():
                walk(v)
        elif isinstance(o, (list, tuple)):
            for v in o:
                walk(v)
    for f in p.fns.values():
        if f.blocks and FILE in (f.loc() or ''):
            walk(f.nodes)
    return r


def width(v):
    """an upper bound of the number of bits of a word"""
    if v[0] == 'c':
        return (v[1] % W64).bit_length()
    if v[0] == 'op' and len(v) == 4:
        o, a, b = v[1:]
        if o == '&':
            return min(width(a), width(b))
        if o == '>>' and b[0] == 'c':
            return max(width(a) - b[1], 0)
        if o == '<<' and b[0] == 'c':
            return min(width(a) + b[1], 64)
        if o == '%' and b[0] == 'c' and b[1] > 0:
            return (b[1] - 1).bit_length()
        if o in '|^':
            return max(width(a), width(b))
        if o == '+':
            return min(max(width(a), width(b)) + 1, 64)
    return 64


def high(v):
    """N, k, rest with v == (N << k) + rest"""
    ts, n = [], None

    def flat(x):
        if x[0] == 'op' and len(x) == 4 and x[1] in '+|^':
            flat(x[2])
            flat(x[3])
        else:
            ts.append(x)
    flat(v)
    for i, x in enumerate(ts):
        if x[0] == 'op' and len(x) == 4 and x[3][0] == 'c' and (x[1] == '<<' or x[1] == '*' and x[3][1] & (x[3][1] - 1) == 0 and x[3][1] > 1):
            k = x[3][1] if x[1] == '<<' else x[3][1].bit_length() - 1
            rest = {}
            for j, y in enumerate(ts):
                if j != i:
                    rest = ladd(rest, lin(y))
            return x[2], k, rest
    return None


class Id(Facts):
    throws = False
    merge_after = 400

    def __init__(self, words, fresh, room):
        self.stop = tuple('^' + re.escape(f.q) + '$' for f in fresh)
        super().__init__()
        self.words, self.fresh, self.room = words, fresh, room
        self.data = dict(steps=0, ids=0, words=[], shift=[], cache=[])

    def see(self, st):
        # values at the start stay what they are
        for v, (lo, hi, ne) in st.facts.items():
            if v[0] != 'ld' or v[2] != 0:
                continue
            if hi is not None:
                self.add(st, 'max', v, hi)
            if lo is not None and lo > 0 or 0 in ne:
                self.add(st, 'nz', v)

    def less(self, st, a, b):
        """is a < b known"""
        d = ladd(lin(b), lin(a), -1)
        if set(d) == {''} and d[''] > 0:
            return True
        if st.cmp('<', a, b) is True:
            return True
        for k, w in st.rel.items():
            if k[0] != '<':
                continue
            x, y = (k[1], k[2]) if w else (k[2], k[1])
            # x < y or x <= y, with x == a + c and b == y + d
            c, d = ladd(lin(x), lin(a), -1), ladd(lin(b), lin(y), -1)
            if not (set(c) | set(d)) - {''} and c.get('', 0) + d.get('', 0) + (1 if w else 0) > 0:
                return True
        return False

    def below(self, st, form, lim):
        """is the linear form below lim"""
        c = form.get('', 0)
        for a, k in form.items():
            if a == '':
                continue
            hi = [x[2] for x in self.all(st, 'max') if x[1] == a]
            if st.rng(a)[1] is not None:
                hi.append(st.rng(a)[1])
            w = width(a)
            if w < 64:
                hi.append((1 << w) - 1)
            if k < 0 or not hi:
                return False
            c += k * min(hi)
        return 0 <= c < lim


class Block(Id):
    """the step of the word all blocks come from"""
    def event(self, eng, ev, st):
        if ev.k == 'branch':
            self.see(st)
        lv = ev.d.get('lv')
        if ev.k == 'cas' and ev.ok:
            self.word(eng, ev, st, lv)
            self.data['steps'] += 1
            why = self.grows(st, ev.exp, ev.des)
            if why:
                self.bad(eng, 'C28.block', 'the next block %s' % why, ev, st)
            self.set(st, 'got', ev.des)
        elif ev.k == 'rmw':
            self.word(eng, ev, st, lv)
            self.data['steps'] += 1
            a = ev.d.get('arg')
            if ev.op not in ('add', '++', '+') or a is None or a[0] != 'c' or a[1] < 1:
                self.bad(eng, 'C28.block', 'the word all blocks come from is changed by something else than a step forward', ev, st)
            self.set(st, 'got', ev.val)
        elif ev.k == 'astore':
            self.word(eng, ev, st, lv)
            self.bad(eng, 'C28.block', 'the word all blocks come from is overwritten, a block that another thread took meanwhile is given out again', ev, st)

    def word(self, eng, ev, st, lv):
        r = root(lv)
        if lv not in self.data['words']:
            self.data['words'].append(lv)
        if r[0] != 'g':
            self.bad(eng, 'C28.word', 'the word all blocks come from is not one variable of the process', ev, st)
        elif self.words.get(r[1], {}).get('tls'):
            self.bad(eng, 'C28.word', 'the word all blocks come from belongs to a thread, two threads take the same blocks', ev, st)

    def grows(self, st, exp, des):
        if self.less(st, exp, des):
            return None
        h = high(des)
        if h is None:
            return 'is not known to be behind the last one'
        N, k, rest = h
        if rest and not self.below(st, rest, 1 << k):
            return 'is not known to be behind the last one'
        T = ('op', '>>', exp, ('c', k))
        d = ladd(lin(N), lin(T), -1)
        if set(d) == {''} and d[''] > 0:
            return None
        if not self.less(st, T, N):
            return 'is not behind the last one when the clock was set back'
        if width(N) + k > 64 - self.room:
            return 'may lose its upper bits, the same block may be given out again'
        return None

    def exit(self, eng, fr, st, kind, val):
        if kind != 'ret':
            return
        g = self.get(st, 'got')
        if g is None or val is None or val != g:
            self.bad(eng, 'C28.own', 'a block is returned that this call did not take', fr.fn.loc(), st)
        self.data['ids'] += 1


class Alloc(Id):
    """the ids of one thread"""
    def event(self, eng, ev, st):
        if ev.k == 'branch':
            self.see(st)
        lv = ev.d.get('lv')
        if ev.k == 'cas' and ev.ok:
            self.set(st, 'got', ev.des)
        if ev.k == 'called' and any(f.q == ev.q for f in self.fresh):
            # behind another block, so not zero (C28.block)
            st.assume(('op', '!=', ev.val, C0), True)
            self.set(st, 'fresh', ev.val)
        if ev.k == 'call' and ev.q in ('pthread_once', 'pthread_key_create', 'std::call_once'):
            self.add(st, 'key')
        if ev.k == 'call' and ev.q == 'pthread_getspecific' and not self.has(st, 'key'):
            self.bad(eng, 'C28.thread', 'the place for the state of a thread is used before it was made', ev, st)
        if ev.k == 'called' and ev.q == 'pthread_getspecific':
            self.set(st, 'tls', (ev.val, ev.args[0]))
        if ev.k == 'call' and ev.q == 'pthread_setspecific':
            self.add(st, 'kept', ev.args[1], ev.args[0])
        if ev.k == 'new':
            self.add(st, 'new', ev.ptr)
        if ev.k in ('access', 'load', 'store') and lv and lv[0] == 'f' and ev.d.get('fc'):
            self.add(st, 'obj', lv[1], ev.fc)

    def exit(self, eng, fr, st, kind, val):
        loc = fr.fn.loc()
        if kind != 'ret' or val is None:
            return
        objs = {x[1]: x[2] for x in self.all(st, 'obj') if self.owned(eng, st, x[1], loc)}
        if val == ('c', 0):
            if self.all(st, 'obj'):
                self.bad(eng, 'C28.zero', 'an id that is zero is given out', loc, st)
            return
        h = high(val)
        if h is None:
            self.bad(eng, 'C28.own', 'an id is given out that does not come from a block', loc, st)
            return
        self.data['ids'] += 1
        B, k, S = h
        self.data['shift'].append(k)
        fresh = [x[1] for x in self.all(st, 'fresh')] + ([self.get(st, 'got')] if self.get(st, 'got') else [])
        base = seq = None
        for o, c in objs.items():
            for n, _ in fieldtypes(self.p, c):
                v = eng.load(st, ('f', o, n))
                if v == B:
                    base = ('f', o, n)
                else:
                    d = ladd(lin(v), S, -1)
                    if not (set(d) - {''}):
                        seq = ('f', o, n, d.get('', 0))
        if not self.below(st, S, 1 << k):
            self.bad(eng, 'C28.room', 'the number inside of the block is not known to be below %d, an id of another block is given out' % (1 << k), loc, st)
        if base is None:
            if B in fresh:
                if seq is not None:
                    self.bad(eng, 'C28.next', 'the next id combines a number of this block with another block', loc, st)
            else:
                self.bad(eng, 'C28.own', 'an id is given out of a block that this thread did not take', loc, st)
            return
        if seq is None or seq[3] < 1:
            self.bad(eng, 'C28.next', 'the next id of this thread is the same', loc, st)
        if B in fresh:
            return
        if B != ('ld', base, 0):
            self.bad(eng, 'C28.own', 'an id is given out of a block that this thread did not take', loc, st)
            return
        if any(base[1] == ('d', x[1]) for x in self.all(st, 'new')):
            self.bad(eng, 'C28.own', 'an id is given out of a block that was never set', loc, st)
        if st.truth(B) is not True and not self.has(st, 'nz', B):
            self.bad(eng, 'C28.own', 'an id is given out of a block that this thread did not take yet', loc, st)
        if seq is not None:
            d = ladd(S, lin(('ld', seq[:3], 0)), -1)
            if set(d) - {''} or d.get('', 0) < 0:
                self.bad(eng, 'C28.next', 'an id of the block is given out again', loc, st)

    def owned(self, eng, st, o, loc):
        """does the object belong to the thread that runs"""
        r = root(o)
        if r[0] in ('v', 't', 'p'):
            return False
        if o not in self.data['cache']:
            self.data['cache'].append(o)
        if r[0] == 'g':
            if not self.words.get(r[1], {}).get('tls'):
                self.bad(eng, 'C28.thread', 'the block in use is shared by all threads', loc, st)
            return True
        if o[0] == 'd':
            t = self.get(st, 'tls')
            if t and o[1] == t[0]:
                return True
            if any(x[1] == o[1] for x in self.all(st, 'new')):
                if t is None or not any(x[1] == o[1] and x[2] == t[1] for x in self.all(st, 'kept')):
                    self.bad(eng, 'C28.thread', 'the state of the thread is not kept, it is made again for each id', loc, st)
                return True
        self.bad(eng, 'C28.thread', 'the block in use is not known to belong to the running thread', loc, st)
        return True


class Gone(Facts):
    """state of a thread that is freed"""
    throws = False

    def __init__(self):
        super().__init__()
        self.data = dict(freed=0)

    def event(self, eng, ev, st):
        if ev.k == 'called' and ev.q == 'pthread_getspecific':
            self.set(st, 'cur', (ev.val, ev.args[0]))
        c = self.get(st, 'cur')
        if ev.k == 'call' and ev.q == 'pthread_setspecific' and c and ev.args[0] == c[1]:
            if ev.args[1] != c[0]:
                self.rm(st, 'cur')
            else:
                for x in self.all(st, 'freed'):
                    self.bad(eng, 'C28.gone', 'freed state is kept for the thread', ev, st)
        if ev.k == 'delete':
            self.data['freed'] += 1
            if c and ev.ptr == c[0]:
                self.add(st, 'freed', ev.ptr)

    def exit(self, eng, fr, st, kind, val):
        if kind == 'ret' and self.all(st, 'freed') and self.get(st, 'cur'):
            self.bad(eng, 'C28.gone', 'the state of the thread was freed and is still the one the thread uses', fr.fn.loc(), st)


def reach(p, f, pred, seen=None):
    """does f or a function it calls (in the same file) do what pred says"""
    seen = seen if seen is not None else set()
    if f.id in seen:
        return False
    seen.add(f.id)
    for q, i in calls_of(f):
        if pred(q):
            return True
        g = p.fns.get(i)
        if g is not None and g.blocks and FILE in (g.loc() or '') and reach(p, g, pred, seen):
            return True
    return False


def calls_of(f):
    r = []

    def walk(o):
        if isinstance(o, dict):
            if isinstance(o.get('fn'), dict):
                r.append((o['fn'].get('q', ''), o['fn'].get('id', '')))
            elif isinstance(o.get('q'), str) and isinstance(o.get('id'), str):
                r.append((o['q'], o['id']))
            for v in o.values():
                walk(v)
        elif isinstance(o, (list, tuple)):
            for v in o:
                walk(v)
    walk(f.nodes)
    return r


def c28(R):
    R.rule('C28.word', 'blocks come from one word of the process that is changed by atomic steps')
    R.rule('C28.block', 'each successful step makes that word larger, whatever the clock says, and fits into it')
    R.rule('C28.own', 'a call gives out the block its own successful step made; an id comes from a block its thread took')
    R.rule('C28.room', 'the number inside of a block is below the size of the block')
    R.rule('C28.next', 'the state of a thread moves on with each id: the same block with a larger number')
    R.rule('C28.thread', 'the state belongs to the thread that runs and is kept for it')
    R.rule('C28.zero', 'zero is not given out when the state of the thread could be made')
    R.rule('C28.gone', 'state of a thread is taken out before it is freed')
    R.assume('Fewer ids are taken than the word can count.')
    p = R.load()
    fs = [f for f in p.fns.values() if f.blocks and FILE in (f.loc() or '')]
    top = [f for f in fs if f.n == 'allocate' and re.search(r'uint64_id_allocator$', f.cls or '')]
    R.need('allocate', len(top), 1)
    words = decls(p)
    steps = lambda q: re.search(r'(compare_exchange_\w+|fetch_add)$', q) is not None
    blocks = [f for f in fs if f not in top and not f.params and f.rt in ('unsigned long', 'unsigned long long', 'uint64_t') and reach(p, f, steps)]
    # the outermost ones
    inner = {i for f in blocks for _, i in calls_of(f)}
    blocks = [f for f in blocks if f.id not in inner]

    def mk(cls, *a):
        def f():
            m = cls(*a)
            m.p = p
            return m
        return f
    ds = R.explore([(mk(Alloc, words, blocks, 0), f) for f in top])
    R.need('ids given out', sum(d['ids'] for d in ds), 2)
    R.need('state of a thread', len([c for d in ds for c in d['cache']]), 1)
    k = max([s for d in ds for s in d['shift']] or [0])
    bs = R.explore([(mk(Block, words, [], k), f) for f in (blocks or top)])
    R.need('steps of the word', sum(d['steps'] for d in bs), 1)
    ws = {w for d in bs for w in d['words']}
    R.ob('C28.word', 'one word', len(ws) == 1, (blocks or top)[0].loc(), 'blocks come from %d words, which may hold the same block' % len(ws))
    R.ob('C28.room', 'one size of blocks', len({s for d in ds for s in d['shift']}) == 1, top[0].loc(), 'ids of blocks of different sizes overlap')
    gs = [f for f in fs if reach(p, f, lambda q: q == 'pthread_getspecific') and f not in top]
    R.explore([(mk(Gone), f) for f in gs])
    for rule, xs in (('C28.block', blocks or top), ('C28.own', top + blocks), ('C28.next', top), ('C28.thread', top), ('C28.zero', top), ('C28.gone', gs)):
        for f in xs:
            R.ob(rule, f.q, True, f.loc())


PROPS = {'C28': c28}
