"""Path-sensitive abstract interpreter over the extracted control-flow graphs.

No solver is involved: branch conditions are remembered as constant/interval/equality facts on symbolic value names and
contradicting branches are dropped.  Helpers of the repository are inlined, so the analysis sees what a function does and
not how it is cut into pieces.  A monitor (typestate automaton) receives the events of every path."""
import re, time
from facts import Broken

C0 = ('c', 0)
C1 = ('c', 1)
UNDEF = ('undef',)

BOX_RX = re.compile(r'^(?:const )?std::(unique_ptr|shared_ptr|weak_ptr|__shared_ptr|__exception_ptr::exception_ptr|'
                    r'function|coroutine_handle|__n4861::coroutine_handle|reference_wrapper|nullptr_t)\b')


def is_class_ty(t):
    t = t.replace('const ', '').replace('volatile ', '').strip()
    if t.endswith('*') or t.endswith('&'):
        return False
    return t


def boxy(t):
    return bool(BOX_RX.match(t or ''))


def strip_cv(t):
    t = (t or '').strip()
    while True:
        if t.startswith('const '):
            t = t[6:]
        elif t.startswith('volatile '):
            t = t[9:]
        elif t.endswith('&'):
            t = t[:-1].strip()
        else:
            return t


class Frame:
    __slots__ = ('fn', 'fid', 'this', 'alias', 'ret', 'parent', 'depth', 'site', 'lam', 'saved')

    def __init__(self, fn, fid, this, parent, site, ret):
        self.fn = fn; self.fid = fid; self.this = this; self.parent = parent; self.site = site; self.ret = ret
        self.alias = {}
        self.depth = parent.depth + 1 if parent else 0
        self.lam = None
        self.saved = None

    def stack(self):
        f = self
        while f:
            yield f
            f = f.parent


class State:
    __slots__ = ('mem', 'facts', 'rel', 'mon', 'vals', 'con', 'locks', 'ver', 'trace', 'retv')

    def __init__(self):
        self.mem = {}; self.facts = {}; self.rel = {}; self.mon = None; self.vals = {}; self.con = ()
        self.locks = (); self.ver = 0; self.trace = None; self.retv = None

    def copy(self):
        s = State()
        s.mem = dict(self.mem); s.facts = dict(self.facts); s.rel = dict(self.rel); s.mon = self.mon
        s.vals = dict(self.vals); s.con = self.con; s.locks = self.locks; s.ver = self.ver; s.trace = self.trace
        s.retv = self.retv
        return s

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.facts.items()), frozenset(self.rel.items()), self.mon,
                frozenset(self.vals.items()), self.con, self.locks, self.ver, self.retv)

    # ---- facts
    def rng(self, v):
        if v[0] == 'c':
            return (v[1], v[1], frozenset())
        if v[0] == 'a':
            return (1, None, frozenset())
        return self.facts.get(v, (None, None, frozenset()))

    def set_rng(self, v, lo, hi, neq):
        if v[0] == 'c':
            x = v[1]
            return (lo is None or x >= lo) and (hi is None or x <= hi) and x not in neq
        if v[0] == 'a':
            return not (hi is not None and hi <= 0) and not (lo is not None and lo == 0 and hi == 0)
        while lo is not None and lo in neq:
            lo += 1
        while hi is not None and hi in neq:
            hi -= 1
        if lo is not None and hi is not None and lo > hi:
            return False
        neq = frozenset(x for x in neq if (lo is None or x > lo) and (hi is None or x < hi))
        if lo is None and hi is None and not neq:
            self.facts.pop(v, None)
        else:
            self.facts[v] = (lo, hi, neq)
        return True

    def truth(self, v):
        """True/False/None"""
        k = v[0]
        if k == 'c':
            return v[1] != 0
        if k in ('a', 'lam', 'fn', 'str'):
            return True
        if k == 'op':
            op = v[1]
            if op == '!':
                t = self.truth(v[2])
                return None if t is None else (not t)
            if op in ('==', '!=', '<'):
                return self.cmp(op, v[2], v[3])
            if op == '|' and v[3][0] == 'c' and v[3][1] != 0:
                return True
        lo, hi, neq = self.rng(v)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0) or 0 in neq:
            return True
        if lo == 0 and hi == 0:
            return False
        return None

    def cmp(self, op, a, b):
        if op == '!=':
            t = self.cmp('==', a, b)
            return None if t is None else not t
        if a == b and a[0] != 'undef':
            if _old(a):
                return None
            return op == '=='
        al, ah, an = self.rng(a)
        bl, bh, bn = self.rng(b)
        if op == '==':
            if al is not None and al == ah and bl is not None and bl == bh:
                return al == bl
            if (ah is not None and bl is not None and ah < bl) or (bh is not None and al is not None and bh < al):
                return False
            if bl is not None and bl == bh and bl in an:
                return False
            if al is not None and al == ah and al in bn:
                return False
            if a[0] == 'a' and b[0] == 'a' and a[1][0] in ('v', 't', 'g') and b[1][0] in ('v', 't', 'g'):
                return a[1] == b[1]
            if a[0] == 'a' and b[0] == 'a':
                ra, rb = root(a[1]), root(b[1])
                # a local is no element of a container
                if ra[0] in ('v', 't') and rb[0] == 'd' and rb[1][0] == 'elemof' or rb[0] in ('v', 't') and ra[0] == 'd' and ra[1][0] == 'elemof':
                    return False
            return self.rel.get(('==',) + tuple(sorted((a, b), key=repr)))
        if op == '<':
            if ah is not None and bl is not None and ah < bl:
                return True
            if al is not None and bh is not None and al >= bh:
                return False
            r = self.rel.get(('<', a, b))
            if r is not None:
                return r
            if self.rel.get(('<', b, a)) is True:
                return False
            if self.rel.get(('==',) + tuple(sorted((a, b), key=repr))) is True:
                return False
            return None

    def assume(self, v, want):
        """adds the fact v == want; False when it contradicts what is known"""
        t = self.truth(v)
        if t is not None:
            return t == want
        if v[0] == 'op':
            op = v[1]
            if op == '!':
                return self.assume(v[2], not want)
            if op == '!=':
                return self.assume(('op', '==', v[2], v[3]), not want)
            if op == '==':
                a, b = v[2], v[3]
                for x, y in ((a, b), (b, a)):
                    l, h, n = self.rng(y)
                    if l is not None and l == h:
                        if l in (0, 1) and x[0] == 'op' and x[1] in ('==', '!=', '<', '!'):
                            return self.assume(x, want == bool(l))
                        lo, hi, neq = self.rng(x)
                        if want:
                            if not self.set_rng(x, l if lo is None or l > lo else lo, l if hi is None or l < hi else hi, neq):
                                return False
                        else:
                            if not self.set_rng(x, lo, hi, neq | {l}):
                                return False
                        self._prop(x)
                        return True
                self.rel[('==',) + tuple(sorted((a, b), key=repr))] = want
                return True
            if op == '<':
                a, b = v[2], v[3]
                al, ah, an = self.rng(a)
                bl, bh, bn = self.rng(b)
                if want:
                    if not (a[0] == 'c' or b[0] == 'c'):
                        bh = None if bh is None or bh > 1 else bh
                        al = None if al is None or al < 0 else min(al, 0)
                    if bh is not None and not self.set_rng(a, al, min(x for x in (ah, bh - 1) if x is not None), an):
                        return False
                    if al is not None and not self.set_rng(b, max(x for x in (bl, al + 1) if x is not None), bh, bn):
                        return False
                else:  # a >= b
                    if not (a[0] == 'c' or b[0] == 'c'):
                        bl = None if bl is None else min(bl, 1)
                        ah = None if ah is None or ah > 1 else ah
                    if bl is not None and not self.set_rng(a, max(x for x in (al, bl) if x is not None), ah, an):
                        return False
                    if ah is not None and not self.set_rng(b, bl, min(x for x in (bh, ah) if x is not None), bn):
                        return False
                if not (a[0] == 'c' or b[0] == 'c'):
                    self.rel[('<', a, b)] = want
                return True
        lo, hi, neq = self.rng(v)
        if want:
            ok = self.set_rng(v, lo, hi, neq | {0})
        else:
            ok = self.set_rng(v, 0, 0, frozenset())
        return ok

    def _prop(self, x):
        pass

    def join(self, o, site):
        """least precise common description of self and o (same monitor state, locks, pending destructors)"""
        for k in set(self.mem) | set(o.mem):
            a, b = self.mem.get(k), o.mem.get(k)
            if a != b:
                # the joined value gets a name that may still mean an earlier value
                v = ('phi', site, k)
                for i in (0, 1):
                    x = (self, o)[i]
                    if any(_contains(y, v) for z, y in x.mem.items() if z != k and y.__class__ is tuple) or any(_contains(z, v) for z in x.mem):
                        x = x.copy()
                        x.purge(v)
                        if i == 0:
                            self = x
                        else:
                            o = x
        r = State()
        r.mon = self.mon; r.locks = self.locks; r.con = self.con; r.retv = self.retv; r.trace = o.trace
        same = self.ver == o.ver
        r.ver = self.ver if same else ('phi', site)
        done = {}

        def phi(a, b, k):
            if a == b:
                return a
            if a[0] != 'undef' and b[0] != 'undef':
                la, ha, _ = self.rng(a)
                lb, hb, _ = o.rng(b)
                if la is not None and la == ha == lb == hb:
                    return ('c', la)
            v = ('phi', site, k)
            done[v] = (a, b)
            return v
        for k in set(self.mem) | set(o.mem):
            a, b = self.mem.get(k), o.mem.get(k)
            if a is None or b is None:
                if is_local(k):
                    if k[0] in ('v', 't'):
                        r.mem[k] = phi(a or UNDEF, b or UNDEF, k)
                    else:
                        a = a or ('ld', k, 0)
                        b = b or ('ld', k, 0)
                        r.mem[k] = phi(a, b, k)
                    continue
                if not same:
                    continue
                a = a or ('ld', k, self.ver)
                b = b or ('ld', k, o.ver)
            r.mem[k] = phi(a, b, k)
        for k in set(self.vals) & set(o.vals):
            a, b = self.vals[k], o.vals[k]
            if a == b:
                r.vals[k] = a
            elif a.__class__ is tuple and b.__class__ is tuple:
                if is_lv(a) or is_lv(b):
                    r.vals[k] = ('d', ('phi', site, ('n', k)))
                else:
                    r.vals[k] = phi(a, b, ('n', k))
        for k, f in self.facts.items():
            g = o.facts.get(k)
            if g is None or k in done:
                continue
            h = f if f == g else (f[0] if f[0] == g[0] else (None if f[0] is None or g[0] is None else (0 if min(f[0], g[0]) >= 0 else None)),
                                  f[1] if f[1] == g[1] else None, f[2] & g[2])
            if h != (None, None, frozenset()):
                r.facts[k] = h
        for v, (a, b) in done.items():
            f, g = self.rng(a), o.rng(b)
            ne = set()
            if self.truth(a) is True and o.truth(b) is True:
                ne.add(0)
            lo = f[0] if f[0] == g[0] else (None if f[0] is None or g[0] is None else (0 if min(f[0], g[0]) >= 0 else None))
            hi = f[1] if f[1] == g[1] else None
            if lo is not None or hi is not None or ne:
                r.facts[v] = (lo, hi, frozenset(ne))
        for k, v in self.rel.items():
            if o.rel.get(k) == v:
                r.rel[k] = v
        return r

    def group(self):
        return (self.mon, self.locks, self.con, self.retv, frozenset((k, v) for k, v in self.vals.items() if k.__class__ is tuple))

    def nonnull(self, v):
        return self.truth(v) is True

    def relname(self, k):
        return k if k[0] != '==' else ('==',) + tuple(sorted(k[1:], key=repr))

    def purge(self, name):
        """value `name` is about to be produced again (loop): rename the older instance (and forget about still older ones)"""
        new = ('prev', name)
        old = ('old', name)

        def has(v):
            if v == name:
                return True
            for x in v:
                if x.__class__ is tuple and has(x):
                    return True
            return False
        hit = False
        for k, v in self.mem.items():
            if (v.__class__ is tuple and has(v)) or has(k):
                hit = True
                break
        if not hit:
            for d in (self.facts, self.rel):
                for k in d:
                    if has(k):
                        hit = True
                        break
        if not hit:
            for v in self.vals.values():
                if v.__class__ is tuple and has(v):
                    hit = True
                    break
        if not hit:
            if not ((isinstance(self.mon, tuple) and has(self.mon)) or any(has(l) for l in self.locks) or
                    any(has(c[1]) for c in self.con) or (isinstance(self.ver, tuple) and has(self.ver))):
                return

        def sub(v):
            if v == name:
                return new
            if v == new or v == old:
                return old
            if v.__class__ is tuple:
                return tuple([sub(x) if x.__class__ is tuple else x for x in v])
            return v
        m = {}
        for k, v in self.mem.items():
            if (has(k) or _contains(k, new)) and root(k)[0] not in ('v', 't'):
                continue
            m[k] = sub(v) if (v.__class__ is tuple and (has(v) or _contains(v, new))) else v
        self.mem = m
        self.facts = {sub(k) if has(k) else k: v for k, v in self.facts.items() if not _contains(k, new)}
        self.rel = {self.relname(sub(k)) if has(k) else k: v for k, v in self.rel.items() if not _contains(k, new)}
        for k, v in list(self.vals.items()):
            if v.__class__ is tuple and has(v):
                self.vals[k] = sub(v)
        if any(has(l) for l in self.locks):
            self.locks = tuple([sub(l) for l in self.locks])
        if any(has(c[1]) for c in self.con):
            self.con = tuple([(c[0], sub(c[1])) + c[2:] for c in self.con])
        if isinstance(self.mon, tuple) and has(self.mon):
            self.mon = sub(self.mon)


def _contains(v, x):
    if v == x:
        return True
    return isinstance(v, tuple) and any(_contains(y, x) for y in v if isinstance(y, tuple))


contains = _contains


def _old(v):
    if v[0] == 'old' or v[0] == 'wide' or v[0] == 'phi' and False:
        return True
    for x in v:
        if x.__class__ is tuple and x and _old(x):
            return True
    return False


def depth(v):
    if not isinstance(v, tuple):
        return 0
    return 1 + max([depth(x) for x in v if isinstance(x, tuple)] or [0])


_FRESH = {'call', 'cold', 'ald', 'axc', 'armw', 'prev', 'iter', 'out', 'old', 'wide', 'fldof', 'moved', 'phi'}


def _vals(m):
    if m.__class__ is tuple:
        yield m
    elif isinstance(m, (frozenset, set, list)):
        for x in m:
            yield from _vals(x)


def root(lv):
    while lv[0] in ('f', 'e'):
        lv = lv[1]
    return lv


def is_local(lv):
    return root(lv)[0] in ('v', 't')


def show(v):
    if not isinstance(v, tuple):
        return str(v)
    k = v[0]
    try:
        if k == 'c':
            return str(v[1])
        if k == 'this':
            return 'this'
        if k == 'fldof':
            return show(v[1]) + '.' + str(v[2])
        if k == 'p':
            return v[2]
        if k == 'v':
            return v[3]
        if k == 't':
            return 'tmp%d' % v[2]
        if k == 'g':
            return v[1]
        if k == 'd':
            return '*' + show(v[1])
        if k == 'a':
            return '&' + show(v[1])
        if k == 'f':
            if v[1] == ('d', ('this',)):
                return v[2]
            if v[1][0] == 'd':
                return show(v[1][1]) + '->' + v[2]
            return show(v[1]) + '.' + v[2]
        if k == 'ld':
            return show(v[1])
        if k == 'ald':
            return 'load(' + show(v[1]) + ')'
        if k == 'call':
            return v[2].split('::')[-1] + '()'
        if k == 'pure':
            return show(v[2]) + '.' + v[1].split('::')[-1] + '()'
        if k == 'op':
            if len(v) == 3:
                return v[1] + show(v[2])
            return '(%s %s %s)' % (show(v[2]), v[1], show(v[3]))
        if k == 'prev':
            return show(v[1])
    except Exception:
        pass
    if isinstance(k, tuple):
        return '(' + ', '.join(show(x) for x in v) + ')'
    return str(k)


class Ev:
    """an event on a path"""
    __slots__ = ('k', 'fr', 'node', 'line', 'd')

    def __init__(self, k, fr, node, line, **d):
        self.k = k; self.fr = fr; self.node = node; self.line = line; self.d = d

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def loc(self):
        return self.fr.fn.loc(self.line)


class Monitor:
    """override what is needed.  mon-state must be hashable; handlers return None or mutate state.mon"""
    base_stop = (r'.*::intrusive_ptr_release', r'.*::intrusive_ptr_add_ref')
    stop_ids = frozenset()   # the same by function id
    stop = ()            # regexes (fullmatch on qualified name): treat as opaque events
    user = ()            # extra regexes of user-code calls
    throws = False       # explore exceptions out of user code
    max_states = 60000
    inline_depth = 14
    heads = False        # join only at loop heads
    inits = False        # also wants to see the initialisation of variables ('init' events)
    head_limit = 2
    merge_after = 12     # states per program point and monitor state that are kept apart before joining

    def __init__(self):
        self.violations = {}
        self.counts = {}
        self._stop = [re.compile(x) for x in tuple(self.stop) + tuple(self.base_stop)]
        self._user = [re.compile(x) for x in self.user]

    def init(self, eng, st, fr):
        return None

    def opaque_call(self, q, obj):
        """treat this call as opaque (True) or as a call of the user's code ('user') although the function is known"""
        return False

    def event(self, eng, ev, st):
        pass

    def exit(self, eng, fr, st, kind, val):
        pass

    def atomic_values(self, eng, st, lv):
        """the values an atomic object may hold at this point (None: unknown)"""
        return None

    def atomic_seen(self, eng, st, lv, c):
        pass

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def report(self, eng, key, msg, ev_or_loc, st):
        loc = ev_or_loc.loc() if isinstance(ev_or_loc, Ev) else ev_or_loc
        if (key, loc) not in self.violations:
            self.violations[(key, loc)] = dict(rule=key, msg=msg, loc=loc, entry=eng.top.q + ' (' + eng.top.loc() + ')',
                                               cls=eng.top.cls, path=eng.path(st))


class Enough(Exception):
    """violations were found and the rest of the function takes too long"""


class Engine:
    def __init__(self, prog, mon, throws=None):
        self.prog = prog
        self.mon = mon
        self.fids = {}
        self.steps = 0
        self.top = None
        self.inlined = set()
        self.opaque = set()
        self.nstates = 0
        self.merged = 0
        self.paths = 0

    # ------------------------------------------------------------------ setup
    def prep(self, fn):
        if fn.cross is not None:
            return
        where = {}
        for bid, b in fn.blocks.items():
            for e in b['els']:
                if isinstance(e, int):
                    where[e] = bid
        cross = set()
        memo = {}

        def refs(n, out, seen):
            if n in seen:
                return
            seen.add(n)
            nd = fn.nodes[n]
            for k in ('a', 'b', 'c', 'obj', 'init', 'ce', 'asz'):
                x = nd.get(k)
                if isinstance(x, int) and x >= 0 and not (k == 'b' and nd['k'] in ('lit',)):
                    if x in fn.nodes:
                        out.add(x)
                        if x not in where:
                            refs(x, out, seen)
            for k in ('args', 'pl'):
                for x in nd.get(k, []) or []:
                    if isinstance(x, int):
                        out.add(x)
                        if x not in where:
                            refs(x, out, seen)
            for k in ('ds', 'caps'):
                for x in nd.get(k, []) or []:
                    if 'init' in x:
                        out.add(x['init'])
                        if x['init'] not in where:
                            refs(x['init'], out, seen)
        useN, defN = {}, {}
        for bid, b in fn.blocks.items():
            out = set()
            useN[bid] = uses = set()
            defN[bid] = {e for e in b['els'] if isinstance(e, int)}
            for e in b['els']:
                if isinstance(e, int):
                    refs(e, out, set())
                elif 'a' in e:
                    out.add(e['a'])
                    refs(e['a'], out, set())
            t = b.get('t')
            if t and 'c' in t:
                out.add(t['c'])
                refs(t['c'], out, set())
            if t and 'a' in t:
                out.add(t['a'])
            for x in out:
                if where.get(x) != bid:
                    cross.add(x)
                    uses.add(x)
            for x in list(out) + list(defN[bid]):
                if fn.nodes[x]['k'] == 'cond' or (fn.nodes[x]['k'] == 'bin' and fn.nodes[x]['op'] in ('&&', '||')):
                    uses.add(('sel', x))
            for e in b['els']:
                if isinstance(e, dict) and e.get('w') == 'temp':
                    uses.add(('bt', e['a']))
            if t and t['k'] == 'tmpdtor':
                uses.add(('bt', t['a']))
        liveN = {b: set() for b in fn.blocks}
        ch = True
        while ch:
            ch = False
            for bid, b in fn.blocks.items():
                o = set()
                for x in b['s']:
                    if x >= 0:
                        o |= liveN[x]
                nl = useN[bid] | {k for k in o if k not in defN[bid] or useN[bid].__contains__(k)}
                if nl != liveN[bid]:
                    liveN[bid] = nl
                    ch = True
        fn.cross = liveN
        fn.loops = _sccs(fn)
        fn.heads = _heads(fn)
        fn.inloop = set()
        for e, bid in where.items():
            if bid in fn.loops:
                fn.inloop.add(e)
        for n, nd in fn.nodes.items():
            if n not in where:
                pass
        self.liveness(fn, where)
        fn.elset = where
        # destructor function of each local
        fn.dtors = {}
        for b in fn.blocks.values():
            for e in b['els']:
                if isinstance(e, dict) and e['k'] == 'dtor' and e['w'] == 'auto' and not e.get('triv'):
                    fn.dtors[e['v']] = e
        # destinations of class prvalues
        dest = {}

        def setdest(n, d):
            nd = fn.nodes[n]
            k = nd['k']
            if k in ('bindtmp',):
                dest[n] = d
                setdest(nd['a'], d)
            elif k == 'cast' and not nd.get('lv'):
                setdest(nd['a'], d)
            elif k == 'cond':
                dest[n] = d
                setdest(nd['a'], d)
                setdest(nd['b'], d)
            elif k == 'ctor' and nd.get('elid') and nd.get('args'):
                dest[n] = d
                # elidable copy of a temporary
                a = fn.nodes[nd['args'][0]]
                if a['k'] == 'mat':
                    dest[nd['args'][0]] = d
                    setdest(a['a'], d)
            elif k in ('ctor', 'call', 'ilist', 'lambda', 'zero', 'coawait', 'other'):
                dest[n] = d
                if k == 'ilist' and len(nd.get('args', [])) == 1 and not nd.get('fs'):
                    setdest(nd['args'][0], d)
        for n, nd in fn.nodes.items():
            if nd['k'] == 'decl':
                for v in nd['ds']:
                    if 'init' in v and not v.get('isref'):
                        setdest(v['init'], ('var', v['v'], v['n']))
            elif nd['k'] in ('ret', 'coret') and 'a' in nd:
                setdest(nd['a'], ('ret',))
            elif nd['k'] == 'new' and 'init' in nd:
                setdest(nd['init'], ('new', n))
            elif nd['k'] == 'mat':
                setdest(nd['a'], ('tmp', n))
            elif nd['k'] == 'ilist' and nd.get('fs'):
                pass
        for b in fn.blocks.values():
            for e in b['els']:
                if isinstance(e, dict) and e['k'] == 'init':
                    if 'f' in e:
                        setdest(e['a'], ('fld', e['f']))
                    else:
                        setdest(e['a'], ('self',))
        fn.dest = dest

    def liveness(self, fn, where):
        """variables that may still be read at block entry.  Only plain locals (never address-taken, captured, bound to a
        reference or destroyed) are tracked; everything else counts as live."""
        reads = {}
        kills = {}
        esc = set()
        cand = set()
        for nd in fn.nodes.values():
            if nd['k'] == 'decl':
                for d in nd['ds']:
                    cand.add(d['v'])
        uses = {}          # node -> var ids referenced anywhere under it that is not itself an element

        def collect(n, out, seen):
            if n in seen or n not in fn.nodes:
                return
            seen.add(n)
            nd = fn.nodes[n]
            if nd['k'] == 'ref':
                out.add(nd['d'].get('v'))
            for key in ('a', 'b', 'c', 'obj', 'init', 'ce', 'asz'):
                x = nd.get(key)
                if isinstance(x, int) and x in fn.nodes:
                    collect(x, out, seen)
            for key in ('args', 'pl'):
                for x in nd.get(key, []) or []:
                    if isinstance(x, int):
                        collect(x, out, seen)
            for key in ('ds', 'caps'):
                for x in nd.get(key, []) or []:
                    if 'init' in x:
                        collect(x['init'], out, seen)
        use = {}
        defs = {}
        for bid, b in fn.blocks.items():
            u = set()
            d = set()
            for e in b['els']:
                out = set()
                if isinstance(e, int):
                    collect(e, out, set())
                    u |= out
                    nd = fn.nodes[e]
                    if nd['k'] == 'decl':
                        for x in nd['ds']:
                            if x['v'] not in u:
                                d.add(x['v'])
                else:
                    if 'a' in e:
                        collect(e['a'], out, set())
                        u |= out
                    if 'v' in e:
                        u.add(e['v'])
            t = b.get('t') or {}
            for kk in ('c', 'a', 'n'):
                if isinstance(t.get(kk), int):
                    out = set()
                    collect(t[kk], out, set())
                    u |= out
            use[bid] = u
            defs[bid] = d
        # aliases through references/pointers/captures keep a variable alive forever
        for n, nd in fn.nodes.items():
            if nd['k'] == 'lambda':
                for c in nd.get('caps', []):
                    if 'init' in c:
                        out = set()
                        collect(c['init'], out, set())
                        esc |= out
            elif nd['k'] == 'un' and nd['op'] == '&':
                out = set()
                collect(nd['a'], out, set())
                esc |= out
            elif nd['k'] == 'decl':
                for d in nd['ds']:
                    if d.get('isref') and 'init' in d:
                        out = set()
                        collect(d['init'], out, set())
                        esc |= out
            elif nd['k'] in ('call', 'ctor', 'new', 'coawait'):
                # bound by reference to something that may keep it (lock holders, guards): class-typed temporaries only
                if nd['k'] == 'ctor':
                    for a in nd.get('args', []):
                        if fn.nodes.get(a, {}).get('k') == 'ref':
                            esc.add(fn.nodes[a]['d'].get('v'))
        esc |= set(fn.dtors_vars if hasattr(fn, 'dtors_vars') else ())
        for b in fn.blocks.values():
            for e in b['els']:
                if isinstance(e, dict) and e['k'] == 'dtor' and e.get('w') == 'auto':
                    esc.add(e['v'])
        fn.live_cand = cand - esc
        live = {b: set() for b in fn.blocks}
        succ = {b: [x for x in fn.blocks[b]['s'] if x >= 0] for b in fn.blocks}
        handlers = [b for b, x in fn.blocks.items() if x.get('catch')]
        ch = True
        while ch:
            ch = False
            hl = set()
            for h in handlers:
                hl |= live[h]
            for b in fn.blocks:
                o = set(hl)
                for x in succ[b]:
                    o |= live[x]
                nl = (use[b] | (o - defs[b])) & fn.live_cand
                if nl != live[b]:
                    live[b] = nl
                    ch = True
        fn.live = live

    def trim(self, fr, bid, st):
        """forget dead locals and facts about values nobody can mention any more"""
        fn = fr.fn
        dead = fn.live_cand - fn.live[bid]
        fid = fr.fid
        if dead:
            for k in [k for k in st.mem if k[0] == 'v' and k[1] == fid and k[2] in dead]:
                del st.mem[k]
                self.drop(st, k)
        # temporaries of this frame that no value refers to
        self.gc(fr, st)

    def gc_elems(self, fr, st):
        """forget cells of container elements that can never be named again: their position is held by nobody and the
        content it was looked up in is gone"""
        cand = {}
        for k in st.mem:
            r = root(k)
            if r[0] == 'd' and r[1][0] == 'elemof' and r[1][1][0] == 'pure' and len(r[1][1]) > 2:
                cand.setdefault(r, []).append(k)
        if not cand:
            return
        tops = set(v for v in st.mem.values() if v.__class__ is tuple)
        for r, ks in cand.items():
            I = r[1][1]
            if I[2] in tops or I[2].__class__ is not tuple or I[2][0] == 'ld' and st.mem.get(I[2][1]) is None:
                continue
            if any(_contains(v, I) for k, v in st.mem.items() if root(k) != r) or any(root(k) != r and _contains(k, I) for k in st.mem):
                continue
            if any(v.__class__ is tuple and _contains(v, I) for v in st.vals.values()) or any(_contains(c[1], I) for c in st.con) or \
                    _contains(st.mon, ('elemof', I)) or st.retv is not None and _contains(st.retv, I):
                continue
            f = fr
            used = False
            while f is not None and not used:
                used = f.this is not None and _contains(f.this, I) or any(_contains(x, I) for x in f.alias.values()) or \
                    f.ret is not None and _contains(f.ret, I) or any(_contains(v, I) for v in (f.saved or ()))
                f = f.parent
            if used:
                continue
            for k in ks:
                del st.mem[k]

    def gc(self, fr, st):
        fid = fr.fid
        temps = [k for k in st.mem if root(k)[0] == 't' and root(k)[1] == fid]
        self.gc_elems(fr, st)
        if not st.facts and not st.rel and not temps:
            return
        live = set()

        def mark(v):
            if not v:
                return
            k = v[0]
            if k in _FRESH or k == 'ld':
                live.add(v)
            elif k == 't':
                live.add(v)
            for x in v:
                if x.__class__ is tuple and x:
                    mark(x)
        tset = {}
        for k in temps:
            tset.setdefault(root(k), []).append(k)
        for k, v in st.mem.items():
            r = root(k)
            if r in tset:
                continue
            mark(v)
            mark(k)
        for v in st.vals.values():
            if v.__class__ is tuple:
                mark(v)
        for c in st.con:
            mark(c[1])
        for l in st.locks:
            mark(l)
        if st.mon.__class__ is tuple:
            mark(st.mon)
        else:
            for x in _vals(st.mon):
                mark(x)
        if st.retv is not None:
            mark(st.retv)
        for f in fr.stack():
            if f.this is not None:
                mark(f.this)
            for x in f.alias.values():
                mark(x)
            if f.ret is not None:
                mark(f.ret)
            if f.lam:
                for c in f.lam:
                    mark(c[1])
            for v in (f.saved or ()):
                mark(v)
        ch = True
        while ch:
            ch = False
            for r in list(tset):
                if r in live:
                    for k in tset.pop(r):
                        mark(st.mem[k])
                    ch = True
        for r, ks in tset.items():
            for k in ks:
                del st.mem[k]

        def ok(v):
            if v[0] in _FRESH:
                if v not in live:
                    return False
            elif v[0] == 'ld' and v not in live:
                cur = st.mem.get(v[1])
                if (cur is not None and cur != v) or (v[2] != 0 and v[2] != st.ver) or (v[2] == 0 and st.ver != 0 and not is_local(v[1])):
                    return False
            for x in v:
                if x.__class__ is tuple and x and not ok(x):
                    return False
            return True
        for d in (st.facts, st.rel):
            for k in [k for k in d if not ok(k)]:
                del d[k]

    def fid(self, parent, site):
        k = (parent, site)
        if k not in self.fids:
            self.fids[k] = len(self.fids)
        return self.fids[k]

    def path(self, st):
        out = []
        t = st.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out

    def tr(self, st, fr, line, msg):
        st.trace = (st.trace, '%s: %s' % (fr.fn.loc(line), msg))

    # ------------------------------------------------------------------ running
    def run(self, fn, setup=None):
        """explores every path of fn from an unconstrained start state"""
        self.top = fn
        self.nstates = 0
        fr = Frame(fn, self.fid(None, fn.id), ('this',) if (fn.cls and not fn.st) else None, None, None, None)
        fr.ret = ('r', fr.fid)
        st = State()
        self.prep(fn)
        if fn.lam:
            fr.lam = None
        for i, p in enumerate(fn.params):
            lv = ('v', fr.fid, p['v'], p['n'])
            if p.get('isref'):
                st.mem[lv] = ('p', i, p['n'])
            else:
                st.mem[lv] = ('p', i, p['n']) if not self.is_rec(p['ty']) else ('p', i, p['n'])
        if setup:
            setup(self, st, fr)
        st.mon = self.mon.init(self, st, fr)
        self.t0 = time.process_time()
        try:
            outs = self.exec_fn(fr, st)
        except Enough:
            return []
        for kind, val, s in outs:
            self.paths += 1
            self.mon.exit(self, fr, s, kind, val)
        return outs

    def exec_fn(self, fr, st):
        fn = fr.fn
        self.prep(fn)
        saved_vals, saved_con, saved_retv = st.vals, st.con, st.retv
        st.retv = None
        if fr.parent is not None:
            fr.saved = [v for v in saved_vals.values() if v.__class__ is tuple] + [c[1] for c in saved_con]
        st.vals = {}
        st.con = ()
        outs = []
        outkeys = set()
        work = [(fn.entry, st)]
        seen = set()
        cnt = {}
        summ = {}
        limit = max(3, self.mon.merge_after - 3 * fr.depth)

        def finish(kind, val, s):
            s2 = s
            # drop this frame's locals
            s2.vals = dict(saved_vals)
            s2.con = saved_con
            fid = fr.fid
            dead = [k for k in s2.mem if root(k)[0] in ('v', 't') and root(k)[1] == fid and root(k) != fr.ret and
                    not (kind == 'ret' and val is not None and _contains(val, root(k)))]
            for k in dead:
                del s2.mem[k]
            s2.retv = saved_retv
            if fr.parent is None:
                outs.append((kind, val, s2))
                return
            k = (kind, val, s2.key())
            if k not in outkeys:
                outkeys.add(k)
                outs.append((kind, val, s2))
        while work:
            bid, s = work.pop()
            if bid == fn.exit:
                finish('ret', s.retv, s)
                continue
            self.trim(fr, bid, s)
            k = (bid, s.key())
            if k in seen:
                continue
            seen.add(k)
            g = (bid, s.group())
            cnt[g] = cnt.get(g, 0) + 1
            if cnt[g] > (limit if not self.mon.heads else (self.mon.head_limit if bid in fn.heads else 400)):
                self.merged += 1
                j = summ.get(g)
                if j is not None:
                    j2 = j.join(s, (fr.fid, bid))
                    if j2.key() == j.key():
                        continue
                    s = j2
                summ[g] = s.copy()
            self.nstates += 1
            if self.nstates > 200:
                t = time.process_time() - self.t0
                if self.mon.violations and (self.nstates > 20000 or t > 20):
                    raise Enough()
                if t > 90:
                    raise Broken('state budget (time) exceeded in %s (monitor %s)' % (self.top.q, type(self.mon).__name__))
            if self.nstates > self.mon.max_states:
                raise Broken('state budget exceeded in %s (monitor %s)' % (self.top.q, type(self.mon).__name__))
            b = fn.blocks[bid]
            states = [s.copy()]
            if b.get('catch'):
                if 'catchv' in b:
                    states[0].mem[('v', fr.fid, b['catchv'], 'e')] = ('exc',)
            dead = False
            for el in b['els']:
                nxt = []
                for x in states:
                    nxt += self.elem(fr, el, x)
                states = []
                for x in nxt:
                    if isinstance(x, tuple):
                        # ('throw', state, trylist)
                        self.unwind(fr, x[1], x[2], work, finish, el)
                    else:
                        states.append(x)
                if len(states) > 1:
                    ks = {}
                    for x in states:
                        ks.setdefault(x.key(), x)
                    states = list(ks.values())
                if not states:
                    dead = True
                    break
            if dead:
                continue
            if b.get('noret'):
                continue
            for x in states:
                self.term(fr, b, x, work)
        if fr.parent is not None and len(outs) > (max(2, limit // 2) if not self.mon.heads else 64):
            outs = self.merge_outs(fr, outs)
        return outs

    def merge_outs(self, fr, outs):
        gs = {}
        order = []
        for kind, val, s in outs:
            t = None
            if val is not None:
                t = val if val[0] == 'c' else ('lv', val) if is_lv(val) else s.truth(val)
            g = (kind, val is None, t, s.group())
            if g not in gs:
                gs[g] = []
                order.append(g)
            gs[g].append((val, s))
        res = []
        for g in order:
            l = gs[g]
            if len(l) <= (3 if fr.depth < 3 else 1):
                res += [(g[0], v, s) for v, s in l]
                continue
            self.merged += 1
            v, s = l[0]
            s.vals = dict(s.vals)
            if v is not None:
                s.vals['ret'] = v
            for v2, s2 in l[1:]:
                if v2 is not None:
                    s2.vals = dict(s2.vals)
                    s2.vals['ret'] = v2
                s = s.join(s2, (fr.fid, 'exit'))
            v = s.vals.pop('ret', None)
            res.append((g[0], v, s))
        return res

    def unwind(self, fr, s, trys, work, finish, el):
        fn = fr.fn
        trys = list(trys or [])
        while True:
            t = trys.pop() if trys else None
            keep, run = [], []
            for c in s.con:
                (run if (t is None or t in c[2]) else keep).append(c)
            s.con = tuple(keep)
            states = [s]
            for c in reversed(run):
                nx = []
                for q in states:
                    nx += [y for y in self.do_dtor(fr, c[1], c[3], q, None, fn.line) if not isinstance(y, tuple)]
                states = nx
            if not states:
                return
            s = states[0]
            if t is None:
                break
            hs = [bid for bid, b in fn.blocks.items() if b.get('catchof') == t]
            if hs:
                for q in states:
                    for h in hs:
                        q2 = q.copy()
                        self.tr(q2, fr, 0 or fn.line, 'exception caught')
                        work.append((h, q2))
                if any('catchty' not in fn.blocks[h] for h in hs):
                    return
        for q in states:
            if fn.ne:
                ev = Ev('terminate', fr, None, fn.line)
                self.mon.event(self, ev, q)
                continue
            finish('throw', None, q)

    def term(self, fr, b, s, work):
        fn = fr.fn
        t = b.get('t')
        succs = b['s']

        def go(i, st, sel=None):
            if i < len(succs) and succs[i] >= 0:
                if sel is not None:
                    st.vals[('sel', sel)] = i
                    st.vals.update()
                # trim values not needed in other blocks
                keep = fn.cross[succs[i]]
                st.vals = {k: v for k, v in st.vals.items() if k in keep}
                work.append((succs[i], st))
        if not t:
            for i in range(len(succs)):
                go(i, s.copy() if len(succs) > 1 else s)
            return
        k = t['k']
        if k == 'tmpdtor':
            done = ('bt', t['a']) in s.vals
            go(0 if done else 1, s)
            return
        if k == 'SwitchStmt':
            v = self.val(fr, t['c'], s)
            labels = []
            for i, su in enumerate(succs):
                if su < 0:
                    continue
                sb = fn.blocks[su]
                if 'case' in sb:
                    labels.append((i, int(sb['case'])))
            for i, su in enumerate(succs):
                if su < 0:
                    continue
                st = s.copy()
                sb = fn.blocks[su]
                if 'case' in sb:
                    if not st.assume(('op', '==', v, ('c', int(sb['case']))), True):
                        continue
                    self.tr(st, fr, t.get('l'), 'case %s of %s' % (sb['case'], show(v)))
                    self.mon.event(self, Ev('branch', fr, None, t.get('l'), val=('op', '==', v, ('c', int(sb['case']))), want=True), st)
                else:
                    ok = True
                    for _, c in labels:
                        if not st.assume(('op', '==', v, ('c', c)), False):
                            ok = False
                            break
                    if not ok:
                        continue
                    self.tr(st, fr, t.get('l'), 'default of switch on %s' % show(v))
                    for _, c in labels:
                        self.mon.event(self, Ev('branch', fr, None, t.get('l'), val=('op', '==', v, ('c', c)), want=False), st)
                go(i, st)
            return
        if k in ('CXXTryStmt',):
            # only the first successor (handlers are entered through exceptions)
            return
        if 'c' in t and len(succs) == 2:
            v = self.val(fr, t['c'], s)
            t_ = s.truth(v)
            sel = t.get('n')
            for i, want in ((0, True), (1, False)):
                if succs[i] < 0:
                    continue
                if t_ is not None and t_ != want:
                    continue
                st = s.copy()
                if not st.assume(v, want):
                    continue
                if t_ is None:
                    self.tr(st, fr, fn.nodes[t['c']].get('l', t.get('l')), '%s is %s' % (show(v), 'true' if want else 'false'))
                ev = Ev('branch', fr, None, t.get('l'), val=v, want=want)
                self.mon.event(self, ev, st)
                go(i, st, sel)
            return
        for i in range(len(succs)):
            go(i, s.copy() if len(succs) > 1 else s)

    # ------------------------------------------------------------------ elements
    def elem(self, fr, el, st):
        """returns list of State or ('throw', State, trys)"""
        self.steps += 1
        if isinstance(el, int):
            return self.ev(fr, el, st)
        k = el['k']
        if k == 'init':
            return self.do_init(fr, el, st)
        if k == 'dtor':
            w = el['w']
            if w == 'auto':
                lv = self.varlv(fr, el['v'], st)
                st.con = tuple(c for c in st.con if c[0] != el['v'])
                if el.get('triv'):
                    return [st]
                return self.do_dtor(fr, lv, el, st, el, el['l'])
            if w == 'temp':
                key = ('bt', el['a'])
                if key not in st.vals:
                    return [st]
                lv = st.vals.pop(key)
                return self.do_dtor(fr, lv, el, st, el, el['l'])
            if w == 'member':
                return self.do_dtor(fr, ('f', self.deref(fr.this), el['f']), el, st, el, el['l'])
            if w == 'base':
                return self.do_dtor(fr, self.deref(fr.this), el, st, el, el['l'])
            if w == 'delete':
                v = self.val(fr, el['a'], st)
                return self.do_dtor(fr, self.deref(v), el, st, el, el['l'])
        return [st]

    def deref(self, v):
        if v is None:
            return ('d', UNDEF)
        if v[0] == 'a':
            return v[1]
        return ('d', v)

    def addr(self, lv):
        if lv[0] == 'd':
            return lv[1]
        return ('a', lv)

    def is_rec(self, t):
        return strip_cv(t) in self.prog.recs

    def varlv(self, fr, vid, st):
        if vid in fr.alias:
            return fr.alias[vid]
        # name is irrelevant for identity but must be stable
        nm = self._vname(fr.fn, vid)
        return ('v', fr.fid, vid, nm)

    def _vname(self, fn, vid):
        cache = fn.reach_uses if hasattr(fn, 'reach_uses') else None
        if cache is None:
            cache = {}
            for p in fn.params:
                cache[p['v']] = p['n']
            for nd in fn.nodes.values():
                if nd['k'] == 'ref':
                    cache[nd['d']['v']] = nd['d']['n']
                elif nd['k'] == 'decl':
                    for d in nd['ds']:
                        cache[d['v']] = d['n']
            fn.reach_uses = cache
        return cache.get(vid, 'v%d' % vid)

    def do_dtor(self, fr, lv, el, st, node, line):
        """destructor of the object at lv; el has 'fn' and 't'"""
        f = el.get('fn') if isinstance(el, dict) else None
        t = strip_cv(el.get('t', '')) if isinstance(el, dict) else ''
        if f is None and t and el.get('w') == 'base':
            # clang's CFG does not name the destructor of a base
            ds = self.prog.__dict__.get('_dtors')
            if ds is None:
                ds = self.prog.__dict__['_dtors'] = {g.cls: {'id': g.id, 'q': g.q} for g in self.prog.fns.values() if g.fk == 'dtor' and g.blocks}
            f = ds.get(t)
        ev = Ev('dtor', fr, node, line, lv=lv, ty=t, fn=f)
        self.mon.event(self, ev, st)
        outs = [st]
        if f and f['id'] in self.prog.fns and not self.stopped(f['q']):
            outs = []
            for kind, val, s in self.inline(fr, self.prog.fns[f['id']], lv, [], st, ('dt', line, el.get('v', el.get('f', el.get('a', 0)))), ('t', -1, -1)):
                outs.append(s)
        if not (isinstance(el, dict) and el.get('w') == 'base'):
            for s in outs:
                self.drop(s, lv)
        return outs

    def drop(self, st, lv):
        for k in [k for k in st.mem if k == lv or (k[0] in ('f', 'e') and _under(k, lv))]:
            del st.mem[k]

    def stopped(self, q):
        return any(r.fullmatch(q) for r in self.mon._stop)

    def do_init(self, fr, el, st):
        outs = []
        if 'f' in el:
            lv = ('f', self.deref(fr.this), el['f'])
            for s in self.need(fr, el['a'], st):
                if isinstance(s, tuple):
                    outs.append(s)
                    continue
                v = self.res(fr, el['a'], s)
                if el.get('isref'):
                    s.mem[lv] = self.addr(v)
                elif self.classy(fr.fn.nodes[el['a']]):
                    if v != lv:
                        self.copyobj(s, lv, v)
                else:
                    s.mem[lv] = v
                    self.mon.event(self, Ev('store', fr, el, el['l'], lv=lv, val=v, init=True, fc=el.get('fc', ''), f=el['f']), s)
                outs.append(s)
            return outs
        return self.need(fr, el['a'], st)

    def classy(self, nd):
        """node is a class-type prvalue or glvalue of class type"""
        t = strip_cv(nd.get('t', ''))
        return self.class_type(t)

    _ct_cache = {}

    def class_type(self, t):
        r = self._ct_cache.get(t)
        if r is None:
            x = strip_cv(t)
            r = ('::' in x or x in self.prog.recs or '(lambda' in x) and not x.endswith('*') and '(*)' not in x and \
                not x.startswith('enum ') and x not in self.enums()
            if x.startswith('std::nullptr_t') or x.startswith('std::align_val_t') or x.startswith('std::memory_order') or x == 'std::byte':
                r = False
            self._ct_cache[t] = r
        return r

    _enums = None

    def enums(self):
        if Engine._enums is None:
            es = set()
            for f in self.prog.fns.values():
                for nd in f.nodes.values():
                    if nd['k'] == 'lit' and 'en' in nd:
                        es.add(strip_cv(nd['t']))
                    if nd['k'] == 'cast' and nd.get('ck') in ('IntegralCast', 'IntegralToBoolean') and nd['a'] in f.nodes:
                        t = strip_cv(f.nodes[nd['a']].get('t', ''))
                        if '::' in t:
                            es.add(t)
                        t = strip_cv(nd.get('t', ''))
                        if '::' in t:
                            es.add(t)
            Engine._enums = es
        return Engine._enums

    # ------------------------------------------------------------------ expression evaluation
    def need(self, fr, n, st):
        """make sure node n has a value in st (evaluates it when it is not a CFG element)"""
        if n in st.vals:
            nd = fr.fn.nodes[n]
            if nd['k'] == 'bin' and nd['op'] in ('&&', '||') and not self.is_el(fr.fn, n):
                return self.ev(fr, n, st)     # left over from an earlier round of a loop
            return [st]
        return self.ev(fr, n, st)

    def is_el(self, fn, n):
        s = getattr(fn, 'elset', None)
        if s is None:
            s = fn.elset = {e for b in fn.blocks.values() for e in b['els'] if isinstance(e, int)}
        return n in s

    def res(self, fr, n, st):
        return st.vals[n]

    def val(self, fr, n, st):
        """value of node n: taken from the path when it was an element, else evaluated on the fly (no side effects)"""
        if n in st.vals:
            nd = fr.fn.nodes[n]
            if not (nd['k'] == 'bin' and nd['op'] in ('&&', '||')):
                return st.vals[n]
        outs = self.ev(fr, n, st)
        for o in outs:
            if not isinstance(o, tuple):
                if o is not st:
                    st.mem, st.facts, st.rel, st.vals, st.mon = o.mem, o.facts, o.rel, o.vals, o.mon
                return st.vals[n]
        return UNDEF

    def ev(self, fr, n, st):
        fn = fr.fn
        nd = fn.nodes[n]
        k = nd['k']
        m = getattr(self, 'x_' + k, None)
        if 'cv' in nd and k not in ('call', 'decl', 'ret'):
            try:
                st.vals[n] = ('c', int(nd['cv']))
                return [st]
            except ValueError:
                pass
        if m is None:
            return self.x_other(fr, n, nd, st)
        return m(fr, n, nd, st)

    def operands(self, fr, ids, st):
        """evaluates on-demand operands; returns list of (state|throw)"""
        states = [st]
        for i in ids:
            nx = []
            for s in states:
                if isinstance(s, tuple):
                    nx.append(s)
                else:
                    nx += self.need(fr, i, s)
            states = nx
        return states

    def with_ops(self, fr, ids, st, f):
        outs = []
        for s in self.operands(fr, ids, st):
            if isinstance(s, tuple):
                outs.append(s)
            else:
                r = f(s)
                outs += r if isinstance(r, list) else [s]
        return outs

    def dest(self, fr, n, st):
        """object that a class prvalue node constructs into"""
        d = fr.fn.dest.get(n)
        if d is None:
            return ('t', fr.fid, n)
        if d[0] == 'var':
            return ('v', fr.fid, d[1], self._vname(fr.fn, d[1]))
        if d[0] == 'ret':
            return fr.ret if fr.ret is not None else ('t', fr.fid, n)
        if d[0] == 'new':
            nd = fr.fn.nodes[d[1]]
            if nd['pl']:
                p = st.vals.get(nd['pl'][-1])
                if p is None:
                    p = self.val(fr, nd['pl'][-1], st)
                return self.deref(p)
            return ('d', ('call', (fr.fid, d[1]), 'operator new'))
        if d[0] == 'tmp':
            return ('t', fr.fid, d[1])
        if d[0] == 'fld':
            return ('f', self.deref(fr.this), d[1])
        if d[0] == 'self':
            return self.deref(fr.this)
        return ('t', fr.fid, n)

    def fresh(self, fr, n, q, st):
        v = ('call', (fr.fid, n), q)
        self.renew(st, v)
        return v

    def renew(self, st, v):
        # only pay for the scan when the name is in use
        st.purge(v)

    def load(self, st, lv):
        v = st.mem.get(lv)
        if v is not None:
            return v
        r = root(lv)
        if r[0] in ('v', 't') and lv == r:
            return UNDEF
        # part of an object that has an opaque content
        p = lv
        while p[0] in ('f', 'e'):
            p = p[1]
            c = st.mem.get(p)
            if c is not None and c[0] in ('out', 'call', 'moved', 'prev', 'fldof', 'old'):
                v = ('fldof', c, lv[2] if lv[0] == 'f' else 'e')
                st.mem[lv] = v
                return v
            # part of a copied object that was untouched when it was copied
            if c is not None and c[0] == 'ld' and is_local(p) and c[1] != p and _is_lv(c[1]) and lv[0] == 'f':
                v = ('ld', _rebase(lv, p, c[1]), c[2])
                st.mem[lv] = v
                return v
        v = ('ld', lv, st.ver if not is_local(lv) else 0)
        st.mem[lv] = v
        return v

    def store(self, st, lv, v):
        self.drop(st, lv)
        st.mem[lv] = v

    # object copy: scalar box content and known fields
    def copyobj(self, st, dst, src, move=False, ty=None):
        if dst == src:
            return
        subs = [(k, v) for k, v in st.mem.items() if k != src and k[0] in ('f', 'e') and _under(k, src)]
        self.drop(st, dst)
        c = st.mem.get(src)
        if c is None and not subs:
            c = self.load(st, src)
            if c == UNDEF:
                c = ('ld', src, 0)
        if c is not None:
            st.mem[dst] = c
        for k, v in subs:
            st.mem[_rebase(k, src, dst)] = v
        rec = self.prog.recs.get(strip_cv(ty or ''))
        if rec:
            for f in rec['fields']:
                a = ('f', src, f['n'])
                if a not in st.mem and ('f', dst, f['n']) not in st.mem:
                    st.mem[('f', dst, f['n'])] = self.load(st, a)
        if move and boxy(ty) and not CORH.match(ty):
            st.mem[src] = C0

    def havoc(self, fr, st, site):
        """arbitrary code ran: everything that is not a local of ours may have changed"""
        st.ver = site
        esc = set()
        for k in list(st.mem):
            if not is_local(k):
                del st.mem[k]

    # ---- simple kinds
    def x_lit(self, fr, n, nd, st):
        v = nd['v']
        st.vals[n] = C0 if v == 'null' else ('c', int(v))
        return [st]

    def x_str(self, fr, n, nd, st):
        st.vals[n] = ('str', nd.get('v', ''))
        return [st]

    def x_this(self, fr, n, nd, st):
        st.vals[n] = fr.this if fr.this is not None else ('this',)
        return [st]

    def x_ref(self, fr, n, nd, st):
        d = nd['d']
        if d['kind'] in ('global', 'slocal'):
            lv = ('g', d.get('q', d['n']))
            st.vals[n] = lv
            return [st]
        vid = d['v']
        if fr.fn.lam and vid in fr.fn.capvars:
            st.vals[n] = self.capture(fr, vid, d, st)
            return [st]
        lv = self.varlv(fr, vid, st)
        if d['ty'].endswith('&'):
            lv = self.deref(self.load(st, lv))
        st.vals[n] = lv
        return [st]

    def capture(self, fr, vid, d, st):
        nm = d['n']
        if fr.lam is not None:
            for c in fr.lam:
                if c[0] == nm:
                    return c[1]
        return ('f', ('d', ('closure', fr.fn.id)), nm)

    def x_load(self, fr, n, nd, st):
        def f(s):
            lv = s.vals[nd['a']]
            if lv[0] in ('c', 'op', 'call', 'ld', 'p'):     # already a value
                s.vals[n] = lv
                return
            v = self.load(s, lv)
            a = fr.fn.nodes[nd['a']]
            self.mon.event(self, Ev('load', fr, nd, nd['l'], lv=lv, val=v, fc=a.get('fc', ''), f=a.get('f', '')), s)
            s.vals[n] = v
        return self.with_ops(fr, [nd['a']], st, f)

    def x_mem(self, fr, n, nd, st):
        def f(s):
            b = s.vals[nd['b']]
            lv = self.deref(b) if nd.get('arrow') else b
            lv = ('f', lv, nd['f'])
            self.mon.event(self, Ev('access', fr, nd, nd['l'], lv=lv, fc=nd['fc'], f=nd['f']), s)
            if nd.get('isref'):
                lv = self.deref(self.load(s, lv))
            s.vals[n] = lv
        return self.with_ops(fr, [nd['b']], st, f)

    def x_mref(self, fr, n, nd, st):
        st.vals[n] = ('mref', nd['fn']['id'])
        return [st]

    def x_fref(self, fr, n, nd, st):
        st.vals[n] = ('fn', nd['fn']['id'], nd['fn']['q'])
        return [st]

    def x_sizeof(self, fr, n, nd, st):
        st.vals[n] = ('c', int(nd['cv'])) if 'cv' in nd else ('call', (fr.fid, n), 'sizeof')
        return [st]

    def x_zero(self, fr, n, nd, st):
        if self.classy(nd):
            d = self.dest(fr, n, st)
            st.mem[d] = C0
            st.vals[n] = d
        else:
            st.vals[n] = C0
        return [st]

    def x_cast(self, fr, n, nd, st):
        def f(s):
            v = s.vals[nd['a']]
            ck = nd['ck']
            if ck in ('IntegralToBoolean', 'PointerToBoolean'):
                t = s.truth(v)
                s.vals[n] = (C1 if t else C0) if t is not None else (v if v[0] == 'op' and v[1] in ('==', '!=', '<', '!') else ('op', '!=', v, C0))
            elif ck == 'NullToPointer':
                s.vals[n] = C0
            elif ck == 'Dynamic':
                s.vals[n] = v if s.truth(v) is False else ('dyn', v, nd.get('t', ''))
            else:
                s.vals[n] = v
            if ck == 'IntegralCast' and strip_cv(nd.get('t', '')).startswith('unsigned') and \
                    strip_cv(fr.fn.nodes[nd['a']].get('t', '')).startswith('unsigned') is False and v[0] == 'c' and v[1] < 0:
                s.vals[n] = ('c', v[1] + (1 << (64 if 'long' in nd['t'] else 32)))
        return self.with_ops(fr, [nd['a']], st, f)

    def x_mat(self, fr, n, nd, st):
        def f(s):
            v = s.vals[nd['a']]
            a = fr.fn.nodes[nd['a']]
            if self.classy(a) and _is_lv(v):
                s.vals[n] = v
            else:
                lv = ('t', fr.fid, n)
                self.store(s, lv, v)
                s.vals[n] = lv
        return self.with_ops(fr, [nd['a']], st, f)

    def x_bindtmp(self, fr, n, nd, st):
        def f(s):
            s.vals[n] = s.vals[nd['a']]
            d = fr.fn.dest.get(n)
            if d is None or d[0] == 'tmp':
                s.vals[('bt', n)] = s.vals[n]
        return self.with_ops(fr, [nd['a']], st, f)

    def x_cond(self, fr, n, nd, st):
        sel = st.vals.get(('sel', n))
        arm = nd['a'] if sel == 0 else nd['b']
        if sel is None:
            st.vals[n] = ('call', (fr.fid, n), '?:')
            return [st]

        def f(s):
            s.vals[n] = s.vals[arm]
        return self.with_ops(fr, [arm], st, f)

    def x_un(self, fr, n, nd, st):
        def f(s):
            v = s.vals[nd['a']]
            op = nd['op']
            if op == '&':
                s.vals[n] = self.addr(v) if _is_lv(v) else v
            elif op == '*':
                s.vals[n] = self.deref(v)
            elif op == '!':
                t = s.truth(v)
                s.vals[n] = (C0 if t else C1) if t is not None else (v[2] if v[0] == 'op' and v[1] == '!' else ('op', '!', v))
            elif op in ('++', '--'):
                old = self.load(s, v)
                new = self.arith('+' if op == '++' else '-', old, C1, s, (fr.fid, n))
                raw = new
                if n in fr.fn.inloop:
                    new = self.widen(fr, n, op[0], old, s)
                self.store(s, v, new)
                a = fr.fn.nodes[nd['a']]
                self.mon.event(self, Ev('store', fr, nd, nd['l'], lv=v, val=new, old=old, raw=raw, fc=a.get('fc', ''), f=a.get('f', ''), op=op), s)
                s.vals[n] = old if nd.get('post') else v
            elif op == '-':
                s.vals[n] = ('c', -v[1]) if v[0] == 'c' else ('op', '-', C0, v)
            elif op == '+':
                s.vals[n] = v
            else:
                s.vals[n] = ('op', op, v)
        return self.with_ops(fr, [nd['a']], st, f)

    def arith(self, op, a, b, s, site):
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            try:
                r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x // y, '%': lambda: x % y,
                     '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y, '<<': lambda: x << y, '>>': lambda: x >> y}[op]()
                return ('c', r)
            except Exception:
                pass
        # (x + c1) - c2 and the like
        if op in '+-' and b[0] == 'c':
            if b[1] == 0:
                return a
            if a[0] == 'op' and a[1] in '+-' and len(a) == 4 and a[3][0] == 'c':
                c = (a[3][1] if a[1] == '+' else -a[3][1]) + (b[1] if op == '+' else -b[1])
                if c == 0:
                    return a[2]
                return ('op', '+', a[2], ('c', c)) if c > 0 else ('op', '-', a[2], ('c', -c))
        if op == '-' and a == b:
            return C0
        if op in '&|':
            if a[0] == 'c':
                a, b = b, a
            if b[0] == 'c':
                m = b[1]
                if op == '&' and m == 0:
                    return C0
                if op == '|' and m == 0:
                    return a
                if a[0] == 'op' and len(a) == 4 and a[3][0] == 'c' and a[1] in '&|':
                    m2 = a[3][1]
                    if op == '&' and a[1] == '&':
                        return self.arith('&', a[2], ('c', m & m2), s, site)
                    if op == '|' and a[1] == '|':
                        return ('op', '|', a[2], ('c', m | m2))
                    if op == '&' and a[1] == '|':
                        lowv = self.arith('&', a[2], ('c', m & ~m2), s, site)
                        return self.arith('|', lowv, ('c', m & m2), s, site)
        v = ('op', op, a, b)
        if depth(v) > (26 if op in "&|" else 14):
            return ('wide', site)
        return v

    def compare(self, op, a, b, s):
        if op == '==':
            v = ('op', '==', a, b)
        elif op == '!=':
            v = ('op', '!=', a, b)
        elif op == '<':
            v = ('op', '<', a, b)
        elif op == '>':
            v = ('op', '<', b, a)
        elif op == '<=':
            v = ('op', '!', ('op', '<', b, a))
        elif op == '>=':
            v = ('op', '!', ('op', '<', a, b))
        t = s.truth(v)
        if t is not None:
            return C1 if t else C0
        return v

    def shorted(self, fr, n, st):
        """the value of a && or || that was left early, else None"""
        nd = fr.fn.nodes[n]
        if nd['k'] != 'bin' or nd['op'] not in ('&&', '||'):
            return None
        # an inner operator on the left that is left early may leave this one, too
        t = self.shorted(fr, nd['a'], st)
        if t is not None:
            return t if t == (nd['op'] == '||') else None
        if st.vals.get(('sel', n)) == (1 if nd['op'] == '&&' else 0):
            return nd['op'] == '||'
        return None

    def x_bin(self, fr, n, nd, st):
        op = nd['op']
        if op in ('&&', '||'):
            t = self.shorted(fr, n, st)
            if t is not None:
                st.vals[n] = C1 if t else C0
                return [st]

            def g(s):
                s.vals[n] = s.vals[nd['b']]
            return self.with_ops(fr, [nd['b']], st, g)

        def f(s):
            a, b = s.vals[nd['a']], s.vals[nd['b']]
            an = fr.fn.nodes[nd['a']]
            if op == '=':
                old = self.load(s, a) if _is_lv(a) else UNDEF
                self.store(s, a, b)
                self.mon.event(self, Ev('store', fr, nd, nd['l'], lv=a, val=b, old=old, raw=b, fc=an.get('fc', ''), f=an.get('f', ''), op='='), s)
                s.vals[n] = a
            elif op.endswith('=') and op not in ('==', '!=', '<=', '>='):
                old = self.load(s, a)
                new = raw = self.arith(op[:-1], old, b, s, (fr.fid, n))
                if n in fr.fn.inloop and op in ('+=', '-=', '*=') and not self.mon.heads:
                    new = self.widen(fr, n, op[0], old, s)
                elif n in fr.fn.inloop and depth(new) > (14 if self.mon.heads else 6):
                    new = self.widen(fr, n, '?', old, s)
                self.store(s, a, new)
                self.mon.event(self, Ev('store', fr, nd, nd['l'], lv=a, val=new, old=old, raw=raw, fc=an.get('fc', ''), f=an.get('f', ''), op=op), s)
                s.vals[n] = a
            elif op == ',':
                s.vals[n] = b
            elif op in ('==', '!=', '<', '>', '<=', '>='):
                for x, y in ((nd['a'], a), (nd['b'], b)):
                    t = strip_cv(fr.fn.nodes[x].get('t', ''))
                    if t.startswith('unsigned') and y[0] not in ('c', 'a'):
                        lo, hi, ne = s.rng(y)
                        if lo is None:
                            s.set_rng(y, 0, hi, ne)
                s.vals[n] = self.compare(op, a, b, s)
            elif op in ('.*', '->*'):
                s.vals[n] = ('pm', a, b)
            else:
                v = self.arith(op, a, b, s, (fr.fid, n))
                if n in fr.fn.inloop and v[0] == 'c' and op in '+-*' and not -16 <= v[1] <= 16 and \
                        not ('cv' in an and 'cv' in fr.fn.nodes[nd['b']]):
                    v = self.widen(fr, n, '?', a, s)
                elif n in fr.fn.inloop and depth(v) > (14 if self.mon.heads else 6):
                    v = self.widen(fr, n, '?', a, s)
                s.vals[n] = v
        return self.with_ops(fr, [nd['a'], nd['b']], st, f)

    def widen(self, fr, n, op, old, s):
        lo, hi, ne = s.rng(old)
        v = ('iter', (fr.fid, n))
        self.renew(s, v)
        s.facts.pop(v, None)
        if op == '+' and lo is not None and lo >= 0:
            s.facts[v] = (1, None, frozenset())
        return v

    def x_sub(self, fr, n, nd, st):
        def f(s):
            a, b = s.vals[nd['a']], s.vals[nd['b']]
            base = a if _is_lv(a) else self.deref(a)
            s.vals[n] = ('e', base, b if b[0] == 'c' else ('c', '*'))
        return self.with_ops(fr, [nd['a'], nd['b']], st, f)

    def x_decl(self, fr, n, nd, st):
        states = [st]
        for d in nd['ds']:
            lv = ('v', fr.fid, d['v'], d['n'])
            if d['kind'] in ('slocal', 'global'):
                continue
            nx = []
            for s in states:
                if isinstance(s, tuple):
                    nx.append(s)
                    continue
                if 'init' not in d:
                    self.drop(s, lv)
                    s.mem[lv] = UNDEF
                    nx.append(s)
                    continue
                for q in self.need(fr, d['init'], s):
                    if isinstance(q, tuple):
                        nx.append(q)
                        continue
                    v = q.vals[d['init']]
                    if d.get('isref'):
                        q.mem[lv] = self.addr(v) if _is_lv(v) else v
                    elif v == lv:
                        pass
                    elif _is_lv(v) and self.classy(fr.fn.nodes[d['init']]):
                        if v != lv:
                            self.copyobj(q, lv, v)
                            q.vals[d['init']] = lv
                    else:
                        self.store(q, lv, v)
                    if d['v'] in fr.fn.dtors:
                        trys = tuple(nd.get('try', []))
                        q.con = tuple(c for c in q.con if c[0] != d['v']) + ((d['v'], lv, trys, _H(fr.fn.dtors[d['v']])),)
                    if self.mon.inits:
                        self.mon.event(self, Ev('init', fr, n, nd.get('l', 0), lv=lv, val=q.mem.get(lv)), q)
                    nx.append(q)
            states = nx
        return states

    def x_ret(self, fr, n, nd, st):
        if 'a' not in nd:
            st.retv = None
            return [st]

        def f(s):
            v = s.vals[nd['a']]
            if fr.fn.rt.endswith('&'):
                s.retv = v                      # an lvalue
            elif _is_lv(v) and self.classy(fr.fn.nodes[nd['a']]):
                if v != fr.ret:
                    self.copyobj(s, fr.ret, v)
                s.retv = fr.ret
            else:
                s.retv = v
            self.mon.event(self, Ev('return', fr, nd, nd['l'], val=s.retv), s)
        return self.with_ops(fr, [nd['a']], st, f)

    def x_coret(self, fr, n, nd, st):
        if 'a' not in nd:
            return [st]

        def f(s):
            self.mon.event(self, Ev('coreturn', fr, nd, nd['l'], val=s.vals[nd['a']]), s)
        return self.with_ops(fr, [nd['a']], st, f)

    def x_coawait(self, fr, n, nd, st):
        def f(s):
            self.mon.event(self, Ev('coawait', fr, nd, nd['l'], val=s.vals.get(nd.get('a')), nd=nd), s)
            self.havoc(fr, s, ('aw', fr.fid, n))
            s.vals[n] = self.fresh(fr, n, 'co_await', s)
            if self.classy(nd):
                d = self.dest(fr, n, s)
                s.mem[d] = s.vals[n]
                s.vals[n] = d
        return self.with_ops(fr, [nd['a']] if 'a' in nd else [], st, f)

    def x_lambda(self, fr, n, nd, st):
        ids = [c['init'] for c in nd['caps'] if 'init' in c]

        def f(s):
            caps = []
            this = None
            for c in nd['caps']:
                v = s.vals.get(c.get('init'))
                if c.get('this'):
                    this = v
                    continue
                if v is None:
                    continue
                caps.append((c['n'], v if _is_lv(v) else ('t', fr.fid, c['init'])))
                if not _is_lv(v):
                    s.mem[('t', fr.fid, c['init'])] = v
            d = self.dest(fr, n, s)
            s.mem[d] = ('lam', nd['fn']['id'], tuple(caps), this)
            s.vals[n] = d
        return self.with_ops(fr, ids, st, f)

    def x_throw(self, fr, n, nd, st):
        outs = []
        for s in self.operands(fr, [nd['a']] if 'a' in nd else [], st):
            if isinstance(s, tuple):
                outs.append(s)
            else:
                self.mon.event(self, Ev('throw', fr, nd, nd['l']), s)
                self.tr(s, fr, nd['l'], 'throw')
                outs.append(('throw', s, nd.get('try', [])))
        return outs

    def x_ilist(self, fr, n, nd, st):
        def f(s):
            if self.classy(nd) and len(nd['args']) == 1 and strip_cv(nd.get('t', '')) == strip_cv(fr.fn.nodes[nd['args'][0]].get('t', '')):
                d, v = self.dest(fr, n, s), s.vals[nd['args'][0]]      # T{prvalue of T}
                self.drop(s, d)
                if _is_lv(v):
                    self.copyobj(s, d, v)
                else:
                    s.mem[d] = v
                s.vals[n] = d
            elif self.classy(nd) or nd.get('fs'):
                d = self.dest(fr, n, s)
                self.drop(s, d)
                s.mem[d] = ('agg', (fr.fid, n))
                for fn_, a in zip(nd.get('fs', []), nd['args']):
                    v = s.vals[a]
                    if _is_lv(v) and self.classy(fr.fn.nodes[a]):
                        self.copyobj(s, ('f', d, fn_), v)
                    else:
                        s.mem[('f', d, fn_)] = self.addr(v) if _is_lv(v) else v
                s.vals[n] = d
            elif len(nd['args']) == 1:
                s.vals[n] = s.vals[nd['args'][0]]
            else:
                s.vals[n] = C0 if not nd['args'] else ('agg', (fr.fid, n))
        return self.with_ops(fr, nd['args'], st, f)

    def x_new(self, fr, n, nd, st):
        ids = list(nd['pl']) + ([nd['init']] if 'init' in nd else [])

        def f(s):
            if nd['pl']:
                p = s.vals[nd['pl'][-1]]
                if _is_lv(p):
                    p = self.addr(p)
                self.mon.event(self, Ev('placement', fr, nd, nd['l'], ptr=p, ty=nd['at'], sz=nd['sz']), s)
                s.vals[n] = p
            else:
                v = ('call', (fr.fid, n), 'operator new')
                if 'init' not in nd:
                    self.renew(s, v)
                s.facts[v] = (None, None, frozenset([0]))
                self.mon.event(self, Ev('new', fr, nd, nd['l'], ptr=v, ty=nd['at'], arr='asz' in nd), s)
                s.vals[n] = v
        return self.with_ops(fr, ids, st, f)

    def x_delete(self, fr, n, nd, st):
        def f(s):
            v = s.vals[nd['a']]
            self.mon.event(self, Ev('delete', fr, nd, nd['l'], ptr=v, ty=nd.get('dt', ''), arr=nd.get('arr', False)), s)
            s.vals[n] = C0
            # the CFGDeleteDtor element (when there is one) ran the destructor
        return self.with_ops(fr, [nd['a']], st, f)

    def x_atomic(self, fr, n, nd, st):
        st.vals[n] = self.fresh(fr, n, 'atomic', st)
        return [st]

    def x_asm(self, fr, n, nd, st):
        self.mon.event(self, Ev('asm', fr, nd, nd['l'], text=nd.get('v', '')), st)
        return [st]

    def x_catch(self, fr, n, nd, st):
        return [st]

    def x_forrange(self, fr, n, nd, st):
        return [st]

    def x_typeid(self, fr, n, nd, st):
        st.vals[n] = ('call', (fr.fid, n), 'typeid')
        return [st]

    def x_pdtor(self, fr, n, nd, st):
        return [st]

    def x_other(self, fr, n, nd, st):
        def f(s):
            s.vals[n] = ('call', (fr.fid, n), nd.get('cls', 'other'))
            if self.classy(nd):
                d = self.dest(fr, n, s)
                s.mem[d] = s.vals[n]
                s.vals[n] = d
        return self.with_ops(fr, [x for x in nd.get('args', []) if isinstance(x, int)], st, f)

    # ------------------------------------------------------------------ constructors and calls
    def x_ctor(self, fr, n, nd, st):
        def f(s):
            d = self.dest(fr, n, s)
            fnr = nd['fn']
            args = [s.vals[a] for a in nd['args']]
            ty = strip_cv(nd.get('t', ''))
            ck = fnr.get('ck')
            if nd.get('elid') and args and args[0] == d:
                s.vals[n] = d
                return
            newp = fr.fn.dest.get(n)
            if newp and newp[0] == 'new' and not fr.fn.nodes[newp[1]]['pl']:
                self.renew(s, ('call', (fr.fid, newp[1]), 'operator new'))
            self.mon.event(self, Ev('ctor', fr, nd, nd['l'], lv=d, fn=fnr, args=args, ty=ty, q=fnr['q']), s)
            g = self.prog.fns.get(fnr['id'])
            if g is not None and not self.stopped(g.q) and not fnr.get('triv') and not (g.dflt and ck in ('copy', 'move') and not g.blocks):
                outs = []
                for kind, val, q in self.inline(fr, g, d, args, s, n, None, nd['args']):
                    if kind == 'throw':
                        outs.append(('throw', q, nd.get('try', [])))
                    else:
                        q.vals[n] = d
                        outs.append(q)
                return outs
            if ck in ('copy', 'move') and args and _is_lv(args[0]):
                self.copyobj(s, d, args[0], move=(ck == 'move'), ty=ty)
            elif fnr['n'].endswith('const_iterator') and len(args) == 1 and _is_lv(args[0]):
                self.drop(s, d)
                s.mem[d] = self.load(s, args[0])
            elif boxy(ty) or fnr['n'] in ('coroutine_handle', 'exception_ptr'):
                self.drop(s, d)
                if not args:
                    s.mem[d] = C0
                else:
                    a = args[0]
                    if _is_lv(a) and self.classy(fr.fn.nodes[nd['args'][0]]):
                        at = strip_cv(fr.fn.nodes[nd['args'][0]].get('t', ''))
                        c = self.load(s, a)
                        s.mem[d] = c
                        if boxy(at) and fr.fn.nodes[nd['args'][0]].get('lv') == 2 and not CORH.match(at):
                            s.mem[a] = C0
                    elif _is_lv(a):
                        s.mem[d] = self.load(s, a)
                    else:
                        s.mem[d] = a
            else:
                self.drop(s, d)
                if not args and not fnr.get('triv'):
                    s.mem[d] = ('empty', ty.split('<')[0])
                elif not args:
                    s.mem[d] = UNDEF
                else:
                    s.mem[d] = self.fresh(fr, n, fnr['q'], s)
                for a, pt in zip(args, fnr['pt']):
                    if _is_lv(a) and pt.endswith('&&') and not is_const_ref(pt):
                        s.mem[a] = ('moved', (fr.fid, n)) if not boxy(pt.rstrip('&')) else C0
                if not fnr.get('ne') and not fnr.get('triv') and self.mon.throws:
                    pass
            s.vals[n] = d
        return self.with_ops(fr, nd['args'], st, f)

    def inline(self, fr, g, objlv, args, st, site, ret, argnodes=None):
        """executes g with the given arguments; returns [(kind, value, state)]"""
        self.inlined.add(g.id)
        self.prep(g)
        this = self.addr(objlv) if objlv is not None else None
        f2 = Frame(g, self.fid(fr.fid, (site, g.id)), this, fr, site, ret)
        if ret is None:
            f2.ret = ('t', f2.fid, 'ret')
        # bindings
        for i, p in enumerate(g.params):
            lv = ('v', f2.fid, p['v'], p['n'])
            v = args[i] if i < len(args) else UNDEF
            if p.get('isref'):
                st.mem[lv] = self.addr(v) if _is_lv(v) else v
                if not _is_lv(v):
                    # scalar bound to a reference: materialise
                    t = ('t', f2.fid, 'arg%d' % i)
                    st.mem[t] = v
                    st.mem[lv] = ('a', t)
            elif _is_lv(v) and self.class_type(strip_cv(p['ty'])):
                f2.alias[p['v']] = v
            else:
                st.mem[lv] = v
        self.mon.event(self, Ev('enter', fr, None, fr.fn.nodes[site]['l'] if isinstance(site, int) and site in fr.fn.nodes else fr.fn.line,
                                fn=g, obj=objlv, args=args, frame=f2), st)
        outs = self.exec_fn(f2, st)
        res = []
        for kind, val, s in outs:
            self.mon.event(self, Ev('leave', f2, None, g.endline, fn=g, obj=objlv, val=val, kind=kind, frame=f2), s)
            res.append((kind, val, s))
        return res

    def on_stack(self, fr, fid):
        return sum(1 for x in fr.stack() if x.fn.id == fid)

    def resolve_virtual(self, fnr, nd, objlv):
        """function to inline for a (possibly virtual) call, or None"""
        g = self.prog.fns.get(fnr['id'])
        if not fnr.get('virt') or nd.get('qual'):
            return g
        ov = self.prog.overriders.get(fnr['id'], set())
        if g is not None and not ov:
            return g
        if g is None and len(ov) == 1 and False:
            return None
        # receiver is `this` of the analysed function: use that class's final overrider
        if root(objlv) == ('d', ('this',)) and objlv == ('d', ('this',)) and self.top is not None:
            cand = [self.prog.fns[o] for o in ov if self.prog.fns[o].cls == self.top.cls]
            if g is not None and g.cls == self.top.cls:
                return g
            if len(cand) == 1:
                return cand[0]
        return None

    def x_call(self, fr, n, nd, st):
        ids = ([nd['obj']] if 'obj' in nd else []) + list(nd['args']) + ([nd['ce']] if 'ce' in nd else [])
        return self.with_ops(fr, ids, st, lambda s: self.call(fr, n, nd, s))

    def call(self, fr, n, nd, s):
        import models
        fnr = nd.get('fn')
        obj = None
        if 'obj' in nd:
            o = s.vals[nd['obj']]
            on = fr.fn.nodes[nd['obj']]
            obj = self.deref(o) if (nd.get('arrow') or on.get('t', '').endswith('*')) and not (_is_lv(o) and on.get('lv')) else o
            if not _is_lv(obj):
                obj = ('d', obj)
        args = [s.vals[a] for a in nd['args']]
        q = fnr['q'] if fnr else '<indirect>'
        # closure call
        if fnr is not None and obj is not None and fnr['n'] == 'operator()':
            lam = s.mem.get(obj)
            if lam is not None and lam[0] == 'lam' and lam[1] in self.prog.fns:
                return self.call_lambda(fr, n, nd, s, lam, args)
        if fnr is None:
            ce = s.vals.get(nd.get('ce'))
            if ce is not None and ce[0] == 'fn' and ce[1] in self.prog.fns:
                fnr = None
                g = self.prog.fns[ce[1]]
                return self.finish_inline(fr, n, nd, g, None, args, s)
        oc = self.mon.opaque_call(q, obj) if fnr is not None else False
        stop = fnr is not None and (self.stopped(q) or oc is True or fnr.get('id') in self.mon.stop_ids)
        ev = Ev('call', fr, nd, nd['l'], q=q, fn=fnr, obj=obj, args=args, nid=n, stop=stop,
                cls=(fnr or {}).get('cls', ''), callee=s.vals.get(nd.get('ce')))
        if not stop:
            r = models.model(self, fr, n, nd, s, fnr, q, obj, args, ev)
            if r is not None:
                return r
            g = self.resolve_virtual(fnr, nd, obj) if fnr and not oc else None
            if fnr and fnr['n'] == 'operator=' and len(args) == 1 and '(anonymous union' in (fnr.get('cls') or '') and obj is not None and _is_lv(args[0]):
                self.copyobj(s, obj, args[0])
                s.vals[n] = obj
                return [s]
            if g is not None and g.blocks and not g.coro and not self.stopped(g.q) and g.id not in self.mon.stop_ids and fr.depth < self.mon.inline_depth and self.on_stack(fr, g.id) < 1:
                return self.finish_inline(fr, n, nd, g, obj, args, s)
        return models.opaque(self, fr, n, nd, s, fnr, q, obj, args, ev)

    def call_lambda(self, fr, n, nd, s, lam, args):
        g = self.prog.fns[lam[1]]
        self.prep(g)
        f2 = Frame(g, self.fid(fr.fid, (n, g.id)), lam[3], fr, n, self.dest(fr, n, s))
        f2.lam = lam[2]
        for i, p in enumerate(g.params):
            lv = ('v', f2.fid, p['v'], p['n'])
            v = args[i] if i < len(args) else UNDEF
            if p.get('isref'):
                s.mem[lv] = self.addr(v) if _is_lv(v) else v
            elif _is_lv(v) and self.class_type(strip_cv(p['ty'])):
                f2.alias[p['v']] = v
            else:
                s.mem[lv] = v
        outs = []
        for kind, val, q in self.exec_fn(f2, s):
            if kind == 'throw':
                outs.append(('throw', q, nd.get('try', [])))
            else:
                q.vals[n] = val if val is not None else UNDEF
                outs.append(q)
        return outs

    def finish_inline(self, fr, n, nd, g, obj, args, s):
        outs = []
        ret = self.dest(fr, n, s)
        for kind, val, q in self.inline(fr, g, obj, args, s, n, ret):
            if kind == 'throw':
                outs.append(('throw', q, nd.get('try', [])))
                continue
            if val is None:
                val = UNDEF
            q.vals[n] = val
            outs.append(q)
        return outs


class _H(dict):
    """hashable dict wrapper (identity of content)"""
    def __hash__(self):
        return hash((self.get('v'), self.get('l')))

    def __eq__(self, o):
        return self is o or (self.get('v') == o.get('v') and self.get('l') == o.get('l'))


def _heads(fn):
    """targets of back edges"""
    heads, state = set(), {}
    work = [(fn.entry, iter([x for x in fn.blocks[fn.entry]['s'] if x >= 0]))]
    state[fn.entry] = 1
    while work:
        v, it = work[-1]
        for w in it:
            if state.get(w) == 1:
                heads.add(w)
            elif w not in state:
                state[w] = 1
                work.append((w, iter([x for x in fn.blocks[w]['s'] if x >= 0])))
                break
        else:
            state[v] = 2
            work.pop()
    return heads


def _sccs(fn):
    """blocks that lie on a cycle"""
    idx = {}
    low = {}
    onst = set()
    stk = []
    out = set()
    cnt = [0]
    for r in fn.blocks:
        if r in idx:
            continue
        work = [(r, iter([x for x in fn.blocks[r]['s'] if x >= 0]))]
        idx[r] = low[r] = cnt[0]
        cnt[0] += 1
        stk.append(r)
        onst.add(r)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = cnt[0]
                    cnt[0] += 1
                    stk.append(w)
                    onst.add(w)
                    work.append((w, iter([x for x in fn.blocks[w]['s'] if x >= 0])))
                    adv = True
                    break
                elif w in onst:
                    low[v] = min(low[v], idx[w])
            if adv:
                continue
            work.pop()
            if work:
                u = work[-1][0]
                low[u] = min(low[u], low[v])
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = stk.pop()
                    onst.discard(w)
                    comp.append(w)
                    if w == v:
                        break
                if len(comp) > 1 or v in fn.blocks[v]['s']:
                    out.update(comp)
    return out


def is_const_ref(t):
    return t.startswith('const ') or ' const &' in t or '*const &' in t


CORH = re.compile(r'(const )?std::(\w+::)?coroutine_handle\b')


def _is_lv(v):
    return v[0] in ('v', 't', 'g', 'd', 'f', 'e', 'r')


is_lv = _is_lv


def _under(k, lv):
    while k[0] in ('f', 'e'):
        k = k[1]
        if k == lv:
            return True
    return False


under = _under


def _rebase(k, src, dst):
    if k == src:
        return dst
    return (k[0], _rebase(k[1], src, dst)) + k[2:]
