"""C11-C14: the task manager (task table, timers, bindings, clock)."""
import re
from engine import Monitor, Engine, C0, C1, UNDEF, is_lv, is_local, root, show, contains
from facts import Broken
from .common import Rec, THIS, cval, lin, ladd, leq

TASKOPS = (r'cotask::task::(start|resume|cancel|kill|yield|next|then|await_task|get_status|is_exiting|is_completed|is_canceled|is_timeout|is_faulted)',
           r'cotask::impl::task_impl::(?!get_id|task_impl|~task_impl).*', r'cotask::task_future(_base)?::(start|kill|resume|cancel|get_status|is_exiting|is_completed)',
           r'.*task_manager_helper::.*')
KEEPS = r'.*::(cleanup_task_manager|setup_task_manager|get_status|is_exiting|is_completed|get_id|start|kill|cancel|resume)'
ACT = re.compile(r'cotask::(?:task|impl::task_impl|task_future|task_future_base)::(start|resume|cancel|kill)')
QUERY = re.compile(r'cotask::(?:task|impl::task_impl|task_future|task_future_base)::(get_status|is_exiting|is_completed)')
DBG = 0
MANY = ('c', 'many')
GROW = ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'push', 'insert', 'emplace', 'emplace_hint')
LOOK = ('find', 'end', 'begin', 'empty', 'size', 'count', 'cbegin', 'cend', 'contains', 'operator*', 'operator->')
FREE = ('end', 'cend')


class Shape:
    """the fields of one manager class, by what they are"""

    def __init__(self, p, cls, me=THIS):
        self.cls = cls
        self.p = p
        self.me = me[1]
        fs = p.recs[cls]['fields']
        self.kind = {}

        def one(pred, what):
            r = [f for f in fs if pred(f['ty'])]
            if len(r) != 1:
                raise Broken('%s: %d fields are the %s' % (cls[:60], len(r), what))
            lv = ('f', me, r[0]['n'])
            self.kind[lv] = r[0]['ty'].split('<')[0]
            return lv
        self.table = one(lambda t: re.match(r'std::(unordered_)?map<', t), 'task table')
        self.timers = one(lambda t: re.match(r'std::(multi)?set<cotask::detail::task_timer_node', t), 'timer set')
        self.lock = one(lambda t: 'spin_lock' in t, 'lock')
        self.last = one(lambda t: t.endswith('tickspec_t'), 'last tick time')
        self.flags = one(lambda t: t in ('int', 'unsigned int', 'unsigned long', 'long', 'unsigned char'), 'flag word')
        node = [c for c in p.recs if c.startswith('cotask::detail::task_manager_node<') and cls[len('cotask::task_manager<'):-1] in c]
        if len(node) != 1:
            raise Broken('no table node type of %s' % cls[:60])
        nf = p.recs[node[0]]['fields']
        self.ntask = [f['n'] for f in nf if 'iterator' not in f['ty']][0]
        self.ntimer = [f['n'] for f in nf if 'iterator' in f['ty']][0]
        self.stackful = 'cotask::task<' in cls
        self.K = p.consts
        self.RESET = p.consts['EN_TM_IN_RESET'] if self.stackful else p.consts['kTimerReset']
        self.TICK = p.consts['EN_TM_IN_TICK'] if self.stackful else p.consts['kTimerTick']
        pre = 'EN_TS_%s' if self.stackful else None
        self.KILLED = p.consts['EN_TS_KILLED' if pre else 'kKilled']
        self.TIMEOUT = p.consts['EN_TS_TIMEOUT' if pre else 'kTimeout']
        self.DONE = p.consts['EN_TS_DONE' if pre else 'kDone']
        self.binds = any(f.n == 'task_cleanup_callback' and f.cls == cls for f in p.fns.values())
        self.CREATED = p.consts['EN_TS_CREATED' if pre else 'kCreated']

    def holds(self, v, what):
        """does the value v stem from the given container"""
        return contains(v, what)


def classes(p):
    r = [c for c in p.recs if re.match(r'cotask::task_manager<.*>$', c) and p.recs[c]['fields'] and any('spin_lock' in f['ty'] for f in p.recs[c]['fields'])]
    return [Shape(p, c) for c in sorted(r)]


def methods(p, sh, names=None, pub=True):
    r = []
    for f in p.fns.values():
        if f.cls == sh.cls and f.blocks and (names is None or f.n in names):
            r.append(f)
    return sorted(r, key=lambda f: (f.n, f.line, len(f.params)))


def bitset(v, bit, st, depth=0):
    """is the bit of the flag word v set: True / False / None"""
    if v[0] == 'c':
        return bool(v[1] & bit)
    if v[0] == 'op' and len(v) == 4:
        a, b = v[2], v[3]
        if v[1] in '|&':
            x, y = bitset(a, bit, st, depth + 1), bitset(b, bit, st, depth + 1)
            if v[1] == '|':
                return True if x or y else (False if x is False and y is False else None)
            return False if x is False or y is False else (True if x and y else None)
        if v[1] == '^':
            x, y = bitset(a, bit, st, depth + 1), bitset(b, bit, st, depth + 1)
            return None if x is None or y is None else x != y
    if v[0] == 'op' and len(v) == 3 and v[1] == '~':
        x = bitset(v[2], bit, st)
        return None if x is None else not x
    for k in (('op', '&', v, ('c', bit)), ('op', '&', ('c', bit), v)):
        t = st.truth(k)
        if t is not None:
            return t
    if st.truth(v) is False:
        return False
    return None


class Mgr(Monitor):
    """one operation of the manager: lock discipline, the links between table and timers, and the fate of removed tasks"""
    heads = True
    stop = TASKOPS
    stop_keeps = KEEPS

    def __init__(self, sh, only=''):
        super().__init__()
        self.sh = sh
        self.only = only
        self.data = dict(erase=0, tins=0, terase=0, minsert=0, clear=0, relink=0, unbind=0, act=[], locked=0, ends=[])

    def init(self, eng, st, fr):
        sh = self.sh
        self.flag0 = eng.load(st, sh.flags)
        self.last0 = [eng.load(st, ('f', sh.last, x)) for x in ('tv_sec', 'tv_nsec')]
        self.now = None
        self.op = eng.top.n
        if self.op == '~task_manager':
            self.op = 'reset'
        if self.op == 'tick':
            self.now = [('p', i, x['n']) for i, x in enumerate(eng.top.params)][:2]
        self.plain = self.op not in ('tick', 'reset')
        return ()

    # ---------------------------------------------------------------- effects
    def bit(self, v, bit):
        """the bit of the flag word v: True / False / 'same' as at entry / None"""
        if v == self.flag0:
            return 'same'
        if v[0] == 'c':
            return bool(v[1] & bit)
        if v[0] == 'op' and len(v) == 4 and v[1] in '|&':
            x, y = self.bit(v[2], bit), self.bit(v[3], bit)
            if v[1] == '|':
                return True if True in (x, y) else (y if x is False else (x if y is False else ('same' if x == y == 'same' else None)))
            return False if False in (x, y) else (y if x is True else (x if y is True else ('same' if x == y == 'same' else None)))
        if v[0] == 'op' and len(v) == 3 and v[1] == '~':
            x = self.bit(v[2], bit)
            return (not x) if x in (True, False) else None
        return None

    def effect(self, eng, ev, st, kind, val=None):
        """the operation changes something"""
        sh = self.sh
        if eng.top.fk in ('ctor',) or eng.top.acc and eng.top.n != 'task_cleanup_callback':
            return
        if self.plain and kind in ('erase', 'minsert', 'act', 'bind', 'last', 'tset'):
            self.add(st, 'fx', kind, val)
        if eng.top.fk == 'dtor':
            return
        if bitset(self.flag0, sh.RESET, st) is not False:
            self.bad(eng, ev, st, 'C13.refuse', 'the operation takes effect without looking whether the manager is being reset (%s)' % kind)
        if self.op == 'tick':
            if bitset(self.flag0, sh.TICK, st) is not False:
                self.bad(eng, ev, st, 'C13.refuse', 'tick takes effect inside of another tick (%s)' % kind)
            self.later(eng, ev, st, kind)

    def lt(self, st, a, b):
        return st.cmp('<', a, b) is True or st.cmp('<', b, a) is False and st.cmp('==', a, b) is False

    def le(self, st, a, b):
        return st.cmp('<', b, a) is False or st.cmp('<', a, b) is True or st.cmp('==', a, b) is True

    def lexless(self, st, a, b):
        """is (sec, nsec) a known to be before b"""
        return self.lt(st, a[0], b[0]) or self.le(st, a[0], b[0]) and self.lt(st, a[1], b[1])

    def lexle(self, st, a, b):
        """is a known to be not after b"""
        return self.lt(st, a[0], b[0]) or self.le(st, a[0], b[0]) and self.le(st, a[1], b[1])

    def first(self, eng, st, v):
        """the expiry times of first timers that the value v depends on"""
        out = []

        def walk(x):
            if x.__class__ is not tuple:
                return
            if len(x) == 2 and x[0] == 'd' and x[1].__class__ is tuple and x[1][0] == 'elemof' and x[1][1][0] == 'pure' and x[1][1][1] in ('begin', 'cbegin') \
                    and self.stem(x[1][1][2], self.sh.timers):
                if x not in out:
                    out.append(x)
                return
            for y in x:
                walk(y)
        walk(v)
        return out

    def expiry(self, eng, st, node):
        return [eng.load(st, self.sub(node, ('expired_time', x))) for x in ('tv_sec', 'tv_nsec')]

    def due(self, eng, ev, st, I):
        """tick takes the element *I out of the table"""
        key = I[-1] if I[0] == 'pure' and I[1] == 'find' else None
        ns = self.first(eng, st, key) if key is not None else []
        if not ns or eng.load(st, ('f', ns[0], 'task_id')) != key:
            if DBG:
                print('DUE', key, ns, eng.load(st, ('f', ns[0], 'task_id')) if ns else '')
            self.bad(eng, ev, st, 'C14.due', 'tick ends a task that is not the one of the first timer')
        elif not self.lexless(st, self.expiry(eng, st, ns[0]), self.now):
            if DBG:
                print('EXP', self.expiry(eng, st, ns[0]), [(k,v) for k,v in list(st.rel.items())+list(st.facts.items()) if 'tv_sec' in str(k)])
            self.bad(eng, ev, st, 'C14.due', 'tick ends a task that may not have expired')
        else:
            self.data['due'] = self.data.get('due', 0) + 1

    def drained(self, eng, st, v, w):
        """does the branch show that no timer is due any more"""
        if v[0] == 'pure' and v[1] == 'empty' and self.stem(v[2], self.sh.timers):
            return w
        if v[0] == 'op' and len(v) == 4 and v[1] == '==' and w:
            k = {x[1] for x in v[2:] if x[0] == 'pure' and self.stem(x[2], self.sh.timers)}
            if k & {'begin', 'cbegin'} and k & {'end', 'cend'} or 'size' in k and C0 in v[2:]:
                return True
        return any(self.lexle(st, self.now, self.expiry(eng, st, n)) for n in self.first(eng, st, v))

    def later(self, eng, ev, st, kind):
        if not self.has(st, 'later') and not self.lexless(st, self.last0, self.now):
            self.bad(eng, ev, st, 'C14.clock', 'tick takes effect although the time may not have moved on (%s)' % kind)

    # facts on the path: ('held',) ('out', V) ('unbound', V) ('acted', V) ('query', V, val) ('dang', I) ('pend', X) ('swap',) ('mclr',) ('tclr',)
    def has(self, st, *f):
        return f in st.mon

    def add(self, st, *f):
        if f not in st.mon:
            if len([x for x in st.mon if x[0] == f[0]]) >= 4:
                # many of a kind (a loop): stand for all of them
                f = (f[0],) + tuple(MANY for x in f[1:])
                if f in st.mon:
                    return
            st.mon = tuple(sorted(st.mon + (f,), key=repr))

    def rm(self, st, pred):
        st.mon = tuple(x for x in st.mon if not pred(x))

    def all(self, st, k):
        return [x for x in st.mon if x[0] == k]

    def report(self, eng, key, msg, ev, st, *a):
        if key.startswith(self.only):
            super().report(eng, key, msg, ev, st, *a)

    def bad(self, eng, ev, st, rule, msg):
        self.report(eng, rule, msg, ev, st)

    def elem(self, lv):
        """the position I when lv lies in the table element *I, else None"""
        r = root(lv)
        if r[0] == 'd' and r[1][0] == 'elemof' and self.sh.ntask in self.path(lv) + self.path(lv):
            return r[1][1]
        if r[0] == 'd' and r[1][0] == 'elemof' and self.sh.ntimer in self.path(lv):
            return r[1][1]
        return None

    def path(self, lv):
        p = []
        while lv[0] == 'f':
            p.append(lv[2])
            lv = lv[1]
        return p

    def node(self, I, f):
        return ('f', ('f', ('d', ('elemof', I)), 'second'), f)

    def isend(self, eng, st, v):
        """is the position v known to be the end of the timers"""
        if v[0] == 'pure' and v[1] == 'end':
            return True
        for k, w in st.rel.items():
            if k[0] == '==' and v in k[1:]:
                o = k[1] if k[2] == v else k[2]
                if o[0] == 'pure' and o[1] == 'end':
                    return w
        return None

    def tval(self, eng, st, I):
        """the task value the element holds now, and the one a local keeps of it"""
        lv = self.node(I, self.sh.ntask)
        kept = []
        for k, v in st.mem.items():
            if is_local(k) and v.__class__ is tuple and len(v) == 3 and v[0] == 'ld' and v[1].__class__ is tuple and self.under(v[1], lv):
                kept.append(v)
        return kept

    def under(self, lv, base):
        while True:
            if lv == base:
                return True
            if lv[0] != 'f':
                return False
            lv = lv[1]

    def argv(self, eng, st, a):
        return eng.load(st, a) if is_lv(a) else a

    def mine(self, v):
        return v[0] != 'pure' or True

    # ---------------------------------------------------------------- events
    def event(self, eng, ev, st):
        k, sh = ev.k, self.sh
        if k in ('lock', 'unlock') and ev.lv == sh.lock:
            if k == 'lock':
                self.data['locked'] += 1
                if self.op == 'task_cleanup_callback' and st.truth(sh.me) is not True:
                    self.bad(eng, ev, st, 'C12.code', 'the callback works on a manager that may not be there')
                self.rm(st, lambda x: x == ('drained',))
                if self.op == 'tick':
                    self.add(st, 'worked')
                self.add(st, 'held')
            else:
                self.leave(eng, ev, st)
                self.rm(st, lambda x: x[0] in ('held',))
            return
        if k == 'call' and ev.obj is not None and ev.obj in (sh.table, sh.timers):
            self.container(eng, ev, st)
            return
        if k in ('load', 'store') and ev.lv is not None:
            I = self.elem(ev.lv)
            if I is not None and (contains(I, sh.table) ):
                if not self.has(st, 'held'):
                    self.bad(eng, ev, st, 'C11.lock', 'an entry of the task table is used without the lock')
            if k == 'store' and I is not None and sh.ntimer in self.path(ev.lv):
                fresh = any(contains(I, x[1]) for x in self.all(st, 'ins'))
                if not self.has(st, 'swap') and not self.has(st, 'dang', I) and not self.has(st, 'ended', I) and not fresh and self.isend(eng, st, ev.val) is not True and \
                        ev.d.get('old') is not None and self.isend(eng, st, ev.old) is not True and ev.old != ev.val:
                    self.bad(eng, ev, st, 'C11.link', 'a task gets a new timer while its old one stays')
                self.rm(st, lambda x: x in (('dang', I), ('ended', I)))
                self.linked(eng, ev, st, I, ev.val)
            if k == 'store' and self.under(ev.lv, sh.last) and self.op != 'task_manager':
                self.effect(eng, ev, st, 'last')
                if self.op == 'tick':
                    self.settime(eng, ev, st)
                elif self.op == 'reset' and ev.val == C0 and ev.lv[0] == 'f':
                    self.add(st, 'clock', ev.lv[2])
                if self.op not in ('tick', 'reset'):
                    self.bad(eng, ev, st, 'C14.clock', 'the time of the manager is changed outside of tick')
            if k == 'store' and ev.lv == sh.timers and ev.d.get('op') in ('swap', '='):
                self.effect(eng, ev, st, 'timers')
                self.add(st, 'swapped')
                if self.all(st, 'fresh'):
                    self.bad(eng, ev, st, 'C14.first', 'the first tick drops a timer')
                if self.op == 'tick' and not self.all(st, 'copied'):
                    self.bad(eng, ev, st, 'C14.first', 'the timers are replaced without going through all of them')
            if k == 'store' and ev.lv == sh.timers and ev.d.get('op') == 'swap':
                if not self.has(st, 'held'):
                    self.bad(eng, ev, st, 'C11.lock', 'the timers are replaced without the lock')
                self.add(st, 'swap')
            if k == 'store' and ev.lv == sh.timers and ev.d.get('op') == '=':
                self.add(st, 'swap')
            if k == 'store' and ev.lv == sh.table and eng.top.fk is None:
                self.add(st, 'mclr')
            return
        if k == 'call' and ev.obj is not None and is_local(ev.obj) and ev.q.split('::')[-1] in GROW:
            self.grow(eng, ev, st)
        if k == 'called':
            self.called(eng, ev, st)
            return
        if k == 'dtor' and is_local(ev.lv):
            for x in self.all(st, 'out'):
                mine = [y for y, v in st.mem.items() if v == x[1] and is_local(y)]
                if mine and all(self.under(y, ev.lv) for y in mine):
                    self.unresolved(eng, ev, st)
                    self.rm(st, lambda y: y[0] in ('out', 'unbound', 'acted', 'query', 'excused'))
            return
        if k == 'branch':
            if ev.val is not None:
                v, w = ev.val, ev.want
                while v[0] == 'op' and v[1] == '!':
                    v, w = v[2], not w
                self.iterate(eng, ev, st, v, w)
                if self.plain and v[0] == 'op' and len(v) == 4 and v[1] in ('==', '!=') and w == (v[1] == '=='):
                    for a, b in ((v[2], v[3]), (v[3], v[2])):
                        if a[0] == 'ld' and is_lv(a[1]) and sh.ntimer in self.path(a[1]) and b[0] == 'pure' and b[1] == 'end' and self.elem(a[1]) is not None:
                            self.add(st, 'ended', self.elem(a[1]))
                y = v
                if y[0] == 'op' and len(y) == 4 and y[1] in ('==', '!=') and C0 in y[2:]:
                    y = y[2] if y[3] == C0 else y[3]
                if y[0] == 'fldof' and y[2] == 'second' and st.truth(y) is False and any(contains(y, z[1]) for z in self.all(st, 'ins')):
                    self.add(st, 'notin')
                if self.plain and y[0] == 'ld' and is_lv(y[1]) and self.sh.ntask in self.path(y[1]) and st.truth(y) is False:
                    self.add(st, 'nulltask')
                if self.op == 'tick' and not self.has(st, 'later') and self.lexless(st, self.last0, self.now):
                    self.add(st, 'later')
                if self.op == 'tick' and self.has(st, 'held') and self.drained(eng, st, v, w):
                    self.add(st, 'drained')
                for x in self.all(st, 'todo'):
                    y = v[2] if v[0] == 'op' and len(v) == 4 and v[1] in ('==', '!=') and v[3] == C0 else v
                    if y[0] == 'ld' and contains(y, x[1]) and st.truth(y) is False:
                        self.add(st, 'tn')
                self.excuse(eng, st)
                for x in self.all(st, 'relink'):
                    if self.notfound(st, x[1]):
                        self.rm(st, lambda y: y == x)
                for x in self.all(st, 'out'):
                    if st.truth(x[1]) is False:
                        self.rm(st, lambda y: y[0] in ('out', 'unbound', 'acted', 'query', 'excused'))
                lv = v[3] if v[0] == 'op' and v[1] == '==' and v[2] == C0 else (v[2] if v[0] == 'op' and v[1] == '==' and v[3] == C0 else None)
                x = lv if lv is not None else v
                if x[0] == 'ld' and is_lv(x[1]) and w == (lv is not None) and self.sh.ntask in self.path(x[1]) and self.elem(x[1]) is not None:
                    self.add(st, 'null', self.elem(x[1]))
                if not w:
                    self.rm(st, lambda x: x[0] == 'pend' and (contains(v, x[1])))

    def stem(self, v, what):
        """is the container state v one of the member container"""
        while v[0] == 'prev':
            v = v[1]
        if v[0] == 'call' and len(v) == 3 and v[2].endswith('#state'):
            return v[2].rsplit('::', 1)[0] == self.sh.kind[what]
        return contains(v, what)

    def iterate(self, eng, ev, st, v, w):
        sh = self.sh
        if v[0] != 'op' or len(v) != 4:
            return
        if v[1] in ('==', '!='):
            w = w if v[1] == '==' else not w
            a, b = v[2], v[3]
            if a[0] == 'pure' and a[1] in ('end', 'cend') and not (b[0] == 'pure' and b[1] in ('end', 'cend')):
                a, b = b, a
            if not (b[0] == 'pure' and b[1] in ('end', 'cend')) or a[0] == 'pure' and a[1] == 'find' or a[0] == 'ld':
                return
            I, X = a, b[2]
        elif v[1] == '<' and v[3][0] == 'pure' and v[3][1] == 'size':
            I, X, w = v[2], v[3][2], not w
        else:
            return
        if self.stem(X, sh.table):
            if self.op != 'reset':
                return
            for x in self.all(st, 'seen'):
                self.bad(eng, ev, st, 'C12.fate', 'a task of the table is passed over')
            self.rm(st, lambda x: x[0] == 'seen')
            self.add(st, 'walked') if w else self.add(st, 'seen', I)
        elif self.stem(X, sh.timers):
            if self.op != 'tick' or self.has(st, 'swap'):
                return
            for x in self.all(st, 'fresh'):
                self.bad(eng, ev, st, 'C14.first', 'the first tick drops a timer')
            self.rm(st, lambda x: x[0] == 'fresh')
            self.add(st, 'copied') if w else self.add(st, 'fresh', I)
        elif self.op == 'reset':
            self.todo(eng, ev, st)
            self.add(st, 'swept') if w else self.add(st, 'todo', I)

    def todo(self, eng, ev, st):
        if self.all(st, 'todo'):
            if not self.has(st, 'tu') and not self.has(st, 'tn'):
                self.bad(eng, ev, st, 'C12.fate', 'reset leaves a task bound to the manager')
            if not self.has(st, 'ta') and not any(st.truth(x[1]) is True for x in self.all(st, 'tq')):
                self.bad(eng, ev, st, 'C12.fate', 'reset leaves a task alive')
        self.rm(st, lambda x: x[0] in ('todo', 'tu', 'ta', 'tq', 'tn'))

    def grow(self, eng, ev, st):
        """something is put into a container of the operation"""
        sh = self.sh
        for a in ev.args:
            vals = [a] + ([eng.load(st, a)] if is_lv(a) else [])
            if is_lv(a):
                vals += [v for k, v in st.mem.items() if self.under(k, a)]
            for x in self.all(st, 'seen'):
                base = self.node(x[1], sh.ntask)
                own = eng.load(st, ('f', base, 'px' if sh.stackful else 'context_'))
                if is_lv(a) and self.under(a, base) or own in vals and own[0] != 'c':
                    self.rm(st, lambda y: y == x)
                    self.add(st, 'kept', ev.obj)
            if is_lv(a):
                for x in self.all(st, 'fresh'):
                    self.copied(eng, ev, st, x, a)

    def copied(self, eng, ev, st, x, a):
        """the first tick moves one timer"""
        old = ('d', ('elemof', x[1]))
        g = lambda lv, *p: eng.load(st, self.sub(lv, p))
        if g(a, 'task_id') != g(old, 'task_id'):
            return
        s = (g(a, 'expired_time', 'tv_sec'), g(a, 'expired_time', 'tv_nsec'))
        o = (g(old, 'expired_time', 'tv_sec'), g(old, 'expired_time', 'tv_nsec'))
        self.rm(st, lambda y: y == x)
        self.data['moved'] = self.data.get('moved', 0) + 1
        self.timesum(eng, ev, st, s, [o, self.now], 'C14.first', 'the first tick sets another expiry than timeout + now')

    def settime(self, eng, ev, st):
        cur = [eng.load(st, ('f', self.sh.last, x)) for x in ('tv_sec', 'tv_nsec')]
        if cur == list(self.now):
            self.add(st, 'tset')

    def sub(self, lv, p):
        for x in p:
            lv = ('f', lv, x)
        return lv

    def timesum(self, eng, ev, st, got, parts, rule, msg):
        """got = sum of the parts, as time; and normalised"""
        tot = norm(ladd(lin(got[0], BILLION), lin(got[1])))
        want = {}
        for a, b in parts:
            want = ladd(want, ladd(lin(a, BILLION), lin(b)))
        if {k: v for k, v in ladd(tot, want, -1).items() if v}:
            if DBG:
                print('SUM', tot, '\n', want, '\n', got)
            self.bad(eng, ev, st, rule, msg)
        n = got[1]
        if not (n[0] == 'op' and n[1] == '%' and n[3] == ('c', BILLION)) and st.cmp('<', n, ('c', BILLION)) is not True:
            self.bad(eng, ev, st, rule, 'a timer keeps a second or more of nanoseconds')

    def container(self, eng, ev, st):
        sh = self.sh
        n = ev.q.split('::')[-1]
        table = ev.obj == sh.table
        what = 'task table' if table else 'timers'
        if n not in FREE and not self.has(st, 'held'):
            if eng.top.fk not in ('ctor', 'dtor'):
                self.bad(eng, ev, st, 'C11.lock', 'the %s are used without the lock (%s)' % (what, n))
        if n in LOOK or ev.fn.get('const'):
            if table and n == 'find' and self.all(st, 'ran'):
                self.add(st, 'again')
            if self.has(st, 'swap') and table and n == 'find':
                a = self.argv(eng, st, ev.args[0])
                for x in self.all(st, 'relink'):
                    self.bad(eng, ev, st, 'C11.link', 'after the timers were replaced, a task keeps its old position')
                self.rm(st, lambda x: x[0] == 'relink')
                self.add(st, 'relink', a)
                self.add(st, 'looked')
            return
        self.effect(eng, ev, st, {'clear': 'clear', 'erase': 'erase' if table else 'tset', 'swap': 'timers'}.get(n, 'minsert' if table else 'tset'))
        if n == 'clear':
            self.data['clear'] += 1
            if table:
                self.add(st, 'mclr2')
            self.add(st, 'mclr' if table else 'tclr')
            if table:
                self.rm(st, lambda x: x[0] == 'dang')
                if self.op == 'reset' and not self.has(st, 'walked'):
                    self.bad(eng, ev, st, 'C12.fate', 'the table is emptied without going through all tasks')
                if self.op != 'reset':
                    self.bad(eng, ev, st, 'C12.fate', 'the table is emptied')
                for x in self.all(st, 'seen'):
                    self.bad(eng, ev, st, 'C12.fate', 'a task is dropped with the table without being kept for its end')
            return
        if n == 'erase':
            a = self.argv(eng, st, ev.args[0])
            if table:
                self.data['erase'] += 1
                I = a
                if len(ev.args) == 1 and not (a[0] == 'pure' or a[0] in ('phi', 'call')):
                    for k in list(st.mem):
                        r = root(k)
                        if r[0] == 'd' and r[1][0] == 'elemof' and r[1][1][0] == 'pure' and r[1][1][1] == 'find' and r[1][1][-1] == a:
                            I = r[1][1]
                self.erase(eng, ev, st, I)
            else:
                self.data['terase'] += 1
                self.terase(eng, ev, st, a)
            return
        if n in ('insert', 'emplace', 'insert_or_assign', 'try_emplace', 'operator[]', 'emplace_hint') and not table:
            self.data['tins'] += 1
            x = ev.args[0]
            tid = eng.load(st, ('f', x, 'task_id')) if is_lv(x) else None
            if self.op in ('add_task', 'set_timeout') and is_lv(x):
                self.add(st, 'armed')
                par = self.timeout(eng)
                got = self.expiry(eng, st, x)
                self.timesum(eng, ev, st, got, [[eng.load(st, ('f', sh.last, y)) for y in ('tv_sec', 'tv_nsec')], par], 'C14.set',
                             'a timer expires at another time than last tick + timeout')
                if not any(st.cmp('<', C0, v) is True or v[0] == 'c' and v[1] > 0 for v in par):
                    self.bad(eng, ev, st, 'C14.set', 'a timer is set although no timeout was asked for')
            self.add(st, 'pend', (ev.fr.fid, ev.d.get('nid')), tid)
        if table and n in ('insert', 'emplace', 'try_emplace', 'insert_or_assign', 'operator[]', 'emplace_hint'):
            self.data['minsert'] += 1
            self.add(st, 'ins', (ev.fr.fid, ev.d.get('nid')))

    def linked(self, eng, ev, st, I, v):
        """the element *I got the timer position v"""
        sh = self.sh
        if self.has(st, 'swap'):
            self.data['relink'] += 1
            key = I[-1] if I[0] == 'pure' and I[1] == 'find' else None
            want = eng.load(st, ('f', ('d', ('elemof', v)), 'task_id'))
            if key is not None and want != key and self.isend(eng, st, v) is not True:
                self.bad(eng, ev, st, 'C11.link', 'a task gets the timer position of another task')
            self.rm(st, lambda x: x[0] == 'relink')
            return
        if self.isend(eng, st, v) is True:
            return
        for x in self.all(st, 'pend'):
            if contains(v, x[1]) or contains(v, x[1][1]):
                self.rm(st, lambda y: y == x)
                tid = x[2]
                own = self.owner(eng, st, I)
                if tid is None or tid not in own:
                    self.bad(eng, ev, st, 'C11.link', 'the timer of a task carries another id (%s)' % (show(tid) if tid else '?'))
                return
        self.bad(eng, ev, st, 'C11.link', 'a timer position is stored that is not the one of the timer just made')

    def owner(self, eng, st, I):
        """the values that are the id of the task in element *I"""
        sh = self.sh
        r = []
        if I[0] == 'pure' and I[1] == 'find':
            r += list(I[3:])
        base = self.node(I, sh.ntask)
        for k, v in list(st.mem.items()):
            pass
        c = eng.load(st, ('f', base, 'px')) if sh.stackful else eng.load(st, ('f', base, 'context_'))
        for x in self.ids(c):
            r.append(x)
            r.append(eng.load(st, x[1]) if x[0] == 'ld' else x)
        return r

    def ids(self, c):
        sh = self.sh
        out = []
        for f in ('id_', 'task_id_'):
            out.append(('ld', ('f', ('d', c), f), 0))
        return out

    def terase(self, eng, ev, st, a):
        """a timer position is removed: it must be the own one of an element, which then must not keep it"""
        sh = self.sh
        I = None
        if a[0] == 'ld' and is_lv(a[1]) and sh.ntimer in self.path(a[1]):
            I = root(a[1])[1][1] if root(a[1])[0] == 'd' and root(a[1])[1][0] == 'elemof' else ('lv', root(a[1]))
        if I is None:
            for k, v in st.mem.items():
                if v == a and sh.ntimer in self.path(k) and root(k)[0] == 'd' and root(k)[1][0] == 'elemof':
                    I = root(k)[1][1]
        if I is None and a[0] == 'pure' and a[1] == 'begin':
            self.add(st, 'dbegin')
            return
        if I is None:
            return
        if self.isend(eng, st, a) is not False:
            self.bad(eng, ev, st, 'C11.link', 'a timer is removed that may already be gone')
        self.add(st, 'dang', I)

    def erase(self, eng, ev, st, I):
        sh = self.sh
        if self.op == 'tick':
            self.due(eng, ev, st, I)
        if self.op in ('remove_task', 'task_cleanup_callback'):
            self.confirm(eng, ev, st, I)
        T = eng.load(st, self.node(I, sh.ntimer))
        if self.isend(eng, st, T) is not True and not self.has(st, 'dbegin') and not self.has(st, 'dang', I):
            self.bad(eng, ev, st, 'C11.link', 'a task leaves the table while its timer stays')
        self.rm(st, lambda x: x in (('dang', I), ('dbegin',)))
        self.add(st, 'gone', I)
        kept = self.tval(eng, st, I)
        if not kept:
            lv = self.node(I, sh.ntask)
            cur = eng.load(st, ('f', lv, 'px' if sh.stackful else 'context_'))
            if st.truth(cur) is False and cur != C0 or self.has(st, 'null', I):
                return
            kept = [v for k, v in st.mem.items() if is_local(k) and v == cur and v[0] not in ('c',)]
        if not kept:
            if DBG:
                print('ERASE', show(I), I)
                for k, v in st.mem.items():
                    print('   ', str(k)[:200], '=', str(v)[:300])
            self.bad(eng, ev, st, 'C12.fate', 'a task leaves the table without being kept for its end')
            return
        V = kept[0]
        self.unresolved(eng, ev, st)
        self.rm(st, lambda x: x[0] in ('out', 'unbound', 'acted', 'query', 'excused'))
        self.add(st, 'out', V)

    def leave(self, eng, ev, st):
        """the lock is released"""
        sh = self.sh
        for x in self.all(st, 'dang'):
            self.bad(eng, ev, st, 'C11.link', 'a task keeps the position of a removed timer')
        for x in self.all(st, 'dbegin'):
            self.bad(eng, ev, st, 'C11.link', 'a timer is removed and its task keeps the position')
        for x in self.all(st, 'pend'):
            self.bad(eng, ev, st, 'C11.link', 'a timer is made and its task does not know it')
        for x in self.all(st, 'relink'):
            if not self.notfound(st, x[1]):
                self.bad(eng, ev, st, 'C11.link', 'after the timers were replaced, a task keeps its old position')
        if not self.has(st, 'mclr'):
            fld = 'px' if sh.stackful else 'context_'
            for k, v in st.mem.items():
                if k[0] == 'f' and k[2] == fld and v == C0 and root(k)[0] == 'd' and root(k)[1][0] == 'elemof' and sh.ntask in self.path(k):
                    I = root(k)[1][1]
                    if not self.has(st, 'gone', I) and st.truth(('ld', k, 0)) is not False:
                        self.bad(eng, ev, st, 'C12.fate', 'a task is taken out of its entry, which stays in the table')
        for x in self.all(st, 'gone'):
            for k in [k for k in st.mem if root(k) == ('d', ('elemof', x[1]))]:
                del st.mem[k]
        if self.has(st, 'mclr') != self.has(st, 'tclr'):
            self.bad(eng, ev, st, 'C11.link', 'the task table and the timers are not emptied together')
        self.rm(st, lambda x: x[0] in ('dang', 'dbegin', 'pend', 'relink', 'swap', 'mclr', 'tclr', 'looked', 'null', 'gone'))

    def notfound(self, st, key):
        for k, w in st.rel.items():
            if k[0] == '==' and w is True:
                for a, b in ((k[1], k[2]), (k[2], k[1])):
                    if a[0] == 'pure' and a[1] == 'find' and a[-1] == key and b[0] == 'pure' and b[1] == 'end':
                        return True
        return False

    # -- tasks that left the table
    def target(self, eng, ev, st):
        """the task value the call works on"""
        c = []
        for a in ([ev.obj] if ev.obj is not None else []) + list(ev.args):
            if a is None or a == C0:
                continue
            if is_lv(a):
                if a[0] == 'd':
                    c.append(a[1])
                if not self.sh.stackful:
                    c.append(eng.load(st, ('f', a, 'context_')))
                if a[0] == 'd':
                    pass
                elif a[0] in ('f', 'v', 't', 'e'):
                    for k, v in st.mem.items():
                        if self.under(k, a) and k != a or k == a:
                            c.append(v)
                    if not any(self.under(k, a) for k in st.mem):
                        c.append(('ld', a, 0))
            else:
                c.append(a)
        return c

    def called(self, eng, ev, st):
        sh = self.sh
        n = ev.q.split('::')[-1]
        if n in ('cleanup_task_manager', 'setup_task_manager'):
            t = self.target(eng, ev, st)
            if not any(x in (sh.me, ('a', ('d', sh.me))) for x in list(t) + list(ev.args)):
                self.bad(eng, ev, st, 'C12.fate', 'a task is unbound from (or bound to) another manager than this one')
            if n == 'setup_task_manager':
                self.add(st, 'bound', t[0] if t else UNDEF, ev.val)
                self.effect(eng, ev, st, 'bind', ev.val)
                self.data.setdefault('bind', 0)
                self.data['bind'] += 1
                return
            self.data['unbind'] += 1
            self.doing(st, t, 'tu')
            V = t[0] if t else UNDEF
            hit = False
            for x in self.all(st, 'out'):
                if x[1] in t:
                    hit = True
                    self.rm(st, lambda y: y[0] == 'unbound')
                    self.add(st, 'unbound', x[1])
            if not hit:
                self.rm(st, lambda y: y[0] == 'unbound2')
                self.add(st, 'unbound2', V)
            self.rm(st, lambda x: x[0] == 'bound')
            return
        m = ACT.fullmatch(ev.q)
        if m:
            if self.has(st, 'held'):
                self.bad(eng, ev, st, 'C12.fate', 'a task is run under the lock of the manager')
            op = m.group(1)
            t = self.target(eng, ev, st)
            self.effect(eng, ev, st, 'act', ev.val)
            if self.plain:
                self.add(st, 'did', op, ev.val)
            if op in ('kill', 'cancel'):
                self.doing(st, t, 'ta')
            self.data['act'].append((op, tuple(self.argv(eng, st, a) if is_lv(a) and a[0] != 'd' else a for a in ev.args), ev.loc()))
            outs = self.all(st, 'out')
            hit = [x[1] for x in outs if x[1] in t]
            if t and st.truth(t[0]) is False or any(x[0] == 'ld' and st.truth(x) is False for x in t):
                return
            if op in ('cancel', 'kill'):
                if hit:
                    V = hit[0]
                    if not self.has(st, 'unbound', V):
                        self.bad(eng, ev, st, 'C12.fate', 'a removed task is ended while it is still bound to the manager')
                    if self.has(st, 'acted', V):
                        self.bad(eng, ev, st, 'C12.fate', 'a removed task is ended twice')
                    self.add(st, 'acted', V)
                else:
                    if self.op != 'reset':
                        self.bad(eng, ev, st, 'C12.fate', 'a task is ended while it is still in the table')
                    if not any(x[1] in t for x in self.all(st, 'unbound2')):
                        self.bad(eng, ev, st, 'C12.fate', 'a task is ended while it is still bound to the manager')
            else:
                self.add(st, 'ran', op)
                self.add(st, 'rt', t[0] if t else UNDEF)
                if outs:
                    self.bad(eng, ev, st, 'C12.fate', 'a removed task is run')
            self.status(eng, ev, st, op)
            bit = sh.RESET if eng.top.n in ('reset', '~task_manager') else (sh.TICK if eng.top.n == 'tick' else None)
            if bit and bitset(eng.load(st, sh.flags), bit, st) is not True:
                self.bad(eng, ev, st, 'C13.mark', 'tasks are ended while the manager is not marked as being in %s' % eng.top.n)
            return
        m = QUERY.fullmatch(ev.q)
        if m:
            for x in self.all(st, 'out'):
                if x[1] in self.target(eng, ev, st):
                    self.add(st, 'query', m.group(1), ev.val)
            t = self.target(eng, ev, st)
            if m.group(1) != 'get_status' and self.doing(st, t):
                self.add(st, 'tq', ev.val)
            if self.all(st, 'ran') and not self.all(st, 'rq'):
                self.add(st, 'rq', m.group(1), ev.val)
            return
        if n == 'intrusive_ptr_release':
            for x in self.all(st, 'out'):
                if x[1] in ev.args:
                    self.unresolved(eng, ev, st)
                    self.rm(st, lambda y: y[0] in ('out', 'unbound', 'acted', 'query', 'excused'))

    def doing(self, st, t, k=None):
        """does the call work on the task the sweep is at"""
        for x in self.all(st, 'todo'):
            if any(contains(y, x[1]) for y in t) or x[1][0] not in ('pure', 'call', 'phi'):
                if k:
                    self.add(st, k)
                return True
        return False

    def status(self, eng, ev, st, op):
        sh = self.sh
        vals = [self.argv(eng, st, a) for a in ev.args]
        if op == 'kill':
            top = eng.top.n
            if top == 'tick':
                ok = ('c', sh.TIMEOUT) in vals
            elif top == 'kill':
                par = [('p', i, x['n']) for i, x in enumerate(eng.top.params) if 'TASK_STATUS' in x['ty'] or 'status' in x['ty']]
                ok = par[0] in vals if par else ('c', sh.KILLED) in vals
            else:
                ok = ('c', sh.KILLED) in vals
            if not ok:
                self.bad(eng, ev, st, 'C12.fate', 'a task is ended with another status than the one asked for')

    def excuse(self, eng, st):
        sh = self.sh
        for y in self.all(st, 'query'):
            if y[1] in ('is_exiting', 'is_completed') and st.truth(y[2]) is True or y[1] == 'get_status' and (
                    st.cmp('<', ('c', sh.CREATED), y[2]) is False or st.cmp('<', y[2], ('c', sh.DONE)) is False):
                self.add(st, 'excused')

    def unresolved(self, eng, ev, st):
        """the removed task on this path must have met its fate by now"""
        sh = self.sh
        for x in self.all(st, 'out'):
            V = x[1]
            if st.truth(V) is False:
                continue
            if not self.has(st, 'unbound', V):
                if sh.stackful or True:
                    self.bad(eng, ev, st, 'C12.fate', 'a task that left the table stays bound to the manager')
                continue
            if not self.has(st, 'acted', V):
                ok = self.has(st, 'excused')
                if eng.top.n in ('remove_task', 'task_cleanup_callback', 'tick', 'reset', '~task_manager', 'start', 'resume') and ok:
                    continue
                self.bad(eng, ev, st, 'C12.fate', 'a task that left the table is not ended')

    def exit(self, eng, fr, st, kind, val):
        sh = self.sh
        if kind != 'ret':
            return
        loc = fr.fn.loc(fr.fn.endline)
        self.unresolved(eng, loc, st)
        if self.has(st, 'held'):
            self.report(eng, 'C11.lock', 'the operation returns with the lock held', loc, st)
        if eng.top.fk in ('ctor', 'dtor') or eng.top.acc and self.op != 'task_cleanup_callback':
            return
        bad = lambda rule, msg: self.report(eng, rule, msg, loc, st)
        # C13: the mark words
        f = eng.load(st, sh.flags)
        for bit, ops in ((sh.RESET, ('reset',)), (sh.TICK, ('tick',))):
            b = self.bit(f, bit)
            b0 = bitset(self.flag0, bit, st)
            if not (b == 'same' or b0 is not None and b is b0 or b0 is False and bitset(f, bit, st) is False):
                bad('C13.mark', 'the operation leaves the mark of %s changed' % ops[0])
        code = val[1] if val is not None and val[0] == 'c' else None
        K = sh.K
        inreset = bitset(self.flag0, sh.RESET, st)
        fx = self.all(st, 'fx')
        did = lambda k: [x for x in fx if x[1] == k]
        if code == K['COPP_EC_IN_RESET'] and inreset is not True:
            bad('C13.refuse', 'the operation reports a reset although there may be none')
        self.data['ends'].append(self.op)
        if self.op == 'reset':
            self.todo(eng, loc, st)
            if self.has(st, 'mclr2') is False and inreset is not True:
                bad('C12.fate', 'reset returns without emptying the table')
            if inreset is False:
                if self.all(st, 'kept') and not self.has(st, 'swept'):
                    bad('C12.fate', 'reset does not go through the tasks it took out')
                if any(eng.load(st, ('f', sh.last, x)) != C0 and not self.has(st, 'clock', x) for x in ('tv_sec', 'tv_nsec')):
                    bad('C14.clock', 'reset does not set the clock back')
            return
        if self.op == 'tick':
            if not self.has(st, 'worked'):
                if inreset is not True and bitset(self.flag0, sh.TICK, st) is not True and not self.lexle(st, self.now, self.last0):
                    bad('C14.clock', 'tick does nothing although the time moved on')
                return
            if self.all(st, 'fresh'):
                bad('C14.first', 'the first tick drops a timer')
            if not self.has(st, 'tset'):
                bad('C14.clock', 'tick does not take over the time')
            if not self.has(st, 'swapped') and not self.has(st, 'drained'):
                bad('C14.due', 'tick returns while timers may be due')
            return
        if self.op not in ('add_task', 'set_timeout', 'remove_task', 'start', 'resume', 'cancel', 'kill', 'find_task'):
            return
        if inreset is True:
            if self.op == 'find_task':
                return
            if code != K['COPP_EC_IN_RESET'] and not (self.op == 'add_task' and code == K['COPP_EC_ARGS_ERROR']):
                bad('C13.refuse', 'the operation does not report the reset')
        SUCCESS = K['COPP_EC_SUCCESS']
        if self.op in ('add_task', 'set_timeout') and code == SUCCESS:
            par = self.timeout(eng)
            if not self.has(st, 'armed') and not all(v[0] == 'c' and v[1] <= 0 or st.cmp('<', C0, v) is False or st.cmp('<=', v, C0) is True for v in par) and not self.missing(eng, st) \
                    and not self.notask(eng, st):
                bad('C14.set', 'no timer is set although a timeout was asked for')
        if self.op == 'add_task':
            bound = [x for x in self.all(st, 'bound') if x[2] is None or st.truth(x[2]) is not False]
            if code == SUCCESS:
                if not did('minsert'):
                    bad('C12.code', 'add_task reports success without adding the task')
                if self.has(st, 'notin'):
                    bad('C12.code', 'add_task reports success although the table refused the task')
                if did('bind') and not bound or not did('bind') and sh.binds:
                    bad('C12.code', 'an added task is not bound to the manager')
            else:
                if bound:
                    bad('C12.code', 'a task that is refused stays bound to the manager')
                if did('minsert') and not self.has(st, 'notin'):
                    bad('C12.code', 'add_task fails although the task is in the table')
            return
        if code == K['COPP_EC_NOT_FOUND']:
            if did('act'):
                bad('C12.code', 'the operation reports a missing task after it ran one')
            if not self.missing(eng, st):
                bad('C12.code', 'the operation reports a missing task although it is there')
        elif self.op == 'set_timeout':
            if code == SUCCESS and not self.foundany(st):
                bad('C12.code', 'set_timeout reports success without having found the task')
        elif self.op == 'remove_task':
            if (code == SUCCESS or did('act')) and not did('erase'):
                bad('C12.code', 'remove_task reports success without removing the task')
            if did('act') and val != did('act')[-1][2] and code != SUCCESS:
                bad('C12.code', 'remove_task returns something else than the outcome of the kill')
        elif self.op in ('start', 'resume', 'cancel', 'kill') and code != K['COPP_EC_IN_RESET']:
            mine = [x for x in self.all(st, 'did') if x[1] == self.op]
            if len(mine) != 1:
                bad('C12.code', '%s returns without running %s of the task once' % (self.op, self.op))
            elif sh.stackful and val != mine[0][2]:
                bad('C12.code', '%s returns something else than the outcome of the task' % self.op)
            if self.op in ('start', 'resume'):
                rq = self.all(st, 'rq')
                alive = [x for x in rq if (x[1] == 'get_status' and st.cmp('<', x[2], ('c', sh.DONE)) is True) or (x[1] != 'get_status' and st.truth(x[2]) is False)]
                if not alive and not self.has(st, 'again'):
                    bad('C12.code', 'a task that finished in %s is left in the table' % self.op)
                if alive and did('erase'):
                    bad('C12.code', 'a task that is not finished is removed by %s' % self.op)

    def timeout(self, eng):
        """the timeout asked for: the time_t and the int after it"""
        ps = eng.top.params
        for i in range(1, len(ps) - 1):
            if ps[i]['ty'] in ('time_t', 'long', '__time_t', 'const time_t', 'std::time_t') and ps[i + 1]['ty'] in ('int', 'const int', 'long'):
                return [('p', i, ps[i]['n']), ('p', i + 1, ps[i + 1]['n'])]
        return [C0, C0]

    def missing(self, eng, st):
        """a reason why there is no such task"""
        for k, w in st.rel.items():
            if k[0] != '==':
                continue
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                if a[0] == 'pure' and a[1] == 'find' and b[0] == 'pure' and b[1] == 'end' and w:
                    return True
                if self.op == 'remove_task' and w is False and a[0] == 'ld' and is_lv(a[1]) and self.sh.ntask in self.path(a[1]) and b[0] in ('ld', 'p', 'a') and \
                        not (b[0] == 'ld' and is_lv(b[1]) and self.sh.ntask in self.path(b[1])):
                    return True
        for k in list(st.facts) + list(st.rel):
            y = k
            if y[0] == '==' and C0 in y[1:] and st.rel.get(k) is True:
                y = y[1] if y[2] == C0 else y[2]
            elif k in st.rel or st.truth(k) is not False:
                continue
            if y[0] == 'ld' and is_lv(y[1]) and self.sh.ntask in self.path(y[1]):
                return True
        if self.has(st, 'nulltask'):
            return True
        # the task taken out is null
        for k, v in st.mem.items():
            if v[0] == 'ld' and is_lv(v[1]) and self.sh.ntask in self.path(v[1]) and st.truth(v) is False:
                return True
        return False

    def notask(self, eng, st):
        """the entry holds no task"""
        for k in list(st.facts) + [y for x in st.rel for y in x[1:]]:
            if k[0] in ('ld', 'p', 'fldof') and st.truth(k) is False and (k[0] == 'ld' and is_lv(k[1]) and self.path(k[1])[:1] in (['px'], ['context_'])):
                return True
        return False

    def foundany(self, st):
        for k, w in st.rel.items():
            if k[0] == '==' and w is False:
                for a, b in ((k[1], k[2]), (k[2], k[1])):
                    if a[0] == 'pure' and a[1] == 'find' and b[0] == 'pure' and b[1] == 'end':
                        return True
        return False

    def confirm(self, eng, ev, st, I):
        """the task asked for is the one that leaves"""
        sh = self.sh
        own = [eng.load(st, ('f', self.node(I, sh.ntask), 'px' if sh.stackful else 'context_'))]
        own += [v for v in st.mem.values() if v[0] == 'ld' and is_lv(v[1]) and self.under(v[1], self.node(I, sh.ntask))]
        for i, x in enumerate(eng.top.params):
            if not ('task' in x['ty']) or '*' not in x['ty'] and '&' not in x['ty'] or x['ty'].startswith('void'):
                continue
            P = ('p', i, x['n'])
            cand = [P, ('a', ('d', P)), ('a', P)]
            for lv in (('d', P), P):
                for f in ('px', 'context_'):
                    v = st.mem.get(('f', lv, f))
                    if v is not None:
                        cand.append(v)
                    cand.append(('ld', ('f', lv, f), 0))
            for v in list(cand):
                for k, y in st.mem.items():
                    if k[0] == 'f' and k[2] in ('px', 'context_') and k[1] == ('d', v):
                        cand.append(y)
            if any(st.truth(c) is False for c in cand):
                continue
            if any(k[0] == '==' and w is True and (k[1] in cand and k[2] in own or k[2] in cand and k[1] in own) for k, w in st.rel.items()):
                self.data['confirmed'] = self.data.get('confirmed', 0) + 1
                continue
            self.bad(eng, ev, st, 'C12.code', 'a task is removed by its id without being the one asked for')


BILLION = 1000000000


def norm(d):
    """x / 1e9 * 1e9 + x % 1e9 = x"""
    d = dict(d)
    for k in list(d):
        if k.__class__ is tuple and k[0] == 'op' and k[1] == '%' and k[3] == ('c', BILLION) and k in d:
            q = ('op', '/', k[2], k[3])
            if d.get(q, 0) == d[k] * BILLION:
                c = d.pop(k)
                d.pop(q)
                d = ladd(d, lin(k[2], c))
                return norm(d)
    return {k: v for k, v in d.items() if v}


def norm_ops(p):
    """the comparisons of the timer order"""
    r = []
    for f in p.fns.values():
        if f.blocks and f.n in ('operator<=>', 'operator==', 'operator<', 'operator!=') and len(f.params) == 2 and re.search(r'cotask::detail::(tickspec_t|task_timer_node)', f.params[0]['ty']):
            r.append(f)
    return sorted(r, key=lambda f: (f.params[0]['ty'], f.n))


class Order(Rec):
    """collect (facts, result) of a comparison"""

    def __init__(self):
        super().__init__()
        self.data = []

    def exit(self, eng, fr, st, kind, val):
        if kind == 'ret' and val is not None:
            self.data.append((val, dict(st.rel), {k: v for k, v in st.facts.items()}, eng.path(st)[-4:]))


def entries(R, sh):
    p = sh.p
    fs = [f for f in methods(p, sh) if f.fk != 'ctor' and not f.acc and not f.const and f.n not in ('create',)]
    return fs


def run(R, prefix):
    p = R.load()
    shs = classes(p)
    R.need('task manager classes', len(shs), 2)
    tot = {}
    jobs, who = [], []
    for sh in shs:
        fs = entries(R, sh)
        R.need('operations of %s' % sh.cls[:70], len(fs), 9)
        for f in fs:
            jobs.append((lambda sh=sh: Mgr(sh, prefix), f))
            who.append((sh, f))
        for f in methods(p, sh, ['task_cleanup_callback']):
            sh2 = Shape(p, sh.cls, ('d', ('p', 0, f.params[0]['n'])))
            jobs.append((lambda sh=sh2: Mgr(sh, prefix), f))
            who.append((sh2, f))
    n = 0
    for data, (sh, f) in zip(R.explore(jobs), who):
        for k, v in data.items():
            if isinstance(v, int):
                tot[k] = tot.get(k, 0) + v
        n += len(data['act'])
    R.count('tasks run, ended or killed', n)
    for k, v in sorted(tot.items()):
        R.count({'erase': 'entries taken out of the table', 'terase': 'timers removed', 'tins': 'timers made', 'minsert': 'entries put into the table', 'clear': 'containers emptied',
                 'relink': 'timer positions renewed', 'unbind': 'tasks unbound', 'locked': 'lock acquisitions', 'bind': 'tasks bound', 'moved': 'timers moved by the first tick',
                 'due': 'tasks ended by tick', 'confirmed': 'confirmed removals'}.get(k, k), v)
    return p, shs, who, tot, n


def c11(R):
    R.rule('C11.lock', 'the task table and the timers are read and changed under the lock of the manager only')
    R.rule('C11.link', 'under the lock, an entry and its timer appear and disappear together: no entry keeps a removed timer, no timer outlives its entry, no timer belongs to another id')
    p, shs, who, tot, n = run(R, 'C11')
    for sh, f in who:
        R.ob('C11.lock', f.q + ' ' + sh.cls, True, f.loc())
        R.ob('C11.link', f.q + ' ' + sh.cls, True, f.loc())
    for k, m in (('erase', 6), ('terase', 10), ('tins', 4), ('minsert', 2), ('clear', 8), ('relink', 2), ('locked', 20)):
        R.need('%s sites' % k, tot.get(k, 0), m)


def c12(R):
    R.rule('C12.fate', 'a task that leaves the table is unbound from this manager, then ended once with the right status outside of the lock (or is already finished); reset does so for every task of the table')
    R.rule('C12.code', 'the result code of an operation matches what it did: added and bound, found or not, removed, run once')
    p, shs, who, tot, n = run(R, 'C12')
    for sh, f in who:
        R.ob('C12.fate', f.q + ' ' + sh.cls, True, f.loc())
        R.ob('C12.code', f.q + ' ' + sh.cls, True, f.loc())
    for k, m in (('erase', 6), ('unbind', 10), ('bind', 2), ('confirmed', 2)):
        R.need('%s sites' % k, tot.get(k, 0), m)
    R.need('tasks acted on', n, 12)
    R.assume('a task is only unbound from a manager by the manager itself (the binding is checked with the manager as key)')


def c13(R):
    R.rule('C13.refuse', 'an operation takes effect only when no reset is going on (tick: and no tick), else it reports so and changes nothing')
    R.rule('C13.mark', 'tasks are ended by reset and tick while the manager is marked; every operation leaves the marks as it found them')
    p, shs, who, tot, n = run(R, 'C13')
    for sh, f in who:
        R.ob('C13.refuse', f.q + ' ' + sh.cls, True, f.loc())
        R.ob('C13.mark', f.q + ' ' + sh.cls, True, f.loc())
    R.need('tasks acted on', n, 12)
    R.assume('the marks are seen by the thread that runs reset or tick; they are plain words')


def c14(R):
    R.rule('C14.clock', 'tick takes effect exactly when (seconds, nanoseconds) moved on, and takes the time over; only tick and reset change the time')
    R.rule('C14.due', 'tick ends only the task of the first timer, when that expired before now, and goes on until no timer is left or the first is not due')
    R.rule('C14.first', 'the first tick re-bases every timer to timeout + now')
    R.rule('C14.set', 'a timer is set exactly when a timeout was asked for, at last tick + timeout, with less than a second of nanoseconds')
    R.rule('C14.order', 'timers are ordered by seconds, then nanoseconds, then task id')
    p, shs, who, tot, n = run(R, 'C14')
    for sh, f in who:
        for r in ('clock', 'set') + (('due', 'first') if f.n == 'tick' else ()):
            R.ob('C14.' + r, f.q + ' ' + sh.cls, True, f.loc())
    for k, m in (('due', 2), ('moved', 2), ('tins', 4)):
        R.need('%s sites' % k, tot.get(k, 0), m)
    fs = norm_ops(p)
    R.need('timer comparisons', len(fs), 3)
    for data, f in zip(R.explore([(Order, f) for f in fs]), fs):
        order(R, f, data)


def order(R, f, data):
    fields = ['tv_sec', 'tv_nsec'] if 'tickspec_t' in f.params[0]['ty'] else ['tv_sec', 'tv_nsec', 'task_id']
    L, Rr = ('p', 0, f.params[0]['n']), ('p', 1, f.params[1]['n'])

    def fld(v):
        """(side, field) of a loaded value"""
        if v[0] == 'ld' and is_lv(v[1]):
            r = root(v[1])
            s = 0 if contains(r, L) else (1 if contains(r, Rr) else None)
            return s, v[1][2] if v[1][0] == 'f' else None
        return None, None
    R.need('paths of %s(%s)' % (f.n, f.params[0]['ty'][:60]), len(data), 2)
    for val, rel, facts, path in data:
        eq = set()
        ne = set()
        for k, w in rel.items():
            if k[0] == '==':
                (s1, f1), (s2, f2) = fld(k[1]), fld(k[2])
                if f1 == f2 and f1 and {s1, s2} == {0, 1}:
                    (eq if w else ne).add(f1)
        ok, msg = True, ''
        if f.n == 'operator<=>':
            v = val
            while v[0] == 'op' and v[1] != '<=>' and len(v) == 3:
                v = v[2]
            if v[0] == 'op' and v[1] == '<=>':
                (s1, f1), (s2, f2) = fld(v[2]), fld(v[3])
                ok = f1 == f2 and f1 in fields and (s1, s2) == (0, 1) and all(x in eq for x in fields[:fields.index(f1)]) and (f1 in ne or f1 == fields[-1])
                msg = 'the order looks at %s with %s known equal' % (f1, sorted(eq))
            else:
                ok, msg = False, 'the order is not a comparison of the fields (%s)' % show(val)
        elif f.n in ('operator==', 'operator!='):
            w = val[1] if val[0] == 'c' else None
            if f.n == 'operator!=' and w is not None:
                w = not w
            if w is None:
                ok = val[0] == 'op' and val[1] in ('==', '!=') and (val[1] == '==') == (f.n == 'operator==')
                if ok:
                    (s1, f1), (s2, f2) = fld(val[2]), fld(val[3])
                    ok = f1 == f2 and {s1, s2} == {0, 1} and set(fields) - eq <= {f1}
            else:
                ok = set(fields) <= eq if w else bool(ne)
            msg = 'equality does not compare all of %s' % fields
        else:
            continue
        R.ob('C14.order', '%s %s' % (f.params[0]['ty'][:60], show(val)), ok, f.loc(), msg, path, f.q)


PROPS = {'C11': c11, 'C12': c12, 'C13': c13, 'C14': c14}
