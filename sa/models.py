"""Semantics of library calls the interpreter does not look into."""
import re
from engine import Ev, C0, C1, UNDEF, is_lv, boxy, strip_cv, is_const_ref, is_local, contains, CORH

IDENT = {'std::move', 'std::forward', 'std::as_const', 'std::launder', 'std::move_if_noexcept', 'std::forward_like'}
PURE_NAMES = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'find', 'front', 'back', 'at', 'data', 'lower_bound',
              'upper_bound', 'size', 'count', 'capacity', 'c_str', 'max_size', 'length', 'equal_range', 'contains',
              'base', 'time_since_epoch', 'use_count', 'index', 'has_value', 'value'}
ATOMIC_RX = re.compile(r'(copp::util::lock::atomic_int_type|std::atomic|std::__atomic_base|std::__atomic_float)::.*')
LOCK_RX = re.compile(r'(copp::util::lock::spin_lock|std::mutex|std::recursive_mutex)::(lock|unlock|try_lock|try_unlock)')
BOXQ_RX = re.compile(r'std::(?:__n4861::|__exception_ptr::|__uniq_ptr_impl::)?(unique_ptr|shared_ptr|__shared_ptr|__shared_ptr_access|weak_ptr|'
                     r'function|coroutine_handle|exception_ptr|reference_wrapper)::(.+)')
USER_RX = re.compile(r'std::function::operator\(\)|std::(__n4861::)?coroutine_handle::(resume|destroy|operator\(\))|'
                     r'(.*::)?copp_jump_fcontext(_v2)?|(.*::)?copp_ontop_fcontext(_v2)?|std::invoke|std::apply')


def setres(eng, fr, n, nd, st, v):
    """stores an opaque result v respecting the category of the call expression"""
    t = nd.get('t', '')
    if nd.get('lv'):
        st.vals[n] = eng.deref(v)
    elif eng.classy(nd):
        d = eng.dest(fr, n, st)
        eng.drop(st, d)
        st.mem[d] = v
        st.vals[n] = d
    else:
        st.vals[n] = v
    return [st]


def content(eng, st, lv):
    v = eng.load(st, lv)
    if v == UNDEF:
        v = ('ld', lv, 0)
        st.mem[lv] = v
    return v


def scal(eng, fr, nid, v, st):
    """scalar content of an argument (box or scalar lvalue or value)"""
    if is_lv(v):
        return content(eng, st, v)
    return v


def model(eng, fr, n, nd, st, fnr, q, obj, args, ev):
    mon = eng.mon
    if fnr is None:
        return None
    name = fnr['n']
    # ---- identity-like
    if q in IDENT and len(args) == 1:
        st.vals[n] = args[0]
        return [st]
    if q == 'std::addressof' or q == 'std::__addressof':
        st.vals[n] = eng.addr(args[0])
        return [st]
    if q == 'std::swap' or (q.startswith('std::') and name == 'swap' and len(args) == 2 and obj is None):
        mon.event(eng, ev, st)
        swap(eng, st, args[0], args[1], fr, nd)
        st.vals[n] = UNDEF
        return [st]
    if q == 'std::exchange' and len(args) == 2:
        mon.event(eng, ev, st)
        old = eng.load(st, args[0])
        new = args[1]
        new = eng.load(st, new) if is_lv(new) else new
        an = fr.fn.nodes[nd['args'][0]]
        eng.store(st, args[0], new)
        mon.event(eng, Ev('store', fr, nd, nd['l'], lv=args[0], val=new, fc=an.get('fc', ''), f=an.get('f', ''), op='='), st)
        return setres(eng, fr, n, nd, st, old)
    if q in ('std::min', 'std::max') and len(args) == 2:
        a, b = (eng.load(st, x) if is_lv(x) else x for x in args)
        outs = []
        for want in (True, False):
            s = st.copy()
            if q == 'std::min':
                cond = ('op', '<', b, a)
            else:
                cond = ('op', '<', a, b)
            if not s.assume(cond, want):
                continue
            pick = args[1] if want else args[0]
            s.vals[n] = pick
            outs.append(s)
        return outs
    # ---- locks
    m = LOCK_RX.fullmatch(q)
    if m:
        op = m.group(2)
        mon.event(eng, ev, st)
        if op == 'lock':
            mon.event(eng, Ev('lock', fr, nd, nd['l'], lv=obj, held=st.locks), st)
            st.locks = st.locks + (obj,)
            st.vals[n] = UNDEF
            return [st]
        if op in ('unlock', 'try_unlock'):
            mon.event(eng, Ev('unlock', fr, nd, nd['l'], lv=obj, held=st.locks), st)
            l = list(st.locks)
            if obj in l:
                l.reverse()
                l.remove(obj)
                l.reverse()
            st.locks = tuple(l)
            st.vals[n] = C1
            return [st]
        a, b = st, st.copy()
        mon.event(eng, Ev('lock', fr, nd, nd['l'], lv=obj, held=a.locks, tr=True), a)
        a.locks = a.locks + (obj,)
        a.vals[n] = C1
        b.vals[n] = C0
        eng.tr(b, fr, nd['l'], 'try_lock failed')
        return [a, b]
    # ---- atomics
    if ATOMIC_RX.fullmatch(q) and obj is not None:
        return atomic(eng, fr, n, nd, st, fnr, name, obj, args, ev)
    if q in ('std::atomic_thread_fence', 'std::atomic_signal_fence'):
        mon.event(eng, Ev('fence', fr, nd, nd['l'], order=args[0] if args else None), st)
        st.vals[n] = UNDEF
        return [st]
    # ---- smart pointers, handles, functions
    m = BOXQ_RX.fullmatch(q)
    if m and not USER_RX.fullmatch(q):
        r = box(eng, fr, n, nd, st, fnr, m.group(1), m.group(2), obj, args, ev)
        if r is not None:
            return r
    if q in ('std::make_shared', 'std::make_unique', 'std::allocate_shared', 'std::current_exception', 'std::make_exception_ptr'):
        mon.event(eng, ev, st)
        v = eng.fresh(fr, n, q, st)
        st.facts[v] = (None, None, frozenset([0]))
        d = eng.dest(fr, n, st)
        eng.drop(st, d)
        st.mem[d] = v
        st.vals[n] = d
        return [st]
    if q in ('std::static_pointer_cast', 'std::dynamic_pointer_cast', 'std::const_pointer_cast') and args:
        d = eng.dest(fr, n, st)
        st.mem[d] = content(eng, st, args[0])
        st.vals[n] = d
        return [st]
    if q == 'std::rethrow_exception':
        mon.event(eng, ev, st)
        mon.event(eng, Ev('throw', fr, nd, nd['l'], re=True, val=content(eng, st, args[0]) if args and is_lv(args[0]) else None), st)
        eng.tr(st, fr, nd['l'], 'rethrow_exception')
        return [('throw', st, nd.get('try', []))]
    if name in ('memcpy', 'memmove', 'memset') and len(args) == 3 and q in (name, 'std::' + name, '::' + name):
        tg = []
        for a in nd['args'][:1 if name == 'memset' else 2]:
            x = fr.fn.nodes[a]
            while x['k'] == 'cast' and isinstance(x.get('a'), int):
                x = fr.fn.nodes[x['a']]
            tg.append(re.sub(r'\bconst\b', '', x.get('t', '')).replace('*', ' ').strip())
        sz = fr.fn.nodes[nd['args'][2]]
        d = args[0][1] if args[0][0] == 'a' else ('d', args[0]) if not is_lv(args[0]) else None
        if d is not None and sz['k'] == 'sizeof' and re.sub(r'\bconst\b', '', sz.get('st', '')).strip() == tg[0] and len(set(tg)) == 1:
            mon.event(eng, ev, st)
            was = eng.load(st, d)
            if name == 'memset':
                eng.drop(st, d)
                if args[1] == C0:
                    rec = eng.prog.recs.get(tg[0])
                    if rec:
                        for f in rec['fields']:
                            st.mem[('f', d, f['n'])] = C0
                    st.mem[d] = ('empty', 'zero') if rec else C0 if not eng.class_type(tg[0]) else ('empty', 'zero')
                else:
                    st.mem[d] = eng.fresh(fr, n, q, st)
                src = None
            else:
                src = args[1][1] if args[1][0] == 'a' else ('d', args[1])
                eng.copyobj(st, d, src, ty=tg[0])
            mon.event(eng, Ev('store', fr, nd, nd['l'], lv=d, val=st.mem.get(d, UNDEF), old=was, fc='', f=d[2] if d[0] == 'f' else '', op='=', cls=True, src=src), st)
            st.vals[n] = args[0]
            return [st]
    if q in ('std::terminate', 'abort', 'std::abort', 'exit', '_exit') or fnr.get('noret'):
        mon.event(eng, ev, st)
        return []
    if q == 'std::get' and args and is_lv(args[0]):
        mon.event(eng, ev, st)
        eng.load(st, args[0])
        st.vals[n] = ('f', args[0], 'get<%s>' % (fnr.get('ta') or ['?'])[0])
        return [st]
    if q in ('std::get_if', '__get_if') and args:
        mon.event(eng, ev, st)
        o = eng.deref(args[0])
        alt = (fnr.get('ta') or ['?'])[0]
        outs = []
        for want in (True, False):
            s = st if want else st.copy()
            h = ('pure', 'holds', content(eng, s, o), ('str', alt))
            if s.assume(h, want):
                s.vals[n] = ('a', ('f', o, 'get<%s>' % alt)) if want else C0
                outs.append(s)
        return outs
    if q == 'std::holds_alternative' and args and is_lv(args[0]):
        mon.event(eng, ev, st)
        st.vals[n] = ('pure', 'holds', content(eng, st, args[0]), ('str', (fnr.get('ta') or ['?'])[0]))
        t = st.truth(st.vals[n])
        if t is not None:
            st.vals[n] = C1 if t else C0
        return [st]
    # ---- (a <=> b) compared with zero
    if name in ('operator==', 'operator!=', 'operator<', 'operator<=', 'operator>', 'operator>=') and q.startswith('std::') and obj is None and len(args) == 2:
        for i in (0, 1):
            o = content(eng, st, args[i]) if is_lv(args[i]) else args[i]
            if o is not None and o[0] == 'op' and o[1] == '<=>':
                op = name[8:]
                if i == 1:
                    op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op)
                mon.event(eng, ev, st)
                st.vals[n] = eng.compare(op, o[2], o[3], st)
                return [st]
    # ---- comparisons of library objects
    if name in ('operator==', 'operator!=') and (q.startswith('std::') or q.startswith('__gnu_cxx::')):
        ops = ([obj] if obj is not None else []) + args
        if len(ops) == 2:
            mon.event(eng, ev, st)
            a, b = (scal(eng, fr, None, x, st) for x in ops)
            st.vals[n] = eng.compare(name[8:], a, b, st)
            return [st]
    if name == 'operator bool' and q.startswith('std::') and obj is not None:
        c = content(eng, st, obj)
        st.vals[n] = eng.compare('!=', c, C0, st)
        return [st]
    # ---- repo class: implicit copy/move assignment
    ck = fnr.get('ck')
    if ck in ('cassign', 'massign') and fnr['id'] not in eng.prog.fns and obj is not None and args and is_lv(args[0]):
        mon.event(eng, ev, st)
        ty = strip_cv(fr.fn.nodes[nd['obj']].get('t', '')) if 'obj' in nd else ''
        was = eng.load(st, obj)
        eng.copyobj(st, obj, args[0], move=(ck == 'massign'), ty=ty)
        if ck == 'massign' and not boxy(ty) and not ty in eng.prog.recs:
            st.mem[args[0]] = ('moved', (fr.fid, n))
        mon.event(eng, Ev('store', fr, nd, nd['l'], lv=obj, val=st.mem.get(obj, UNDEF), old=was, fc='', f=obj[2] if obj[0] == 'f' else '', op='=', cls=True, src=args[0]), st)
        st.vals[n] = obj
        return [st]
    # ---- containers and iterators
    if (q.startswith('std::') or q.startswith('__gnu_cxx::')) and obj is not None:
        return std_method(eng, fr, n, nd, st, fnr, name, q, obj, args, ev)
    return None


def swap(eng, st, a, b, fr=None, nd=None):
    if not (is_lv(a) and is_lv(b)) or a == b:
        return
    av, bv = eng.load(st, a), eng.load(st, b)
    asub = [(k, v) for k, v in st.mem.items() if k != a and k[0] in ('f', 'e') and _u(k, a)]
    bsub = [(k, v) for k, v in st.mem.items() if k != b and k[0] in ('f', 'e') and _u(k, b)]
    eng.drop(st, a)
    eng.drop(st, b)
    from engine import _rebase
    st.mem[a], st.mem[b] = bv, av
    for k, v in asub:
        st.mem[_rebase(k, a, b)] = v
    for k, v in bsub:
        st.mem[_rebase(k, b, a)] = v
    if fr is not None:
        for lv in (a, b):
            eng.mon.event(eng, Ev('store', fr, nd, nd['l'], lv=lv, val=st.mem[lv], fc='', f=lv[2] if lv[0] == 'f' else '', op='swap',
                                  src=b if lv == a else a), st)


def _u(k, lv):
    while k[0] in ('f', 'e'):
        k = k[1]
        if k == lv:
            return True
    return False


def order_of(eng, st, args, i):
    if i < len(args):
        v = args[i]
        if is_lv(v):
            v = eng.load(st, v)
        return v[1] if v[0] == 'c' else v
    return 5          # seq_cst


def atomic(eng, fr, n, nd, st, fnr, name, obj, args, ev):
    mon = eng.mon
    mon.event(eng, ev, st)

    def sc(v):
        return eng.load(st, v) if is_lv(v) else v
    if name == 'load' or name.startswith('operator ') or name.startswith('operator int') or name.startswith('operator uns') or \
            (name.startswith('operator') and not args and name not in ('operator++', 'operator--')):
        cur = mon.atomic_values(eng, st, obj)
        if cur is not None:
            outs = []
            for c in cur:
                s = st.copy()
                s.vals[n] = ('c', c)
                mon.atomic_seen(eng, s, obj, c)
                mon.event(eng, Ev('aload', fr, nd, nd['l'], lv=obj, val=('c', c), order=order_of(eng, st, args, 0)), s)
                outs.append(s)
            return outs
        v = ('ald', obj, (fr.fid, n))
        eng.renew(st, v)
        mon.event(eng, Ev('aload', fr, nd, nd['l'], lv=obj, val=v, order=order_of(eng, st, args, 0)), st)
        st.vals[n] = v
        return [st]
    if name in ('store', 'operator=', 'init') and args:
        v = sc(args[0])
        mon.event(eng, Ev('astore', fr, nd, nd['l'], lv=obj, val=v, order=order_of(eng, st, args, 1)), st)
        st.vals[n] = v
        return [st]
    if name in ('compare_exchange_strong', 'compare_exchange_weak') and len(args) >= 2:
        exp = args[0]
        old = eng.load(st, exp)
        des = sc(args[1])
        so = order_of(eng, st, args, 2)
        fo = order_of(eng, st, args, 3) if len(args) > 3 else so
        cur = mon.atomic_values(eng, st, obj)
        if cur is not None:
            outs = []
            for c in cur:
                t = eng.compare('==', old, ('c', c), st)
                for ok in (True, False):
                    s = st.copy()
                    if not s.assume(t, ok) if t[0] != 'c' else (t[1] != 0) != ok:
                        continue
                    mon.atomic_seen(eng, s, obj, c)
                    s.vals[n] = C1 if ok else C0
                    eng.tr(s, fr, nd['l'], 'compare_exchange on value %d %s' % (c, 'succeeds' if ok else 'fails'))
                    mon.event(eng, Ev('cas', fr, nd, nd['l'], lv=obj, exp=('c', c) if ok else old, des=des, order=so, forder=fo,
                                      weak=name.endswith('weak'), ok=ok, val=('c', c)), s)
                    if not ok:
                        s.mem[exp] = ('c', c)
                    outs.append(s)
            return outs
        a, b = st, st.copy()
        mon.event(eng, Ev('cas', fr, nd, nd['l'], lv=obj, exp=old, des=des, order=so, forder=fo, weak=name.endswith('weak'), ok=True), a)
        a.vals[n] = C1
        eng.tr(a, fr, nd['l'], 'compare_exchange succeeds')
        v = ('cold', obj, (fr.fid, n))
        eng.renew(b, v)
        # the previous expected value may have carried the same name
        if name.endswith('strong'):
            o2 = b.mem.get(exp, old)
            b.assume(('op', '==', v, o2), False)
        b.mem[exp] = v
        b.vals[n] = C0
        mon.event(eng, Ev('cas', fr, nd, nd['l'], lv=obj, exp=old, des=des, order=so, forder=fo, weak=name.endswith('weak'), ok=False, val=v), b)
        eng.tr(b, fr, nd['l'], 'compare_exchange fails')
        return [a, b]
    if name == 'exchange' and args and mon.atomic_values(eng, st, obj) is not None:
        outs = []
        for c in mon.atomic_values(eng, st, obj):
            s = st.copy()
            mon.atomic_seen(eng, s, obj, c)
            s.vals[n] = ('c', c)
            mon.event(eng, Ev('armw', fr, nd, nd['l'], lv=obj, op='exchange', arg=sc(args[0]), val=('c', c), order=order_of(eng, st, args, 1)), s)
            outs.append(s)
        return outs
    if name == 'exchange' and args:
        v = ('axc', obj, (fr.fid, n))
        eng.renew(st, v)
        mon.event(eng, Ev('armw', fr, nd, nd['l'], lv=obj, op='exchange', arg=sc(args[0]), val=v, order=order_of(eng, st, args, 1)), st)
        st.vals[n] = v
        return [st]
    if name.startswith('fetch_') or name in ('operator++', 'operator--', 'operator+=', 'operator-=', 'operator|=', 'operator&='):
        v = ('armw', obj, (fr.fid, n))
        eng.renew(st, v)
        arg = sc(args[0]) if args else C1
        post = (name in ('operator++', 'operator--') and args) or name.startswith('fetch_')
        op = {'operator++': 'add', 'operator--': 'sub', 'operator+=': 'add', 'operator-=': 'sub', 'operator|=': 'or',
              'operator&=': 'and'}.get(name, name[6:])
        if name in ('operator++', 'operator--'):
            arg = C1
        cur = mon.atomic_values(eng, st, obj)
        if cur is not None and arg[0] == 'c' and op in ('add', 'sub', 'or', 'and', 'xor'):
            outs = []
            for c in cur:
                new = {'add': c + arg[1], 'sub': c - arg[1], 'or': c | arg[1], 'and': c & arg[1], 'xor': c ^ arg[1]}[op]
                s = st.copy()
                mon.atomic_seen(eng, s, obj, c)
                s.vals[n] = ('c', c if post else new)
                mon.event(eng, Ev('armw', fr, nd, nd['l'], lv=obj, op=op, arg=arg, val=('c', c), new=('c', new), post=bool(post),
                                  order=order_of(eng, st, args, 1) if name.startswith('fetch_') else 5), s)
                outs.append(s)
            return outs
        mon.event(eng, Ev('armw', fr, nd, nd['l'], lv=obj, op=op, arg=arg, val=v, post=bool(post),
                          order=order_of(eng, st, args, 1) if name.startswith('fetch_') else 5), st)
        st.vals[n] = v
        return [st]
    st.vals[n] = ('ald', obj, (fr.fid, n))
    return [st]


def box(eng, fr, n, nd, st, fnr, kind, name, obj, args, ev):
    mon = eng.mon
    if obj is None:
        if name in ('from_address', 'from_promise') and args:
            mon.event(eng, ev, st)
            v = args[0]
            if is_lv(v):
                v = ('hp', eng.addr(v))
            return setres(eng, fr, n, nd, st, v)
        return None
    if name in ('get', 'operator->', 'address', '_M_get'):
        c = content(eng, st, obj)
        if nd.get('lv'):
            st.vals[n] = eng.deref(c)
        else:
            st.vals[n] = c
        mon.event(eng, Ev('boxget', fr, nd, nd['l'], lv=obj, val=c), st)
        return [st]
    if name == 'operator*':
        st.vals[n] = eng.deref(content(eng, st, obj))
        return [st]
    if name.startswith('operator bool'):
        c = content(eng, st, obj)
        st.vals[n] = eng.compare('!=', c, C0, st)
        return [st]
    if name == 'promise':
        mon.event(eng, ev, st)
        st.vals[n] = eng.deref(('promise', content(eng, st, obj)))
        return [st]
    if name == 'done':
        mon.event(eng, ev, st)
        v = eng.fresh(fr, n, 'done', st)
        st.vals[n] = v
        mon.event(eng, Ev('called', fr, nd, nd['l'], q=fnr['q'], fn=fnr, obj=obj, args=args, val=v, stop=False), st)
        return [st]
    if name == 'release' and kind == 'unique_ptr':
        mon.event(eng, ev, st)
        st.vals[n] = content(eng, st, obj)
        st.mem[obj] = C0
        return [st]
    if name == 'reset':
        mon.event(eng, ev, st)
        old = content(eng, st, obj)
        v = C0
        if args:
            v = eng.load(st, args[0]) if is_lv(args[0]) else args[0]
        mon.event(eng, Ev('boxdrop', fr, nd, nd['l'], lv=obj, val=old, new=v, how='reset'), st)
        st.mem[obj] = v
        st.vals[n] = UNDEF
        return [st]
    if name == 'swap' and args:
        mon.event(eng, ev, st)
        swap(eng, st, obj, args[0], fr, nd)
        st.vals[n] = UNDEF
        return [st]
    if name == 'operator=':
        mon.event(eng, ev, st)
        a = args[0]
        old = content(eng, st, obj)
        if is_lv(a):
            an = fr.fn.nodes[nd['args'][0]]
            at = strip_cv(an.get('t', ''))
            if at.startswith('(lambda') or not boxy(at):
                v = st.mem.get(a) or content(eng, st, a)
                if v[0] in ('c',) and v != C0:
                    v = ('call', (fr.fid, n), 'box')
            else:
                v = content(eng, st, a)
            mv = fnr['pt'] and fnr['pt'][0].endswith('&&')
            if a == obj:
                st.vals[n] = obj
                return [st]
            st.mem[obj] = v
            if mv and boxy(at) and not CORH.match(at):
                st.mem[a] = C0
        else:
            v = a
            st.mem[obj] = v
        mon.event(eng, Ev('boxdrop', fr, nd, nd['l'], lv=obj, val=old, new=v, how='assign'), st)
        mon.event(eng, Ev('store', fr, nd, nd['l'], lv=obj, val=v, fc='', f=obj[2] if obj[0] == 'f' else '', op='=', cls=True,
                          src=a if is_lv(a) else None), st)
        st.vals[n] = obj
        return [st]
    if name.startswith('operator ') or name.startswith('operator std::'):
        c = content(eng, st, obj)
        return setres(eng, fr, n, nd, st, c)
    return None


def std_method(eng, fr, n, nd, st, fnr, name, q, obj, args, ev):
    mon = eng.mon
    if USER_RX.fullmatch(q):
        return None
    mon.event(eng, ev, st)
    c = content(eng, st, obj)
    if name == 'empty' and not args:
        sz = ('pure', 'size', c)
        st.vals[n] = eng.compare('==', sz, C0, st)
        lo, hi, ne = st.rng(sz)
        return [st]
    if name == 'operator->':
        st.vals[n] = ('elemof', c)
        return [st]
    if name == 'operator*':
        st.vals[n] = ('d', ('elemof', c))
        return [st]
    if name in PURE_NAMES or fnr.get('const'):
        a = tuple(eng.load(st, x) if is_lv(x) else x for x in args)
        nm = {'cbegin': 'begin', 'cend': 'end', 'length': 'size'}.get(name, name)
        if nm in ('begin', 'front') and not args:
            v = ('front', c) if nm == 'front' else ('pure', 'begin', c)
            if nm == 'front':
                # front() and *begin() are the same element
                v = ('elemof', ('pure', 'begin', c))
        elif nm == 'back' and not args:
            v = ('back', c)
        else:
            v = ('pure', nm, c) + a
        return setres(eng, fr, n, nd, st, v)
    # mutation
    if name == 'swap' and args:
        swap(eng, st, obj, args[0], fr, nd)
        st.vals[n] = UNDEF
        return [st]
    v = eng.fresh(fr, n, q, st)
    c2 = content(eng, st, obj)
    if name == 'operator=' and args and is_lv(args[0]):
        st.mem[obj] = content(eng, st, args[0])
        if fnr['pt'] and fnr['pt'][0].endswith('&&'):
            st.mem[args[0]] = ('moved', (fr.fid, n))
        mon.event(eng, Ev('store', fr, nd, nd['l'], lv=obj, val=st.mem[obj], fc='', f=obj[2] if obj[0] == 'f' else '', op='=', cls=True,
                          src=args[0]), st)
        st.vals[n] = obj
        return [st]
    if name == 'emplace' and q.startswith('std::variant'):
        newc = ('call', (fr.fid, n), q + '#state')
        st.purge(newc)
        eng.drop(st, obj)
        st.mem[obj] = newc
        ta = (fnr.get('ta') or ['?'])[0]
        st.facts[('pure', 'holds', newc, ('str', ta))] = (1, 1, frozenset())
        sub = ('f', obj, 'get<%s>' % ta)
        if args and is_lv(args[0]) and len(args) == 1 and eng.classy(fr.fn.nodes[nd['args'][0]]):
            eng.copyobj(st, sub, args[0])
        else:
            st.mem[sub] = ('empty', ta.split('<')[0]) if not args else ('call', (fr.fid, n), 'emplaced')
        if args and is_lv(args[0]) and fnr['pt'] and fnr['pt'][0].endswith('&&'):
            pass
        st.vals[n] = sub
        return [st]
    newc = ('empty', 'cleared') if name == 'clear' else ('call', (fr.fid, n), q + '#state')
    st.purge(newc) if newc[0] == 'call' else None
    st.mem[obj] = newc
    if name == 'clear':
        st.facts[('pure', 'size', newc)] = (0, 0, frozenset())
    if name in ('push_back', 'push_front', 'emplace_back', 'emplace_front'):
        st.facts[('pure', 'size', newc)] = (1, None, frozenset())
    for a, pt in zip(args, fnr['pt']):
        if is_lv(a) and pt.endswith('&&') and not is_const_ref(pt) and name not in ('find',):
            at = ''
            st.mem[a] = C0 if boxy(pt.rstrip('& ')) else ('moved', (fr.fid, n))
    if name in ('operator++', 'operator--') and nd.get('lv'):
        st.vals[n] = obj
        return [st]
    if name == 'operator[]':
        a = tuple(eng.load(st, x) if is_lv(x) else x for x in args)
        st.mem[obj] = ('pure', 'ins', c) + a if not (isinstance(c, tuple) and c[:2] == ('pure', 'ins')) else c
        st.vals[n] = ('d', ('elemof', ('pure', 'find', st.mem[obj]) + a))
        return [st]
    return setres(eng, fr, n, nd, st, v)


COPIES = ('std::make_pair', 'std::make_tuple', 'std::make_shared', 'std::make_unique')


def is_user(eng, fnr, q):
    if fnr is None:
        return True
    if USER_RX.fullmatch(q):
        return True
    if any(r.fullmatch(q) for r in eng.mon._user):
        return True
    if fnr.get('virt'):
        return True
    if q.startswith('drv_') or 'runner_t' in q or '/verif/drivers' in fnr['id']:
        return True
    return False


def opaque(eng, fr, n, nd, st, fnr, q, obj, args, ev):
    mon = eng.mon
    if ev is not None:
        mon.event(eng, ev, st)
    if fnr is not None and fnr.get('noret'):
        return []
    eng.opaque.add(q)
    outs = []
    stop = ev.stop
    if not stop and is_user(eng, fnr, q):
        mon.event(eng, Ev('user', fr, nd, nd['l'], q=q, fn=fnr, obj=obj, args=args, val=content(eng, st, obj) if obj is not None else None), st)
        if mon.throws and not (fnr or {}).get('ne'):
            s2 = st.copy()
            eng.havoc(fr, s2, ('u', fr.fid, n))
            eng.tr(s2, fr, nd['l'], '%s throws' % q)
            outs.append(('throw', s2, nd.get('try', [])))
        eng.havoc(fr, st, ('u', fr.fid, n))
        mon.event(eng, Ev('userend', fr, nd, nd['l'], q=q), st)
    else:
        if obj is not None and fnr is not None and not fnr.get('const') and not fnr.get('st'):
            if stop:
                eff = getattr(mon, 'stop_keeps', None)
                if not (eff and re.fullmatch(eff, q)):
                    eng.drop(st, obj)
            else:
                eng.drop(st, obj)
        if fnr is not None:
            for i, (a, pt) in enumerate(zip(args, fnr['pt'])):
                if is_lv(a) and pt.endswith('&') and not is_const_ref(pt):
                    if q in COPIES and not pt.endswith('&&'):
                        continue
                    eff = getattr(mon, 'stop_keeps', None)
                    if eff and re.fullmatch(eff, q):
                        continue
                    eng.drop(st, a)
                    v = ('out', (fr.fid, n), i)
                    eng.renew(st, v)
                    st.mem[a] = v
    v = eng.fresh(fr, n, q, st)
    r = setres(eng, fr, n, nd, st, v)
    mon.event(eng, Ev('called', fr, nd, nd['l'], q=q, fn=fnr, obj=obj, args=args, val=v, stop=stop), st)
    return outs + r
