"""Shared helpers of the rule modules."""
import re
from engine import Monitor, Engine, Ev, C0, C1, UNDEF, is_lv, is_local, root, show, contains
from facts import Broken

THIS = ('d', ('this',))


def tf(name):
    return ('f', THIS, name)


def fields(lv):
    """the field names from the outside to the inside"""
    r = []
    while lv[0] in ('f', 'e'):
        if lv[0] == 'f':
            r.append(lv[2])
        lv = lv[1]
    return r


class Rec(Monitor):
    """records the events pick() selects, in order, on every path"""
    merge_after = 100000

    def __init__(self):
        super().__init__()
        self.data = []

    def pick(self, eng, ev, st):
        return None

    def init(self, eng, st, fr):
        return ()

    def event(self, eng, ev, st):
        r = self.pick(eng, ev, st)
        if r is not None:
            st.mon = st.mon + (r + (ev.loc(),),)
            eng.tr(st, ev.fr, ev.line, ' '.join(show(x) if isinstance(x, tuple) else str(x) for x in r)[:200])

    def final(self, eng, fr, st, kind, val):
        return None

    def exit(self, eng, fr, st, kind, val):
        self.data.append(dict(kind=kind, val=val, ev=st.mon, fin=self.final(eng, fr, st, kind, val), path=eng.path(st)[-25:]))


def cval(v):
    return v[1] if v is not None and v[0] == 'c' else None


# ---------------------------------------------------------------- linear terms
def lin(v, k=1, out=None):
    """v as {atom: coefficient} with '' for the constant (unsigned word arithmetic without overflow)"""
    if out is None:
        out = {}
    if v[0] == 'c':
        out[''] = out.get('', 0) + k * v[1]
    elif v[0] == 'op' and len(v) == 4 and v[1] in '+-':
        lin(v[2], k, out)
        lin(v[3], k if v[1] == '+' else -k, out)
    elif v[0] == 'op' and len(v) == 4 and v[1] == '*' and v[3][0] == 'c':
        lin(v[2], k * v[3][1], out)
    elif v[0] == 'op' and len(v) == 4 and v[1] == '*' and v[2][0] == 'c':
        lin(v[3], k * v[2][1], out)
    elif v[0] == 'op' and len(v) == 3 and v[1] == '-':
        lin(v[2], -k, out)
    else:
        out[v] = out.get(v, 0) + k
    return {a: c for a, c in out.items() if c != 0}


def ladd(a, b, k=1):
    r = dict(a)
    for x, c in b.items():
        r[x] = r.get(x, 0) + k * c
    return {x: c for x, c in r.items() if c}


def leq(a, b):
    return not ladd(lin(a), lin(b), -1)


def align_parts(v):
    """(x + m) & ~m  ->  (x, m)"""
    if v[0] == 'op' and len(v) == 4 and v[1] == '&':
        for m, x in ((v[3], v[2]), (v[2], v[3])):
            if m[0] == 'c':
                c = m[1]
                if c < 0:
                    u = -c - 1
                else:
                    u = (~c) & ((1 << 64) - 1)
                if (u & (u + 1)) == 0 and u < (1 << 32):
                    return x, u
    return None


def facts_ge(st):
    """linear forms known to be >= 0"""
    r = []
    for k, w in st.rel.items():
        if k[0] == '<':
            a, b = k[1], k[2]
            if w is True:
                r.append(ladd(ladd(lin(b), lin(a), -1), {'': -1} if True else {}))
            else:
                r.append(ladd(lin(a), lin(b), -1))
        elif k[0] == '==' and w is True:
            d = ladd(lin(k[1]), lin(k[2]), -1)
            r.append(d)
            r.append(ladd({}, d, -1))
    for v, (lo, hi, ne) in st.facts.items():
        if lo is not None:
            r.append(ladd(lin(v), {'': -lo}))
        if hi is not None:
            r.append(ladd({'': hi}, lin(v), -1))
    return r


def atoms_ge(d, depth=0):
    """facts about rounded terms: align(x) >= x, align(x) <= x + m"""
    r = []
    for a in list(d):
        if a != '' and isinstance(a, tuple):
            ap = align_parts(a)
            if ap:
                x, m = ap
                base = lin(x)
                # x already contains the + m of a round-up
                up = ladd(base, {'': -m})
                r.append(ladd({a: 1}, up, -1))      # align(y) >= y  where x = y + m
                r.append(ladd(base, {a: 1}, -1))    # align(y) <= y + m
                if depth < 3:
                    r += atoms_ge(base, depth + 1)
            elif a[0] == 'op' and len(a) == 4 and a[1] == '%' and cval(a[3]):
                r.append({'': cval(a[3]) - 1, a: -1})
                r.append(ladd(lin(a[2]), {a: 1}, -1))
            elif a[0] == 'op' and len(a) == 4 and a[1] == '/' and cval(a[3]):
                m = cval(a[3])                      # m * (x / m) >= x - (m - 1), <= x
                r.append(ladd({a: m, '': m - 1}, lin(a[2]), -1))
                r.append(ladd(lin(a[2]), {a: m}, -1))
    return r


def subst(v, m):
    """v with the sub-terms in m replaced, constants folded"""
    if v in m:
        return m[v]
    if not isinstance(v, tuple) or not v or v[0] != 'op':
        return v
    a = tuple(subst(x, m) if isinstance(x, tuple) else x for x in v)
    if len(a) == 4 and a[2][0] == 'c' and a[3][0] == 'c':
        x, y = a[2][1], a[3][1]
        try:
            f = {'+': x + y, '-': x - y, '*': x * y, '&': x & y, '|': x | y, '^': x ^ y, '<<': x << y if 0 <= y < 64 else None,
                 '>>': x >> y if 0 <= y < 64 else None, '/': x // y if y else None, '%': x % y if y else None}.get(a[1])
        except TypeError:
            f = None
        if f is not None:
            return ('c', f)
    if len(a) == 3 and a[2][0] == 'c' and a[1] in '~-':
        return ('c', ~a[2][1] if a[1] == '~' else -a[2][1])
    return a


def prove_ge0(st, d, extra=()):
    """d >= 0 from the facts on the path: at most three facts are added up; remaining atoms are unsigned"""
    fs = facts_ge(st) + list(extra)
    fs += atoms_ge(d)
    more = []
    for f in fs:
        more += atoms_ge(f)
    fs += more

    def ok(x):
        return all(c >= 0 for c in x.values())

    seen = set()

    def go(x, n):
        if ok(x):
            return True
        if n == 0:
            return False
        key = (frozenset(x.items()), n)
        if key in seen:
            return False
        seen.add(key)
        neg = {a for a, c in x.items() if c < 0 and a != ''}
        for f in fs:
            if neg:
                # use facts that remove a negative atom
                if not any(f.get(a, 0) < 0 for a in neg):
                    continue
            elif f.get('', 0) >= 0:
                continue
            if go(ladd(x, f, -1), n - 1):
                return True
        return False
    return go(d, 4)


def prove_le(st, a, b, strict=False, extra=()):
    d = ladd(lin(b), lin(a), -1)
    if strict:
        d = ladd(d, {'': -1})
    return prove_ge0(st, d, extra)
