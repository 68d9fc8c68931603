"""Builds the fact base: generates the feature header from /repo's template, runs the extractor on the
project's sources and on the instantiation drivers, and loads the result."""
import concurrent.futures, hashlib, json, os, re, subprocess, sys, tempfile, shutil, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
LLVM = '/usr/lib/llvm-18'

BASE_VARS = dict(LIBCOPP_MACRO_SYS_POSIX='1', LIBCOPP_MACRO_USE_VALGRIND='1', LIBCOPP_FCONTEXT_USE_TSX='1',
                 LIBCOTASK_MACRO_ENABLED='1', LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER='1', THREAD_TLS_USE_PTHREAD='1',
                 LIBCOPP_MACRO_ENABLE_STD_COROUTINE='1', LIBCOPP_MACRO_ENABLE_EXCEPTION='1',
                 LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR='1', LIBCOPP_MACRO_ENABLE_RTTI='1',
                 LIBCOPP_MACRO_ENABLE_STD_SPAN='1')


class Broken(Exception):
    """analysis-broken: neither a pass nor a violation"""


def tool_path():
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    for d in (os.path.join(VERIF, '.build'), os.path.join(tempfile.gettempdir(), 'verif-extract')):
        p = os.path.join(d, 'extract-' + h)
        if os.access(p, os.X_OK):
            return p
    d = os.path.join(VERIF, '.build')
    try:
        os.makedirs(d, exist_ok=True)
    except OSError:
        d = os.path.join(tempfile.gettempdir(), 'verif-extract')
        os.makedirs(d, exist_ok=True)
    p = os.path.join(d, 'extract-' + h)
    tmp = p + '.%d' % os.getpid()
    flags = ['-I' + LLVM + '/include', '-std=c++17', '-fno-exceptions', '-fno-rtti', '-D_GNU_SOURCE',
             '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', '-O1', '-w']
    cmd = ['clang++-18'] + flags + [src, '-o', tmp, LLVM + '/lib/libclang-cpp.so.18.1', '-L' + LLVM + '/lib',
                                    '-lLLVM-18']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise Broken('cannot build the extractor: ' + r.stderr[-2000:])
    os.rename(tmp, p)
    return p


def gen_features(out, overrides=None):
    top = open(REPO + '/CMakeLists.txt').read()
    m = re.search(r'VERSION "([0-9]+)\.([0-9]+)\.([0-9]+)"', top)
    if not m:
        raise Broken('no project version')
    v = dict(BASE_VARS)
    v.update(LIBCOPP_VERSION_MAJOR=m.group(1), LIBCOPP_VERSION_MINOR=m.group(2), LIBCOPP_VERSION_PATCH=m.group(3),
             LIBCOPP_VERSION='.'.join(m.groups()),
             LIBCOPP_API_LEVEL=str(1000 * int(m.group(1)) + int(m.group(2))))
    v['LIBCOPP_ABI_TAG'] = 'v' + v['LIBCOPP_API_LEVEL']
    for k, x in (overrides or {}).items():
        if x is None:
            v.pop(k, None)
        else:
            v[k] = x
    src = open(REPO + '/include/libcopp/utils/config/libcopp_build_features.h.in').read()
    res = []
    for l in src.split('\n'):
        m = re.match(r'#cmakedefine(01)?\s+(\w+)(.*)', l)
        if m:
            on = v.get(m.group(2), '0') not in ('0', '')
            if m.group(1):
                l = '#define %s %d' % (m.group(2), 1 if on else 0)
            elif on:
                l = '#define %s%s' % (m.group(2), m.group(3))
            else:
                l = '/* #undef %s */' % m.group(2)
        l = re.sub(r'@(\w+)@', lambda q: v.get(q.group(1), ''), l)
        res.append(l)
    d = out + '/libcopp/utils/config'
    os.makedirs(d, exist_ok=True)
    open(d + '/libcopp_build_features.h', 'w').write('\n'.join(res))


def sources():
    s = []
    for pat in ('src/libcopp/coroutine/*.cpp', 'src/libcopp/utils/*.cpp', 'src/libcopp/stack/*.cpp',
                'src/libcotask/*.cpp', 'src/libcopp/coroutine/**/*.cpp', 'src/libcopp/utils/**/*.cpp',
                'src/libcotask/**/*.cpp'):
        s += glob.glob(REPO + '/' + pat, recursive=True)
    for f in ('allocator/stack_allocator_memory', 'allocator/stack_allocator_malloc', 'allocator/stack_allocator_posix',
              'stack_traits/stack_traits_posix'):
        s.append(REPO + '/src/libcopp/stack/' + f + '.cpp')
    return sorted(set(s))


def drivers():
    return sorted(glob.glob(VERIF + '/drivers/d_*.cpp'))


# configurations: name -> (feature overrides, extra flags, which TUs)
CONFIGS = {
    'default': ({}, [], None),
    'no_variant': ({}, ['-DVERIF_NO_VARIANT=1'], ['d_promise.cpp', 'std_coroutine_common.cpp']),
}


def run_extract(tool, tu, inc, out, flags):
    cmd = [tool, '--root=' + REPO, '--out=' + out, tu, '--', '-std=gnu++20', '-DNDEBUG',
           '-DLIBCOPP_FCONTEXT_USE_TSX=1', '-I' + REPO + '/include', '-I' + inc, '-Wno-everything'] + flags
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(out) or 'EXTRACT: errors' in r.stderr:
        raise Broken('cannot parse %s:\n%s' % (tu, '\n'.join(l for l in r.stderr.split('\n') if 'error' in l)[:3000]))
    return out


_vns = re.compile(r'\bv\d{3,5}::')


def norm(s):
    return _vns.sub('', s) if isinstance(s, str) and '::' in s else s


_strip_cache = {}


def strip_targs(q):
    """qualified name without template arguments"""
    r = _strip_cache.get(q)
    if r is not None:
        return r
    head, tail = q, ''
    # the operator symbol may contain angle brackets
    depth = 0
    i = q.find('operator')
    while i >= 0:
        d = q[:i].count('<') - q[:i].count('>')
        if d == 0 and (i == 0 or q[i - 1] == ':') and not (i + 8 < len(q) and (q[i + 8].isalnum() or q[i + 8] == '_')):
            head, tail = q[:i], q[i:]
            break
        i = q.find('operator', i + 1)
    out = []
    depth = 0
    for c in head:
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif depth == 0:
            out.append(c)
    r = ''.join(out).replace('::__n4861::', '::').replace('::__cxx11::', '::') + tail
    _strip_cache[q] = r
    return r


def _norm_hook(d):
    for k in ('t', 'q', 'cls', 'fc', 'ft', 'ty', 'rt', 'at', 'dt', 'st', 'rec', 'base', 'catchty', 'fty'):
        v = d.get(k)
        if isinstance(v, str):
            d[k] = norm(v)
    if 'ta' in d:
        d['ta'] = [norm(x) for x in d['ta']]
    if 'q' in d:
        d['q'] = strip_targs(d['q'])
    if 'fc' in d:
        d['fc'] = strip_targs(d['fc'])
    if 'pt' in d:
        d['pt'] = [norm(x) for x in d['pt']]
    if 'bases' in d:
        d['bases'] = [norm(x) for x in d['bases']]
    return d


class Fn:
    __slots__ = ('loops', 'heads', 'inloop', 'live', 'live_cand', 'id', 'q', 'n', 'cls', 'file', 'line', 'endline', 'params', 'blocks', 'entry', 'exit', 'nodes', 'virt',
                 'ne', 'st', 'fk', 'lam', 'capvars', 'coro', 'rt', 'pt', 'impl', 'over', 'acc', 'trys', 'const', 'ck',
                 'cross', 'dtors', 'dest', 'noret', 'elset', 'config', 'dflt', 'reach_uses')

    def __init__(self, o):
        self.id = o['id']; self.q = o['q']; self.n = o['n']; self.cls = o.get('cls', '')
        self.file = o['file']; self.line = o['line']; self.endline = o.get('endline', 0)
        self.params = o.get('params', []); self.virt = o.get('virt', False); self.ne = o.get('ne', False)
        self.st = o.get('st', False); self.fk = o.get('fk'); self.lam = o.get('lambda', False)
        self.capvars = {c['v']: c for c in o.get('capvars', [])}
        self.coro = o.get('coro', False); self.rt = o.get('rt', ''); self.pt = o.get('pt', [])
        self.impl = o.get('impl', False); self.over = o.get('over', []); self.acc = o.get('acc', 0)
        self.trys = {int(k): v for k, v in o.get('trys', {}).items()}
        self.const = o.get('const', False); self.ck = o.get('ck'); self.noret = o.get('noret', False)
        self.dflt = o.get('dflt', False)
        self.nodes = {int(k): v for k, v in o.get('nodes', {}).items()}
        self.blocks = {b['id']: b for b in o.get('blocks', [])}
        self.entry = o.get('entry'); self.exit = o.get('exit')
        self.cross = None
        self.config = None

    def short(self):
        return self.q

    def loc(self, line=None):
        f = self.file
        if f.startswith(REPO + '/'):
            f = f[len(REPO) + 1:]
        return '%s:%d' % (f, line or self.line)


class Prog:
    def __init__(self):
        self.fns = {}
        self.recs = {}
        self.by_q = {}
        self.overriders = {}
        self.consts = {}
        self.tus = []

    def add(self, o):
        if 'enum' in o:
            self.consts.update(o['vals'])
            return
        if 'rec' in o:
            self.recs.setdefault(o['rec'], o)
            return
        if o.get('nocfg'):
            raise Broken('no control-flow graph for ' + o['q'])
        f = Fn(o)
        if f.id in self.fns:
            return
        self.fns[f.id] = f
        self.by_q.setdefault(f.q, []).append(f)
        for b in f.over:
            self.overriders.setdefault(b, set()).add(f.id)

    def find(self, q, cls=None, pred=None, need=True, nparams=None):
        """functions with qualified name q (template arguments stripped)"""
        r = [f for f in self.by_q.get(q, []) if (cls is None or re.search(cls, f.cls))
             and (nparams is None or len(f.params) == nparams) and (pred is None or pred(f))]
        if need and not r:
            raise Broken('anchor vanished: no function %s%s' % (q, ' in class ~ ' + cls if cls else ''))
        return r

    def match(self, rx, pred=None, need=True):
        c = re.compile(rx)
        r = [f for q, fs in self.by_q.items() if c.fullmatch(q) for f in fs if pred is None or pred(f)]
        if need and not r:
            raise Broken('anchor vanished: no function matching ' + rx)
        return r

    def rec(self, rx, need=True):
        c = re.compile(rx)
        r = [v for k, v in self.recs.items() if c.fullmatch(v['q'])]
        if need and not r:
            raise Broken('anchor vanished: no class matching ' + rx)
        return r


def tree_hash():
    h = hashlib.sha256()
    files = []
    for base in ('include', 'src'):
        for dp, dn, fn in os.walk(REPO + '/' + base):
            files += [os.path.join(dp, f) for f in fn]
    files += drivers() + [VERIF + '/tool/extract.cpp', VERIF + '/sa/facts.py', REPO + '/CMakeLists.txt']
    for f in sorted(files):
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    return h.hexdigest()[:24]


def extract(config='default'):
    """returns list of (tu, jsonlines path); results are cached by content hash of everything they depend on"""
    over, flags, only = CONFIGS[config]
    key = tree_hash() + '-' + config
    cache = os.path.join(tempfile.gettempdir(), 'verif-facts', key)
    done = os.path.join(cache, 'DONE')
    if not os.path.exists(done):
        tool = tool_path()
        work = cache + '.%d' % os.getpid()
        os.makedirs(work, exist_ok=True)
        gen_features(work + '/inc', over)
        if config == 'no_variant':
            p = work + '/inc/libcopp/utils/config/libcopp_build_features.h'
            s = open(p).read()
            s = s.replace('#    define LIBCOPP_MACRO_ENABLE_STD_VARIANT 1', '')
            open(p, 'w').write(s)
        tus = sources() + drivers()
        if only:
            tus = [t for t in tus if os.path.basename(t) in only]
        names = {}
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            futs = []
            for t in sorted(tus, key=lambda t: -int('d_promise' in t) * 2 - int('drivers' in t)):
                o = work + '/' + re.sub(r'\W', '_', t) + '.jsonl'
                names[t] = os.path.basename(o)
                futs.append(ex.submit(run_extract, tool, t, work + '/inc', o, flags))
            for f in futs:
                f.result()
        json.dump(names, open(work + '/DONE', 'w'))
        try:
            os.rename(work, cache)
        except OSError:
            if os.path.exists(done):
                shutil.rmtree(work, ignore_errors=True)
            else:
                cache = work
                done = cache + '/DONE'
    names = json.load(open(done))
    return [(t, os.path.join(cache, n)) for t, n in sorted(names.items())]


def load(config='default'):
    p = Prog()
    for tu, path in extract(config):
        p.tus.append(tu)
        with open(path) as f:
            for l in f:
                p.add(json.loads(l, object_hook=_norm_hook))
    if len(p.fns) < 50:
        raise Broken('only %d functions extracted' % len(p.fns))
    return p
