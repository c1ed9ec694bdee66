"""Gets the resolved program out of /repo's current working tree.

configure -> compile database -> astfacts (libTooling) per translation unit ->
Program (functions, classes, enums, globals merged over the units).
Nothing is taken from a previous tree: results are cached only under a key that
hashes every source file of the tree, the flags and the tool.
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.path.join(VERIF, '.work')
BIN = os.path.join(WORK, 'bin', 'astfacts')


class Broken(Exception):
    """The analysis itself cannot be done (exit 2, never a verdict)."""


def _lock():
    os.makedirs(WORK, exist_ok=True)
    f = open(os.path.join(WORK, 'lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def _sha(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        try:
            with open(p, 'rb') as f:
                h.update(f.read())
        except OSError:
            h.update(b'-')
    return h.hexdigest()


SRC_RE = re.compile(r'\.(cpp|cxx|cc|c|h|hpp|hxx|inl|ipp|y|yy|yxx|l|ll|lxx|cmake|txt|in|xml|ui|qrc)$')


def tree_files():
    out = []
    for base in ('include', 'libs', 'tools', 'thirdparty', 'cmake', 'prototypes', 'plugins', 'CMakeLists.txt'):
        p = os.path.join(REPO, base)
        if os.path.isfile(p):
            out.append(p)
        for d, dn, fn in os.walk(p):
            dn[:] = [x for x in dn if x not in ('.git', '_build')]
            for f in fn:
                if SRC_RE.search(f):
                    out.append(os.path.join(d, f))
    return sorted(out)


def ensure_tool():
    src = os.path.join(VERIF, 'frontend', 'astfacts.cpp')
    stamp = BIN + '.sha'
    want = _sha([src])
    if os.path.exists(BIN) and os.path.exists(stamp) and open(stamp).read() == want:
        return
    r = subprocess.run(['bash', os.path.join(VERIF, 'frontend', 'build.sh')], capture_output=True, text=True)
    if r.returncode:
        raise Broken('cannot build astfacts:\n' + r.stderr[-3000:])
    open(stamp, 'w').write(want)


CMAKE = os.path.join(WORK, 'cmake')


def ensure_compdb(tree):
    stamp = os.path.join(WORK, 'compdb.tree')
    db = os.path.join(CMAKE, 'compile_commands.json')
    if os.path.exists(db) and os.path.exists(stamp) and open(stamp).read() == tree:
        return json.load(open(db))
    env = dict(os.environ, CC='gcc', CXX='g++', LC_ALL='C.UTF-8',
               PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
    cmd = ['cmake', '-S', REPO, '-B', CMAKE, '-G', 'Ninja', '-Wno-dev', '-DCMAKE_BUILD_TYPE=RelWithDebInfo',
           '-Daqsis_enable_testing=ON', '-DAQSIS_ENABLE_DOCS=OFF',
           '-DCMAKE_CXX_FLAGS=-Wno-error -DBOOST_MESSAGE=BOOST_TEST_MESSAGE', '-DCMAKE_C_FLAGS=-Wno-error',
           '-DCMAKE_PROJECT_aqsis_all_INCLUDE=/opt/vp/cmake/overrides.cmake', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON']
    r = subprocess.run(cmd, capture_output=True, text=True, env=env)
    if r.returncode:
        shutil.rmtree(CMAKE, ignore_errors=True)
        r = subprocess.run(cmd, capture_output=True, text=True, env=env)
        if r.returncode:
            raise Broken('cmake configure failed:\n' + (r.stdout + r.stderr)[-3000:])
    # generated sources (bison/flex grammar, moc): built by their own rules
    gens = [f for f in ('libs/slcomp/parse/parser.cpp', 'libs/slcomp/parse/scanner.cpp')]
    r = subprocess.run(['ninja', '-C', CMAKE] + gens, capture_output=True, text=True, env=env)
    if r.returncode:
        raise Broken('cannot generate the SL parser sources:\n' + (r.stdout + r.stderr)[-3000:])
    open(stamp, 'w').write(tree)
    return json.load(open(db))


def is_test(path):
    b = os.path.basename(path)
    return ('_test.' in b or b in ('boostautotestmain.cpp', 'testmain.cpp', 'tifftest_examples.cpp')
            or 'moc_' in b or 'qrc_' in b)


class Program:
    def __init__(self):
        self.units = []
        self.funcs = {}      # id -> function
        self.byq = {}        # qualified name -> [function]
        self.classes = {}    # canonical name -> record
        self.enums = {}
        self.globals = {}    # qualified name -> [global]
        self.derived = {}
        self.types = []
        self._tidx = {}

    def _t(self, s):
        i = self._tidx.get(s)
        if i is None:
            i = len(self.types)
            self.types.append(s)
            self._tidx[s] = i
        return i

    def add(self, d):
        self.units.append(d['main'])
        tm = [self._t(s) for s in d['types']]

        def fix(n):
            stack = [n]
            while stack:
                n = stack.pop()
                if isinstance(n, dict):
                    for k, v in n.items():
                        if k in ('t', 'ot', 'tt', 'of', 'ret', 'ft') and isinstance(v, int):
                            n[k] = tm[v] if v >= 0 else -1
                        elif isinstance(v, (dict, list)):
                            stack.append(v)
                elif isinstance(n, list):
                    for v in n:
                        if isinstance(v, (dict, list)):
                            stack.append(v)
        for f in d['funcs']:
            if f['id'] in self.funcs:
                continue
            fix(f)
            f['unit'] = d['main']
            self.funcs[f['id']] = f
            self.byq.setdefault(f['f'], []).append(f)
        for c in d['classes']:
            if c['c'] in self.classes:
                continue
            fix(c)
            self.classes[c['c']] = c
        for e in d['enums']:
            self.enums.setdefault(e['e'], e)
        for g in d['globals']:
            if any(x['file'] == g['file'] and x['line'] == g['line'] for x in self.globals.get(g['g'], [])):
                continue
            fix(g)
            g['unit'] = d['main']
            self.globals.setdefault(g['g'], []).append(g)

    def finish(self):
        self.derived = {}
        for n, c in self.classes.items():
            for b in c['bases']:
                self.derived.setdefault(b, []).append(n)
        self.mdecl = {}
        for n, c in self.classes.items():
            for m in c['methods']:
                self.mdecl[m['id']] = (n, m)

    # ---- queries
    def type(self, i):
        return self.types[i] if i is not None and i >= 0 else ''

    def bases(self, c, seen=None):
        """all transitive base classes, nearest first"""
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            for b in self.classes.get(x, {}).get('bases', []):
                if b not in out:
                    out.append(b)
                    todo.append(b)
        return out

    def subclasses(self, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop()
            for d in self.derived.get(x, []):
                if d not in out:
                    out.append(d)
                    todo.append(d)
        return out

    def root_ids(self, mid):
        """ids of the methods a method (transitively) overrides, itself included"""
        out, todo = set(), [mid]
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.add(x)
            if x in self.mdecl:
                todo += self.mdecl[x][1].get('over', [])
        return out

    def resolve_virtual(self, mid, cls):
        """the method that a virtual call of mid on an object of dynamic class
        cls runs"""
        for c in [cls] + self.bases(cls):
            rec = self.classes.get(c)
            if not rec:
                continue
            for m in rec['methods']:
                if m['id'] == mid or mid in self.root_ids(m['id']):
                    return m['id']
        return mid

    def methods_of(self, cls):
        return [f for f in self.funcs.values() if f.get('c') == cls]

    def find(self, q):
        return self.byq.get(q, [])


def load(patterns, include_tests=False, need_all=False):
    """patterns: list of regexes on the repo-relative path of the unit."""
    t0 = time.time()
    lk = _lock()
    try:
        ensure_tool()
        files = tree_files()
        tree = _sha(files + [os.path.join(VERIF, 'frontend', 'astfacts.cpp')])
        db = ensure_compdb(tree)
        units = {}
        for e in db:
            f = e['file']
            rel = f[len(REPO) + 1:] if f.startswith(REPO + '/') else (
                f[len(CMAKE) + 1:] if f.startswith(CMAKE + '/') else f)
            if is_test(rel) and not include_tests:
                continue
            if any(re.search(p, rel) for p in patterns):
                units[rel] = f
        if not units:
            raise Broken('no translation unit matches %r' % (patterns,))
        cdir = os.path.join(WORK, 'facts')
        os.makedirs(cdir, exist_ok=True)
        # drop results of other trees
        cur = os.path.join(cdir, tree[:24])
        for d in glob.glob(os.path.join(cdir, '*')):
            if d != cur:
                shutil.rmtree(d, ignore_errors=True)
        os.makedirs(cur, exist_ok=True)

        def run(item):
            rel, f = item
            out = os.path.join(cur, rel.replace('/', '__') + '.json')
            if not os.path.exists(out):
                r = subprocess.run([BIN, '-p', CMAKE, '-o', out + '.tmp', '--root=' + REPO, '--root=' + CMAKE,
                                    '--extra-arg=-Wno-everything', '--extra-arg=-D__DATE__="date"', '--extra-arg=-D__TIME__="time"', '--extra-arg=-Wno-c++11-narrowing', f],
                                   capture_output=True, text=True)
                if r.returncode:
                    return rel, None, r.stderr
                os.rename(out + '.tmp', out)
            return rel, out, ''
        prog = Program()
        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(run, sorted(units.items())))
        for rel, out, err in res:
            if out is None:
                raise Broken('clang cannot parse %s:\n%s' % (rel, err[-2000:]))
        for rel, out, err in res:
            prog.add(json.load(open(out)))
        prog.finish()
        prog.load_s = time.time() - t0
        return prog
    finally:
        lk.close()
