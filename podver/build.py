"""Builds what a check needs from /repo's current working tree, outside /repo: the generator's output
for the data model in /verif/model, object files (with sanitizers) for the run-time contract
harnesses, and LLVM IR for the verifier.  Results are cached by the hash of the preprocessed source."""
import concurrent.futures as cf
import functools, glob, hashlib, os, re, shutil, subprocess, sys, tempfile, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PODVER_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
CXX = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
SYSPY = '/usr/bin/python3' if os.path.exists('/usr/bin/python3') else 'python3'   # the one that has jinja2
OPT = 'opt-18' if shutil.which('opt-18') else 'opt'
SAN = ['-std=c++20', '-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize=vptr,function', '-fno-sanitize-recover=all', '-w', '-pthread']
FAST = ['-std=c++20', '-O1', '-g1', '-w', '-pthread']

LD = '--ld-path=' + shutil.which('ld.lld-18') if shutil.which('ld.lld-18') else '-fuse-ld=bfd'

class BuildError(Exception):
    pass

def run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode:
        raise BuildError(' '.join(cmd)[:300] + '\n' + r.stderr[:3000])
    return r.stdout

def put(path, text):
    """write a file in one step: the verifier and the harness are built in two processes at the same time"""
    tmp = f'{path}.{os.getpid()}.{threading.get_ident()}'
    with open(tmp, 'w') as f:
        f.write(text)
    os.replace(tmp, path)

def locked(f):
    @functools.wraps(f)
    def g(self, *a, **k):
        with self.lock:
            return f(self, *a, **k)
    return g

class Build:
    def __init__(self):
        self.lock = threading.RLock()       # the verifier and the harness are built at the same time
        self.work = tempfile.mkdtemp(prefix='podver-')
        self._gen = {}
        self.jobs = max(2, min(8, os.cpu_count() or 2))
        self.version()
    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def version(self):
        txt = open(f'{REPO}/CMakeLists.txt').read()
        v = dict(re.findall(r'_VERSION_(MAJOR|MINOR|PATCH)\s+(\d+)', txt))
        d = os.path.join(self.work, 'inc', 'podio'); os.makedirs(d)
        h = open(f'{REPO}/podioVersion.in.h').read()
        for k in ('MAJOR', 'MINOR', 'PATCH'):
            h = h.replace(f'@podio_VERSION_{k}@', v.get(k, '0'))
        open(os.path.join(d, 'podioVersion.h'), 'w').write(h)

    @locked
    def gen(self, model='model', package='vmodel', args=()):
        """run the generator of the working tree"""
        key = (model, package, tuple(args))
        if key not in self._gen:
            out = os.path.join(self.work, 'gen_' + package)
            os.makedirs(out, exist_ok=True)
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
            run([SYSPY, f'{REPO}/python/podio_class_generator.py', '-q', '--datamodel-version', '1.2.3', *args,
                 f'{VERIF}/model/{model}.yaml', out, package], env=env)
            self._gen[key] = out
        return self._gen[key]
    def incs(self):
        return [f'{REPO}/include', os.path.join(self.work, 'inc')] + list(self._gen.values())

    # ---- compilation with a content cache ----
    def _pre(self, src, flags):
        cmd = [CXX, *[f for f in flags if not f.startswith('-g') and not f.startswith('-fsanitize')], '-E', '-P', src] + ['-I' + i for i in self.incs()]
        if any('sanitize=address' in f for f in flags):
            cmd.append('-fsanitize=address')
        return run(cmd)
    def compiled(self, src, flags, kind):
        """-> path of the cached object / IR"""
        pre = self._pre(src, flags)
        pre = pre.replace(self.work, '')
        h = hashlib.sha256((kind + ' '.join(flags) + '\0' + pre).encode()).hexdigest()[:32]
        out = os.path.join(CACHE, kind, h[:2], h + ('.o' if kind == 'obj' else '.ll'))
        if os.path.exists(out):
            return out
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = os.path.join(self.work, f'{os.path.basename(src)}.{os.getpid()}.{threading.get_ident()}.{h[:8]}')
        inc = ['-I' + i for i in self.incs()]
        def cc(more):
            if kind == 'obj':
                run([CXX, *flags, *more, *inc, '-c', src, '-o', tmp])
            else:
                run([CXX, *flags, *more, *inc, '-emit-llvm', '-c', src, '-o', tmp + '.bc'])
        try:
            cc([])
        except BuildError as ex:
            # a source may rely on a standard header that only some of its users include
            if 'error: no ' not in str(ex) and 'undeclared' not in str(ex) and 'is not a member' not in str(ex) and 'unknown type' not in str(ex) and 'incomplete type' not in str(ex) and 'undefined template' not in str(ex):
                raise
            cc(['-include', 'bits/stdc++.h'])
        if kind != 'obj':
            run([OPT, '-passes=sroa,loop-simplify', '-S', tmp + '.bc', '-o', tmp])
        new = f'{out}.{os.getpid()}.{threading.get_ident()}'
        shutil.move(tmp, new); os.replace(new, out)
        return out
    def many(self, items):
        """[(src, flags, kind)] -> paths, compiled in parallel"""
        with cf.ThreadPoolExecutor(self.jobs) as ex:
            return list(ex.map(lambda t: self.compiled(*t), items))

    def core_sources(self):
        txt = open(f'{REPO}/src/CMakeLists.txt').read()
        m = re.search(r'[Ss][Ee][Tt]\(core_sources([^)]*)\)', txt)
        return [f'{REPO}/src/{x}' for x in m.group(1).split() if x != 'Pythonizations.cc']
    @locked
    def model_units(self, package='vmodel', model='model', args=()):
        """the generated sources, a few per translation unit to save time"""
        out = self.gen(model, package, args)
        srcs = sorted(glob.glob(f'{out}/src/*.cc'))
        groups = {}
        for s in srcs:
            b = os.path.basename(s)[:-3]
            k = re.sub(r'^Mutable', '', b)
            k = re.sub(r'(Obj|CollectionData|Collection|SIOBlock)$', '', k)
            groups.setdefault(k, []).append(s)
        small = [k for k in groups if len(groups[k]) < 3]
        units = []
        rest = []
        for k, v in groups.items():
            if k in small:
                rest += v
            else:
                # collection separately: it is the big one
                units.append([x for x in v if x.endswith('Collection.cc')])
                units.append([x for x in v if not x.endswith('Collection.cc')])
        if rest:
            units.append(rest)
        paths = []
        for i, u in enumerate(units):
            if not u:
                continue
            p = os.path.join(self.work, f'{package}_unit{i}.cc')
            put(p, ''.join(f'#include "{x}"\n' for x in u))
            paths.append(p)
        return paths

    IRFLAGS = ['-std=c++20', '-O0', '-g', '-fstandalone-debug', '-fno-discard-value-names', '-Xclang', '-disable-O0-optnone', '-w']

    @locked
    def ir_items(self, sources):
        items = []
        for s in sources:
            if isinstance(s, tuple):
                p = os.path.join(self.work, s[0])
                put(p, s[1])
                s = p
            items.append((s, self.IRFLAGS, 'ir'))
        return items
    def ir(self, sources):
        """IR modules of translation units (paths, or (name, text))"""
        import ll
        paths = self.many(self.ir_items(sources))
        # identifies the preprocessed sources the obligations are generated from
        self.irkey = hashlib.sha256(' '.join(sorted(os.path.basename(p) for p in paths)).encode()).hexdigest()[:24]
        return [ll.Module(open(p).read()) for p in paths]

    def harness_items(self, src, model=True, extra=(), flags=None, core=True):
        flags = flags or SAN
        items = [(src, flags, 'obj')]
        if core:
            items += [(s, flags, 'obj') for s in self.core_sources()]
        if model:
            items += [(s, flags, 'obj') for s in self.model_units()]
        items += [(s, flags, 'obj') for s in extra]
        return items
    def harness(self, src, **o):
        """link a run-time contract harness against the code of the working tree"""
        items = self.harness_items(src, **o)
        flags = items[0][1]
        objs = self.many(items)
        exe = os.path.join(self.work, os.path.basename(src) + '.exe')
        run([CXX, *[f for f in flags if f.startswith('-fsan') or f.startswith('-fno-san') or f == '-pthread'], LD, *objs, '-o', exe, '-lstdc++fs'])
        return exe
