"""Builds harness binaries from /repo's working tree.  Objects are cached in
/verif/build, keyed on the command and on the contents of every file read."""
import hashlib, json, os, re, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ARABICA_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')

CXX = 'clang++'
BASE = ['-std=c++14', '-O1', '-g1', '-w', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS']
SAN = {'asan': ['-fsanitize=address'],
       'ubsan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr,function,alignment']}

def lib_sources():
    """the library's own source list, without arabica.cpp (built per back end)"""
    m = re.search(r'set\(SOURCE_FILES(.*?)\)', open(os.path.join(REPO, 'CMakeLists.txt')).read(), re.S)
    return [os.path.join(REPO, f) for f in m.group(1).split() if f.endswith('.cpp') and f != 'src/arabica.cpp']

_hashes = {}
def fhash(p):
    if p not in _hashes:
        try: _hashes[p] = hashlib.sha1(open(p, 'rb').read()).hexdigest()
        except OSError: _hashes[p] = 'missing'
    return _hashes[p]

def compile_one(src, flags, extra=()):
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    cmd = [CXX] + BASE + list(flags) + list(extra) + ['-c', src]
    key = hashlib.sha1(' '.join(cmd).encode()).hexdigest()[:20]
    base = os.path.join(BUILD, 'obj', os.path.basename(src) + '.' + key)
    obj, meta, dep = base + '.o', base + '.json', base + '.d'
    if os.path.exists(obj) and os.path.exists(meta):
        m = json.load(open(meta))
        if all(fhash(p) == h for p, h in m.items()): return obj
    tmp = '%s.%d.%d' % (base, os.getpid(), threading.get_ident())
    r = subprocess.run(cmd + ['-MD', '-MF', tmp + '.d', '-o', tmp + '.o'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stderr.write(r.stdout.decode('utf8', 'replace')[:8000])
        raise SystemExit('compilation of %s failed' % src)
    deps = open(tmp + '.d').read().replace('\\\n', ' ').split(':', 1)[1].split()
    json.dump({p: fhash(p) for p in deps if not p.startswith('/usr/')}, open(tmp + '.json', 'w'))
    os.remove(tmp + '.d')
    os.replace(tmp + '.o', obj); os.replace(tmp + '.json', meta)
    return obj

def build(name, tus, libs, san='asan', backends=('expat',), fuzzer=False):
    """tus: list of (harness source, backend or None)"""
    incl = ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(ROOT, 'engine'), '-I' + os.path.join(ROOT, 'harness')]
    conf = lambda b: ['-I' + os.path.join(ROOT, 'harness', 'config', b)] + ['-I/usr/include/libxml2']
    sanf = list(SAN[san])
    if fuzzer: sanf = sanf + ['-fsanitize=fuzzer-no-link']
    jobs = [(os.path.join(ROOT, 'harness', t), sanf + incl + conf(b or 'expat')) for t, b in tus]
    jobs.append((os.path.join(ROOT, 'engine', 'pbt_main.cpp'), sanf + incl + (['-DPBT_FUZZER'] if fuzzer else [])))
    for s in lib_sources(): jobs.append((s, sanf + incl + conf('expat')))
    for i, b in enumerate(backends):
        src = os.path.join(REPO, 'src', 'arabica.cpp') if i == 0 else os.path.join(ROOT, 'harness', 'config', b, 'wrapper.cpp')
        jobs.append((src, sanf + incl + conf(b) + ['-I' + os.path.join(REPO, 'src')]))
    with ThreadPoolExecutor(max_workers=max(8, os.cpu_count() or 8)) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    out = os.path.join(BUILD, name + ('-fuzz' if fuzzer else ''))
    stamp = hashlib.sha1(''.join(o + str(os.stat(o).st_mtime_ns) for o in objs).encode()).hexdigest()
    try:
        if os.path.exists(out) and open(out + '.stamp').read() == stamp: return out
    except OSError: pass
    link = [CXX] + sanf + (['-fsanitize=fuzzer'] if fuzzer else []) + objs + ['-o', out + '.tmp'] + libs + ['-lpthread']
    r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stderr.write(r.stdout.decode('utf8', 'replace')[:8000])
        raise SystemExit('link of %s failed' % name)
    os.replace(out + '.tmp', out)
    open(out + '.stamp', 'w').write(stamp)
    return out
