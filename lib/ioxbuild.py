"""Content-hash based build of /repo's sources (with the verification hooks on) and of the harnesses.

Objects are reused only if the exact bytes of the source and of every header it included, and the command line, are
unchanged; so a check always judges /repo's current working tree."""
import concurrent.futures as cf, glob, hashlib, json, os, re, subprocess, sys, fcntl

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
CXX = 'g++'

# small limits, so that every limit can be reached within small models
SMALL = dict(IOX_MAX_PUBLISHERS=10, IOX_MAX_SUBSCRIBERS=6, IOX_MAX_INTERFACE_NUMBER=2, IOX_MAX_SUBSCRIBERS_PER_PUBLISHER=3,
             IOX_MAX_CHUNKS_ALLOCATED_PER_PUBLISHER_SIMULTANEOUSLY=3, IOX_MAX_PUBLISHER_HISTORY=3,
             IOX_MAX_CHUNKS_HELD_PER_SUBSCRIBER_SIMULTANEOUSLY=3, IOX_MAX_PROCESS_NUMBER=4, IOX_MAX_NODE_NUMBER=4,
             IOX_MAX_SHM_SEGMENTS=8, IOX_MAX_NUMBER_OF_MEMPOOLS=6, IOX_MAX_NUMBER_OF_CONDITION_VARIABLES=5,
             IOX_MAX_SERVERS=3, IOX_MAX_CLIENTS=4, IOX_MAX_RESPONSES_PROCESSED_SIMULTANEOUSLY=2,
             IOX_MAX_RESPONSE_QUEUE_CAPACITY=3, IOX_MAX_REQUEST_QUEUE_CAPACITY=3, IOX_MAX_CLIENTS_PER_SERVER=2,
             IOX_MAX_REQUESTS_PROCESSED_SIMULTANEOUSLY=2, IOX_MAX_NUMBER_OF_NOTIFIERS=4)
CONFIGS = {
    'small': SMALL,
    'small1n': dict(SMALL, IOX_COMMUNICATION_POLICY='OneToManyPolicy'),
    'default': {},
}

class BuildError(Exception):
    pass

def sh1(*parts):
    h = hashlib.sha1()
    for x in parts:
        h.update(x if isinstance(x, bytes) else str(x).encode()); h.update(b'\0')
    return h.hexdigest()

def read(p):
    with open(p, 'rb') as f:
        return f.read()

def _options(path):
    s = read(path).decode()
    return {m.group(1): m.group(2).strip('"') for m in re.finditer(r'NAME\s+(\w+)\s+DEFAULT_VALUE\s+(\S+)', s)}

def _configure(src, dst, vals):
    s = read(src).decode()
    def sub(m):
        if m.group(1) not in vals:
            raise BuildError('no value for %s in %s' % (m.group(1), src))
        return str(vals[m.group(1)])
    s = re.sub(r'@(\w+)@', sub, s)
    s = re.sub(r'^#cmakedefine\s+(\w+).*$', r'#define \1', s, flags=re.M)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    if not os.path.exists(dst) or read(dst).decode() != s:
        with open(dst, 'w') as f:
            f.write(s)

def generate(cfg):
    """the headers cmake would configure"""
    g = os.path.join(BUILD, cfg, 'gen')
    over = CONFIGS[cfg]
    v = _options(REPO + '/iceoryx_platform/linux/cmake/IceoryxPlatformDeployment.cmake')
    v.update(IOX_CFG_FEATURE_ACL=1)
    _configure(REPO + '/iceoryx_platform/linux/cmake/platform_settings.hpp.in', g + '/iceoryx_platform/platform_settings.hpp', v)
    v = _options(REPO + '/iceoryx_hoofs/cmake/IceoryxHoofsDeployment.cmake'); v.update(IOX_HOOFS_SUBSET=0)
    v.update({k: x for k, x in over.items() if k in v})
    _configure(REPO + '/iceoryx_hoofs/cmake/iceoryx_hoofs_deployment.hpp.in', g + '/iox/iceoryx_hoofs_deployment.hpp', v)
    v = _options(REPO + '/iceoryx_posh/cmake/IceoryxPoshDeployment.cmake')
    v.update(IOX_MAX_NODE_NAME_LENGTH=87, IOX_MAX_RUNTIME_NAME_LENGTH=87, IOX_COMMUNICATION_POLICY='ManyToManyPolicy',
             IOX_INTERPROCESS_LOCK='mutex', IOX_INTERPROCESS_SEMAPHORE='UnnamedSemaphore',
             IOX_EXPERIMENTAL_POSH_FLAG='false', IOX_ROUDI_DEFAULT_MONITORING_MODE_ON='false')
    v.update(over)
    _configure(REPO + '/iceoryx_posh/cmake/iceoryx_posh_deployment.hpp.in', g + '/iceoryx_posh/iceoryx_posh_deployment.hpp', v)
    ver = (read(REPO + '/VERSION').decode().strip() or '0.0.0').split('.')
    v = dict(IOX_VERSION_STRING='.'.join(ver), IOX_VERSION_MAJOR=ver[0], IOX_VERSION_MINOR=ver[1], IOX_VERSION_PATCH=ver[2],
             IOX_VERSION_TWEAK=0, ICEORYX_SHA1='', CMAKE_PROJECT_VERSION='.'.join(ver), GIT_COMMIT_SHA1='')
    src = REPO + '/iceoryx_platform/cmake/iceoryx_versions.h.in'
    for n in re.findall(r'@(\w+)@', read(src).decode()):
        if n not in v:
            v[n] = ver[0] if 'MAJOR' in n else ver[1] if 'MINOR' in n else ver[2] if 'PATCH' in n else 0 if 'TWEAK' in n else ''
    _configure(src, g + '/iceoryx_versions.h', v)
    return g

def includes(cfg):
    g = os.path.join(BUILD, cfg, 'gen')
    inc = [VERIF + '/harness', g, REPO + '/iceoryx_platform/generic/include', REPO + '/iceoryx_platform/linux/include']
    inc += sorted(glob.glob(REPO + '/iceoryx_hoofs/*/include')) + sorted(glob.glob(REPO + '/iceoryx_hoofs/*/*/include'))
    inc = [i for i in inc if '/testing/' not in i and '/test/' not in i and '/legacy/' not in i or '/verif' in i]
    inc += [REPO + '/iceoryx_hoofs/legacy/include', REPO + '/iceoryx_posh/include', REPO + '/iceoryx_posh/experimental/include',
            REPO + '/iceoryx_posh/roudi_env/include', REPO + '/iceoryx_binding_c/include']
    return inc

def sources(lib):
    if lib == 'platform':
        r = glob.glob(REPO + '/iceoryx_platform/generic/source/*.cpp') + glob.glob(REPO + '/iceoryx_platform/linux/source/*.cpp')
    elif lib == 'hoofs':
        r = [f for f in glob.glob(REPO + '/iceoryx_hoofs/**/source/*.cpp', recursive=True) if '/test' not in f]
    elif lib == 'posh':
        r = [f for f in glob.glob(REPO + '/iceoryx_posh/source/**/*.cpp', recursive=True)
             if 'toml' not in f and not f.endswith('roudi_main.cpp') and '/test' not in f and 'gateway_config.cpp' not in f]
        r += glob.glob(REPO + '/iceoryx_posh/experimental/source/*.cpp')
    elif lib == 'binding_c':
        r = glob.glob(REPO + '/iceoryx_binding_c/source/*.cpp')
    elif lib == 'roudi_env':
        r = glob.glob(REPO + '/iceoryx_posh/roudi_env/source/*.cpp')
    else:
        raise BuildError('unknown lib ' + lib)
    return sorted(r)

_hcache = {}
def fhash(p):
    if p not in _hcache:
        try:
            _hcache[p] = sh1(read(p))
        except OSError:
            _hcache[p] = None
    return _hcache[p]

def compile_one(src, objdir, flags, cxx=None):
    name = sh1(src, ' '.join(flags))[:16] + '_' + os.path.basename(src)
    obj, meta, dep = (os.path.join(objdir, name + e) for e in ('.o', '.json', '.d'))
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.loads(read(meta))
            if all(fhash(k) == v for k, v in m['deps'].items()):
                return obj, False, m['key']
        except Exception:
            pass
    cmd = [cxx or CXX] + flags + ['-MD', '-MF', dep, '-c', src, '-o', obj]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError('compiling %s failed:\n%s' % (src, r.stdout[-4000:]))
    deps = re.sub(r'\\\n', ' ', read(dep).decode()).split(':', 1)[1].split()
    d = {os.path.abspath(x): fhash(os.path.abspath(x)) for x in deps if not x.startswith('/usr/')}
    key = sh1(json.dumps(sorted(d.items())), ' '.join(flags))
    with open(meta, 'w') as f:
        json.dump(dict(deps=d, key=key), f)
    return obj, True, key

BASE = ['-std=gnu++17', '-O1', '-g1', '-fno-omit-frame-pointer', '-w', '-pthread', '-fPIC']

def build(name, srcs, libs=('platform', 'hoofs'), cfg='small', hooks=True, extra=(), link=(), jobs=8, cxx=None, plain=(), only=()):
    """builds harness `name` from srcs (under /verif/harness) and the given libs of /repo; returns the executable. The
    sources in `plain` are compiled without the flags in `only`"""
    os.makedirs(os.path.join(BUILD, cfg), exist_ok=True)
    with open(os.path.join(BUILD, cfg, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        generate(cfg)
        objdir = os.path.join(BUILD, cfg, 'obj')
        os.makedirs(objdir, exist_ok=True)
        flags = BASE + (['-DIOX_VERIF_HOOKS'] if hooks else []) + list(extra) + ['-I' + i for i in includes(cfg)]
        todo = []
        for lib in libs:
            todo += sources(lib)
        todo += [os.path.join(VERIF, 'harness', s) for s in list(srcs) + list(plain)]
        noinstr = [os.path.join(VERIF, 'harness', s) for s in plain]
        # biggest first
        todo.sort(key=lambda s: -os.path.getsize(s))
        with cf.ThreadPoolExecutor(jobs) as ex:
            res = list(ex.map(lambda s: compile_one(s, objdir, flags if s in noinstr else list(only) + flags, cxx), todo))
        bdir = os.path.join(BUILD, cfg, 'bin'); os.makedirs(bdir, exist_ok=True)
        exe = os.path.join(bdir, name)
        key = sh1(json.dumps(sorted(k for _, _, k in res)), ' '.join(link))
        if os.path.exists(exe) and os.path.exists(exe + '.key') and read(exe + '.key').decode() == key:
            return exe
        cmd = [CXX, '-o', exe, '-pthread', '-rdynamic'] + [o for o, _, _ in res] + ['-lrt', '-lacl', '-ldl'] + list(link)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError('linking %s failed:\n%s' % (name, r.stdout[-4000:]))
        with open(exe + '.key', 'w') as f:
            f.write(key)
        return exe
