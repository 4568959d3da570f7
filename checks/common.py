import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vc, ioxbuild  # noqa
from vc import ToolError, Violation  # noqa

FIB = ['fib.cpp', 'errh.cpp']

def traces(c, exe, module, name, args, cfg=None, workers=4, timeout=300, corrupt=None, env=None, tlcenv=None, heap='6g'):
    """record executions with a harness and let TLC judge them"""
    out, st = c.harness(exe, args, name, timeout, env)
    def rerun():
        return c.harness(exe, args, name + '_again', timeout, env)
    lines = c.validate(module, out, name, [exe] + [str(a) for a in args], cfg, workers, rerun=rerun, stats=st, env=tlcenv, heap=heap)
    if corrupt:
        c.corrupted(module, lines, corrupt, name, cfg or '', workers, tlcenv)
    return lines

# ---------------------------------------------------------------- publish/subscribe
POSH = ('platform', 'hoofs', 'posh')

def ps_exe():
    return ioxbuild.build('ps', ['ps.cpp'] + FIB, libs=POSH)

def falsify(op, value):
    """falsifies the last non-empty answer of an operation"""
    def f(h):
        for e in reversed(h['ev']):
            if e['k'] == 'r' and e['o'] == op and e['a']:
                v = value(e['a'])
                if v:
                    e['a'] = v
                    return h
        return None
    return f

wrong_sample = falsify('take', lambda a: [a[0] + 1000] + a[1:] if len(a) > 1 else None)

def ps(c, exe, mode, focus, programs, schedules, keep, seed=0, corrupt=None, weight=None, thorough=8):
    k = thorough if c.thorough() else 1
    return lambda: traces(c, exe, 'PubSubTrace', 'ps %s %s' % (mode, focus),
                          [mode, focus, c.seed + seed, programs * k, schedules, keep * k], corrupt=corrupt, workers=4,
                          env=dict(PS_WEIGHT=str(weight)) if weight else None)
def psmodel(c, *names):
    return [lambda n=n: c.model('PubSubModel', 'PubSubModel_%s.cfg' % n, workers=4,
                                what='all interleavings of publishers, subscribers and daemon on the specification') for n in names]

# ---------------------------------------------------------------- request/response
def rr_exe():
    return ioxbuild.build('rr', ['rr.cpp'] + FIB, libs=POSH)

def rr(c, exe, mode, focus, programs, schedules, keep, seed=0, corrupt=None, thorough=8):
    k = thorough if c.thorough() else 1
    return lambda: traces(c, exe, 'ReqResTrace', 'rr %s %s' % (mode, focus),
                          [mode, focus, c.seed + seed, programs * k, schedules, keep * k], corrupt=corrupt, workers=4)
def rrmodel(c, *names):
    return [lambda n=n: c.model('ReqResModel', 'ReqResModel_%s.cfg' % n, workers=4,
                                what='all interleavings of clients, server and daemon on the specification') for n in names]

# ---------------------------------------------------------------- memory accesses
def hb_exe():
    """the code under test and hb.cpp are compiled with the sanitizer's instrumentation, which race.cpp answers"""
    return ioxbuild.build('hb', ['hb.cpp'], libs=POSH, cxx='clang++', plain=['race.cpp'] + FIB,
                          only=['-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0'])

# ---------------------------------------------------------------- single objects (specifications on top of Lin)
def obj_exe(name, extra=(), config='small', libs=POSH):
    return ioxbuild.build(name, [name + '.cpp'] + FIB + list(extra), libs=libs, cfg=config)

def obj(c, exe, module, args, name, corrupt=None, cfg=None, thorough=8, scale=(0,), tlcworkers=4, env=None):
    """args: arguments of the harness; those at the positions in scale are multiplied in the thorough tier"""
    k = thorough if c.thorough() else 1
    a = [x * k if n in scale else x for n, x in enumerate(args)]
    return lambda: traces(c, exe, module, name, a, corrupt=corrupt, cfg=cfg, workers=tlcworkers, env=env)
def objmodel(c, module, *names, what='all interleavings of small programs on the specification', heap='6g'):
    return [lambda n=n: c.model(module, '%s_%s.cfg' % (module, n), workers=4, what=what, heap=heap) for n in names]
