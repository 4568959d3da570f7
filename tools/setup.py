"""compiles /repo's libraries once, so that the checks only compile what changed since"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks'))
import ioxbuild, common
try:
    print(ioxbuild.build('cq', ['cq.cpp', 'fib.cpp', 'errh.cpp']))
    for n in ('seqs', 'str', 'vals', 'relp'):
        print(ioxbuild.build(n, [n + '.cpp', 'fib.cpp', 'errh.cpp']))
    for n in ('ps', 'rr', 'cv', 'ws', 'ls', 'codec', 'loan', 'dm', 'lk', 'ch', 'rd', 'sg'):
        print(ioxbuild.build(n, [n + '.cpp', 'fib.cpp', 'errh.cpp'], libs=('platform', 'hoofs', 'posh')))
    print(common.hb_exe())
    print(ioxbuild.build('dm', ['dm.cpp', 'fib.cpp', 'errh.cpp'], cfg='small1n', libs=('platform', 'hoofs', 'posh')))
except ioxbuild.BuildError as e:
    print(e)
