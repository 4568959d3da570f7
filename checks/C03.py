from common import *

def body(c):
    exe = ps_exe()
    work = [
        ps(c, exe, 'seq', 'memory', 300, 1, 300, corrupt=falsify('rel', lambda a: [a[0] + 1])),
        ps(c, exe, 'seq', 'history', 150, 1, 150, seed=20),
        ps(c, exe, 'conc', 'memory', 1500, 5, 3000),
    ] + ([] if not c.thorough() else psmodel(c, 't1'))
    c.parallel(work, 3)

if __name__ == '__main__':
    sys.exit(vc.main('C03', 'model_checking', 'random programs of publishers, subscribers and the daemon on the real daemon core; sequential ones and ones of 2..4 threads under serial+forced-preemption, random and priority schedules at every atomic operation and lock; an execution counts once per distinct history', body))
