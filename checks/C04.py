from common import *

def body(c):
    exe, rx = ps_exe(), rr_exe()
    work = [
        ps(c, exe, 'seq', 'memory', 300, 1, 300, corrupt=falsify('used', lambda a: [a[0] + 1])),
        ps(c, exe, 'seq', 'connect', 120, 1, 120, seed=20),
        ps(c, exe, 'conc', 'memory', 1200, 5, 2000, corrupt=falsify('used', lambda a: [a[0] + 1])),
        ps(c, exe, 'conc', 'connect', 600, 5, 800, seed=20),
        rr(c, rx, 'conc', 'memory', 300, 5, 500, seed=20, corrupt=falsify('used', lambda a: [a[0] + 1])),
        ps(c, exe, 'block', 'mixed', 400, 5, 600, seed=20),
    ]
    c.parallel(work, 3)

if __name__ == '__main__':
    sys.exit(vc.main('C04', 'model_checking', 'random programs of publishers, subscribers and the daemon on the real daemon core; sequential ones and ones of 2..4 threads under serial+forced-preemption, random and priority schedules at every atomic operation and lock; an execution counts once per distinct history', body))
