from common import *

def body(c):
    exe, rx = ps_exe(), rr_exe()
    work = [
        ps(c, exe, 'seq', 'limits', 500, 1, 500, corrupt=falsify('loan', lambda a: [0, 2] if a[0] else [0, 3 - a[1]])),
        ps(c, exe, 'conc', 'limits', 800, 5, 1500),
        rr(c, rx, 'seq', 'memory', 300, 1, 300, seed=50),
        rr(c, rx, 'conc', 'memory', 500, 5, 800, seed=50),
    ]
    c.parallel(work, 3)

if __name__ == '__main__':
    sys.exit(vc.main('C10', 'model_checking', 'random programs of publishers, subscribers and the daemon on the real daemon core; sequential ones and ones of 2..4 threads under serial+forced-preemption, random and priority schedules at every atomic operation and lock; an execution counts once per distinct history', body))
