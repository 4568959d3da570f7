from common import *

def body(c):
    exe = ps_exe()
    work = psmodel(c, 'q3') + [
        ps(c, exe, 'seq', 'connect', 250, 1, 250, corrupt=falsify('subState', lambda a: [1 - a[0]])),
        ps(c, exe, 'conc', 'connect', 1500, 6, 2500, corrupt=falsify('subState', lambda a: [1 - a[0]])),
    ]
    c.parallel(work, 3)

if __name__ == '__main__':
    sys.exit(vc.main('C07', 'model_checking', 'random programs of publishers, subscribers and the daemon on the real daemon core; sequential ones and ones of 2..4 threads under serial+forced-preemption, random and priority schedules at every atomic operation and lock; an execution counts once per distinct history', body))
