from common import *

def body(c):
    exe = ps_exe()
    work = [
        ps(c, exe, 'seq', 'mixed', 300, 1, 300, corrupt=falsify('missed', lambda a: [1 - a[0]])),
        ps(c, exe, 'conc', 'mixed', 1500, 6, 3000, seed=70),
    ]
    c.parallel(work, 3)

if __name__ == '__main__':
    sys.exit(vc.main('C28', 'model_checking', 'random programs of publishers, subscribers and the daemon on the real daemon core; sequential ones and ones of 2..4 threads under serial+forced-preemption, random and priority schedules at every atomic operation and lock; an execution counts once per distinct history', body))
