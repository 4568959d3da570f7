from common import *

def body(c):
    exe = ps_exe()
    work = psmodel(c, 'q1') + [
        ps(c, exe, 'seq', 'mixed', 250, 1, 250, corrupt=wrong_sample),
        ps(c, exe, 'conc', 'mixed', 1200, 5, 2200, corrupt=wrong_sample),
        ps(c, exe, 'conc', 'memory', 600, 5, 1000, seed=50),
    ] + ([] if not c.thorough() else psmodel(c, 't1'))
    c.parallel(work, 3)

if __name__ == '__main__':
    sys.exit(vc.main('C01', 'model_checking', 'random programs of publishers, subscribers and the daemon on the real daemon core; sequential ones and ones of 2..4 threads under serial+forced-preemption, random and priority schedules at every atomic operation and lock; an execution counts once per distinct history', body))
