from common import *

def body(c):
    exe = ps_exe()
    work = psmodel(c, 'q2') + [
        ps(c, exe, 'block', 'mixed', 1500, 5, 3000, corrupt=wrong_sample),
        ps(c, exe, 'block', 'connect', 700, 5, 1200, seed=50),
    ]
    c.parallel(work, 3)

if __name__ == '__main__':
    sys.exit(vc.main('C02', 'model_checking', 'random programs of publishers, subscribers and the daemon on the real daemon core; sequential ones and ones of 2..4 threads under serial+forced-preemption, random and priority schedules at every atomic operation and lock; an execution counts once per distinct history', body))
