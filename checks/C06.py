from common import *

def body(c):
    exe = ps_exe()
    work = psmodel(c, 'q1') + [
        ps(c, exe, 'seq', 'history', 300, 1, 300, corrupt=wrong_sample),
        ps(c, exe, 'conc', 'history', 1500, 6, 3000, corrupt=wrong_sample),
    ]
    c.parallel(work, 3)

if __name__ == '__main__':
    sys.exit(vc.main('C06', 'model_checking', 'random programs of publishers, subscribers and the daemon on the real daemon core; sequential ones and ones of 2..4 threads under serial+forced-preemption, random and priority schedules at every atomic operation and lock; an execution counts once per distinct history', body))
