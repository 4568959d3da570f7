from common import *

def body(c):
    exe, rx = ps_exe(), rr_exe()
    work = psmodel(c, 'q3') + rrmodel(c, 'q3') + [
        ps(c, exe, 'kill', 'mixed', 1200, 6, 2200, corrupt=falsify('used', lambda a: [a[0] + 3])),
        ps(c, exe, 'kill', 'connect', 700, 6, 1200, seed=20),
        ps(c, exe, 'kill', 'memory', 700, 6, 1200, seed=40),
        ps(c, exe, 'kill', 'history', 500, 6, 900, seed=60),
        rr(c, rx, 'kill', 'mixed', 500, 6, 900, seed=80),
        rr(c, rx, 'kill', 'memory', 400, 6, 700, seed=90),
    ] + ([] if not c.thorough() else psmodel(c, 't1'))
    c.parallel(work, 3)

if __name__ == '__main__':
    sys.exit(vc.main('C13', 'model_checking', 'random programs of publishers, subscribers and the daemon on the real daemon core; sequential ones and ones of 2..4 threads under serial+forced-preemption, random and priority schedules at every atomic operation and lock; an execution counts once per distinct history; in each execution one process stops forever at a random atomic step of a random operation and the daemon removes it', body))
