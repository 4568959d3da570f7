from common import *

wrong_answer = falsify('cTake', lambda a: [a[0], a[1] + 1000] if len(a) > 1 else None)
wrong_request = falsify('sTake', lambda a: [a[0] + 1000, a[1]] if len(a) > 1 else None)

def body(c):
    exe = rr_exe()
    work = rrmodel(c, 'q1', 'q2') + [
        rr(c, exe, 'seq', 'mixed', 300, 1, 300, corrupt=wrong_answer),
        rr(c, exe, 'conc', 'mixed', 1500, 5, 2500, corrupt=wrong_answer),
        rr(c, exe, 'block', 'mixed', 1000, 5, 1500, corrupt=wrong_request),
        rr(c, exe, 'conc', 'memory', 500, 5, 900),
    ] + ([] if not c.thorough() else rrmodel(c, 't1'))
    c.parallel(work, 3)

if __name__ == '__main__':
    sys.exit(vc.main('C11', 'model_checking', 'random programs of clients, a server and the daemon on the real daemon core; sequential ones and ones of 2..4 threads under serial, random and priority schedules at every atomic operation and lock; an execution counts once per distinct history', body))
