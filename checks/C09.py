from common import *

def corrupt(h):
    gets = [e for e in h['ev'] if e['k'] == 'r' and e['o'] == 'get' and e['a']]
    if not gets:
        return None
    gets[-1]['a'] = [h['cfg']['cap'] + 3]
    return h

def body(c):
    exe = ioxbuild.build('cq', ['cq.cpp'] + FIB)
    n = 4000000 if c.thorough() else 500000
    m = 40000 if c.thorough() else 4000
    work = [lambda: traces(c, exe, 'QueueTrace', 'free list', ['loffli', c.seed, n, m, 0], corrupt=corrupt, workers=4),
            lambda: traces(c, exe, 'QueueTrace', 'free list with stopped participants', ['loffli', c.seed + 1000, n, m, 60], corrupt=corrupt, workers=4)]
    for m_ in ['LoffliAlgo_q1', 'LoffliAlgo_q2'] + (['LoffliAlgo_t1', 'LoffliAlgo_t2'] if c.thorough() else []):
        work.append(lambda m_=m_: c.model('LoffliAlgo', m_ + '.cfg', workers=4, what='lock-free free list refines Queue, with a participant stopped anywhere'))
    work.append(lambda: c.model('LoffliAlgo', 'LoffliAlgo_noaba.cfg', workers=2, expect=12,
                                what='sanity: without the change counter TLC finds the ABA history'))
    c.parallel(work, 3)

if __name__ == '__main__':
    sys.exit(vc.main('C09', 'model_checking',
        'random programs of 2..3 threads getting and returning indices of free lists of 1..4, schedules as in C08, and a '
        'thread stopped forever at a random atomic step; distinct histories of calls and returns', body))
