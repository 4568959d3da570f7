from common import *

def corrupt(h):
    for e in reversed(h['ev']):
        if e['k'] == 'r' and e['o'] == 'pop' and e['a']:
            e['a'] = [777]
            return h
    return None

def body(c):
    exe = ioxbuild.build('cq', ['cq.cpp'] + FIB)
    n = 300000 if c.thorough() else 25000
    m = 30000 if c.thorough() else 2500
    work = []
    for t in ('mpmc', 'resize', 'sofi', 'fifo'):
        work.append(lambda t=t: traces(c, exe, 'QueueTrace', 'queue ' + t, [t, c.seed, n, m, 0], corrupt=corrupt, workers=3))
    models = ['MpmcAlgo_q1', 'MpmcAlgo_q2', 'MpmcAlgo_q3', 'SofiAlgo_q1', 'SofiAlgo_q2']
    if c.thorough():
        models += ['MpmcAlgo_t1', 'MpmcAlgo_t2', 'SofiAlgo_t1', 'SofiAlgo_t2']
    for m_ in models:
        work.append(lambda m_=m_: c.model(m_.split('_')[0], m_ + '.cfg', workers=3, what='lock-free algorithm refines Queue'))
    c.parallel(work, 3)

if __name__ == '__main__':
    sys.exit(vc.main('C08', 'model_checking',
        'random programs of 2..3 threads on queues of capacity 1..4, under serial+forced-preemption, random and '
        'priority schedules at every atomic operation; an execution counts once per distinct history of calls and returns', body))
