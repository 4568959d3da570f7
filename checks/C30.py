from common import *

def no_acquire(h):
    """without its acquiring operations, any hand-over of data is a race"""
    last, pair = {}, False
    for e in h['ev']:
        if e['k'] in ('R', 'W') and e['t'] != 1:
            for x in e['x']:
                pair = pair or (x in last and last[x] != e['t'])
                if e['k'] == 'W':
                    last[x] = e['t']
        if 'a' in e:
            e['a'] = 0
    return h if pair else None

def body(c):
    exe = hb_exe()
    weak = ['slot_norel', 'slot_noacq', 'count_norel', 'count_noacq', 'last_noacq', 'last_norel', 'fence_none', 'lock_norel', 'lock_noacq']
    def models():
        for n in 'slot', 'count', 'last', 'fence', 'lock':
            c.model('HbModel', 'HbModel_%s.cfg' % n, workers=2, what='hand-over protocol, all interleavings: no race')
        for n in weak:
            c.model('HbModel', 'HbModel_%s.cfg' % n, workers=2, expect=12, what='weakened memory order: a race, as expected')
    def scene(name, programs, schedules, keep, corrupt=None):
        return obj(c, exe, 'HbTrace', [name, c.seed, programs, schedules, keep], 'hb ' + name, corrupt=corrupt, scale=(2, 4), thorough=6)
    c.parallel([
        scene('ports', 250, 10, 1200, no_acquire),
        scene('rr', 250, 10, 1000),
        scene('mpmc', 500, 10, 3000, no_acquire),
        scene('resize', 300, 10, 1500),
        scene('sofi', 500, 10, 3000, no_acquire),
        scene('fifo', 400, 10, 2000),
        scene('loffli', 500, 10, 3000, no_acquire),
        scene('listener', 300, 10, 2000),
        scene('trigger', 300, 10, 1500),
        scene('cv', 300, 10, 1500, no_acquire),
        scene('lock', 300, 10, 1500),
        models,
    ], 3)

if __name__ == '__main__':
    sys.exit(vc.main('C30', 'model_checking', 'random programs of 2..5 threads handing data over through the real queues, free list, chunks, ports, condition variables, locks, WaitSet and Listener under controlled schedules; every memory access of the real code with its declared memory order is recorded by compiler instrumentation, and the happens-before relation of the language, specified in TLA+, must order all conflicting accesses; an execution counts once per distinct sequence of accesses', body))
