from common import *

def body(c):
    exe = obj_exe('ws')
    def invented(h):
        # reports, at the end, an attachment that was never reported before or never existed
        for e in reversed(h['ev']):
            if e['k'] == 'r' and e['o'] in ('wait', 'timedWait'):
                e['a'] = e['a'] + [max([x['a'][1] for x in h['ev'] if x['k'] == 'c' and x['o'].startswith('attach')] + [0]) + 1]
                return h
    def lost(h):
        if any(e['k'] == 'c' and e['o'] == 'mark' for e in h['ev']):
            return None
        return falsify('timedWait', lambda a: [1] if a[0] == 0 and len(a) > 1 else None)(h)
    c.parallel(objmodel(c, 'WaitSetModel', 't1' if c.thorough() else 'q1') + [
        obj(c, exe, 'WaitSetTrace', ['seq', c.seed, 900, 1, 900], 'ws seq', corrupt=lost, scale=(2, 4)),
        obj(c, exe, 'WaitSetTrace', ['conc', c.seed + 10, 900, 8, 2500], 'ws conc', corrupt=invented, scale=(2, 4)),
    ], 3)

if __name__ == '__main__':
    sys.exit(vc.main('C16', 'model_checking', 'random programs on a real WaitSet with user triggers, subscribers, a server and a client of the real daemon core: one thread attaches, detaches, takes and waits, others fire, under serial, forced-preemption, random and priority schedules; an execution counts once per distinct history', body))
