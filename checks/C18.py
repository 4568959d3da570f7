from common import *

def body(c):
    exe = obj_exe('cv')
    lost = falsify('timedWait', lambda a: [1] if a[0] == 0 and len(a) > 1 else None)
    def none(h):
        return None if any(e.get('o') == 'destroy' for e in h['ev']) else lost(h)
    c.parallel(objmodel(c, 'CondVarModel', 't1' if c.thorough() else 'q1') + [
        obj(c, exe, 'CondVarTrace', ['conc', c.seed, 1500, 8, 4000], 'cv conc', corrupt=none, scale=(2, 4)),
        obj(c, exe, 'CondVarTrace', ['kill', c.seed + 50, 800, 8, 2000], 'cv kill', scale=(2, 4)),
    ], 3)

if __name__ == '__main__':
    sys.exit(vc.main('C18', 'model_checking', 'random programs of 1..3 notifying threads, one listening thread and an optional destroying thread on the real condition variable, under serial, forced-preemption, random and priority schedules at every atomic and semaphore operation, with and without a thread stopping forever; an execution counts once per distinct history', body))
