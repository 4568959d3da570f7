from common import *

def flip(h):
    # unambiguous with one server only
    if len([1 for e in h['ev'] if e['k'] == 'c' and e['o'] == 'createSrv']) != 1:
        return None
    return falsify('hasClients', lambda a: [1 - a[0]])(h)

def body(c):
    exe = rr_exe()
    work = rrmodel(c, 'q4') + [
        rr(c, exe, 'seq', 'connect', 900, 1, 900, corrupt=flip),
        rr(c, exe, 'seq', 'mixed', 300, 1, 300, seed=30, corrupt=flip),
        rr(c, exe, 'conc', 'mixed', 800, 5, 1500, seed=30),
    ] + ([] if not c.thorough() else rrmodel(c, 't1'))
    c.parallel(work, 3)

if __name__ == '__main__':
    sys.exit(vc.main('C12', 'model_checking', 'random programs of clients, servers (up to the limits and beyond) and the daemon on the real daemon core; sequential ones and ones of 2..4 threads under serial, random and priority schedules; an execution counts once per distinct history', body))
