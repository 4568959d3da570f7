from common import *

def body(c):
    exe = obj_exe('lk')
    def owner(h):
        # a second one gets the lock
        for e in h['ev']:
            if e['k'] == 'r' and e['o'] in ('try', 'acquire') and e['a'] == [0]:
                e['a'] = [1]
                return h
    def invented(h):
        for e in reversed(h['ev']):
            if e['k'] == 'r' and e['o'] in ('tryWait', 'copy'):
                e['a'] = [1 - e['a'][0] if e['o'] == 'tryWait' else e['a'][0] + 1]
                return h
    T = lambda mode, k, n, m, corrupt: obj(c, exe, 'LockTrace', [mode, c.seed + k, n, m, n * m if m else n], mode, corrupt=corrupt, scale=(2, 4))
    c.parallel(objmodel(c, 'LockModel', 'q1', 'q2', 'q3', 'q4', 'q5') + [
        T('spin', 1, 500, 10, owner), T('mutex', 2, 300, 10, owner), T('mutexkill', 3, 300, 15, None),
        T('sem', 4, 500, 10, invented), T('semkill', 5, 200, 10, None),
        T('file', 6, 500, 16, owner), T('filekill', 7, 300, 12, None),
        T('named', 8, 1500, 0, None), T('smart', 9, 400, 10, invented)], 3)

if __name__ == '__main__':
    sys.exit(vc.main('C22', 'model_checking', 'random programs of 2..4 threads (or processes) on one lock, semaphore, file lock or smart_lock, under serial, forced-preemption, random and priority schedules at every atomic, mutex, semaphore and file operation, with and without a thread dying at any of them; an execution counts once per distinct history', body))
