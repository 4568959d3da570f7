from common import *

def body(c):
    exe = obj_exe('dm')
    def wrong(h):
        # a search finds something else
        for e in reversed(h['ev']):
            if e['k'] == 'r' and e['o'] in ('find', 'list'):
                e['a'] = e['a'] + [23]
                return h
    c.parallel(objmodel(c, 'DaemonModel', *(('t1', 't2') if c.thorough() else ('q1', 'q2')), heap='12g' if c.thorough() else '6g') + [
        obj(c, exe, 'DaemonTrace', ['registry', c.seed, 3000, 0, 3000], 'registry', corrupt=wrong, scale=(2, 4)),
        obj(c, exe, 'DaemonTrace', ['find', c.seed + 1, 3000, 0, 3000], 'find', corrupt=wrong, scale=(2, 4)),
        obj(c, exe, 'DaemonTrace', ['threads', c.seed + 2, 250, 40, 8000], 'threads', corrupt=wrong, scale=(2, 4))], 3)

if __name__ == '__main__':
    sys.exit(vc.main('C15', 'model_checking', 'random sequences of registrations, removals and searches on the real registry up to its capacity; random histories of ports that offer, stop, are destroyed, of processes that end, of discovery runs and of searches through the real ServiceDiscovery; interleavings of a user, the daemon and a searching process at every atomic operation; an execution counts once per distinct history', body))
