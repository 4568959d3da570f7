from common import *

def body(c):
    exe = obj_exe('dm')
    one = obj_exe('dm', config='small1n')
    def wrong(h):
        # an identity is given twice
        for e in reversed(h['ev']):
            if e['k'] == 'r' and e['o'] == 'create' and e['a'][0] == 1:
                e['a'][1] -= 1
                return h
    c.parallel(objmodel(c, 'DaemonModel', 't1' if c.thorough() else 'q1', heap='12g' if c.thorough() else '6g') + [
        obj(c, exe, 'DaemonTrace', ['slots', c.seed, 6000, 0, 6000], 'slots', corrupt=wrong, scale=(2, 4)),
        obj(c, one, 'DaemonTrace', ['slots', c.seed + 1, 3000, 0, 3000], 'slots, one publisher per service', corrupt=wrong, scale=(2, 4))], 3)

if __name__ == '__main__':
    sys.exit(vc.main('C19', 'model_checking', 'random histories of ports of all six kinds created by three processes up to every limit, given up, ended with their process, and of discovery runs, under both communication policies; the complete list of ports with owner, service and state is judged; an execution counts once per distinct history', body))
