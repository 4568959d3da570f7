from common import *

def body(c):
    exe = obj_exe('sg')
    def wrong(h):
        # somebody gets write access instead of read access or one block less is there
        for e in reversed(h['ev']):
            if e['k'] == 'r' and e['o'] in ('map', 'attach'):
                e['a'] = e['a'] + [1, 1]
                return h
    c.parallel(objmodel(c, 'SegsModel', 't1' if c.thorough() else 'q1') + [
        obj(c, exe, 'SegsTrace', ['users', c.seed, 3000, 0, 3000], 'users', corrupt=wrong, scale=(2, 4)),
        obj(c, exe, 'SegsTrace', ['users', c.seed + 1, 3000, 0, 3000], 'more users', corrupt=wrong, scale=(2, 4))], 3)

if __name__ == '__main__':
    sys.exit(vc.main('C25', 'model_checking', 'random configurations of up to the maximum number of segments and pools, valid or not; users with random sets of groups (a stand-in for the user database); per configuration all blocks of all segments are taken, located, written and read back, users are told their segments, attach to them as a second process would, and get memory to publish; access lists of the segments are read back; an execution counts once per distinct history', body))
