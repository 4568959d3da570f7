from common import *

def body(c):
    exe = obj_exe('codec')
    def wrong(h):
        for e in reversed(h['ev']):
            if e['k'] == 'r':
                e['a'] = e['a'][:-1] + [e['a'][-1] + 1]
                return h
    c.parallel(objmodel(c, 'CodecModel', 't1' if c.thorough() else 'q1') + [
        obj(c, exe, 'CodecTrace', [k, c.seed + n, p, p], k, corrupt=wrong, scale=(2, 3))
        for n, (k, p) in enumerate((('msg', 6000), ('ser', 6000)))], 3)

if __name__ == '__main__':
    sys.exit(vc.main('C21', 'model_checking', 'random sequences of operations on control messages, and random values of every serialised type of the control protocol (service description, options of the four kinds of port, version, port configuration, and a mixed list of values), read back unaltered and after removing, replacing or inserting characters, cutting and oversized lengths; an execution counts once per distinct history', body))
