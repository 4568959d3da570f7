from common import *

def body(c):
    exe = obj_exe('relp', libs=('platform', 'hoofs'))
    def wrong(h):
        for e in reversed(h['ev']):
            if e['k'] == 'r':
                e['a'][-1] += 1
                return h
    c.parallel(objmodel(c, 'RelModel', 't1' if c.thorough() else 'q1') + [
        obj(c, exe, 'RelTrace', [k, c.seed + n, p, p], k, corrupt=wrong, scale=(2, 3))
        for n, (k, p) in enumerate((('rel', 6000), ('reloc', 2500), ('bump', 4000)))], 3)

if __name__ == '__main__':
    sys.exit(vc.main('C24', 'model_checking', 'random sequences of registrations, pointer operations and process changes over up to five segments per process (adjacent or with gaps, sizes from 1), of relocations of an arena of pointers, and of allocations; every pointer is resolved after each operation; an execution counts once per distinct history', body))
