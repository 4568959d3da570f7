from common import *

def body(c):
    exe = obj_exe('vals', libs=('platform', 'hoofs'))
    def wrong(h):
        # the number of living objects in the last answer (there it is followed by the error counter, 0)
        for e in reversed(h['ev']):
            if e['k'] == 'r' and len(e['a']) > 1:
                e['a'][-1] += 1
                return h
    c.parallel(objmodel(c, 'ValsModel', 't1' if c.thorough() else 'q1') + [
        obj(c, exe, 'ValsTrace', [k, c.seed + n, 4000, 2500], k, corrupt=wrong, scale=(2, 3))
        for n, k in enumerate(('opt', 'var', 'exp', 'expv', 'fn', 'guard', 'uptr'))], 3)

if __name__ == '__main__':
    sys.exit(vc.main('C29', 'model_checking', 'random sequences of 8..27 operations on three real objects of each kind (optional, variant, expected, expected<void>, function, scope guard, unique_ptr) with life-tracked contents; contents, living objects and actions after each operation are judged; an execution counts once per distinct history', body))
