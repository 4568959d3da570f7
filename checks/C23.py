from common import *

def body(c):
    exe = obj_exe('seqs', libs=('platform', 'hoofs'))
    def wrong(h):
        # one element of the last answer differs
        for e in reversed(h['ev']):
            if e['k'] == 'r' and e['a'][1] > 0:
                e['a'][1 + e['a'][1]] += 1
                return h
    c.parallel(objmodel(c, 'SeqsModel', 't1' if c.thorough() else 'q1') + [
        obj(c, exe, 'SeqsTrace', [k, c.seed + n, 4000, 2500], k, corrupt=wrong, scale=(2, 3))
        for n, k in enumerate(('vector', 'list', 'flist', 'stack', 'fpc'))] + [
        obj(c, obj_exe('str', libs=('platform', 'hoofs')), 'StrTrace', ['string', c.seed, 6000, 3500], 'string', scale=(2, 3))], 3)

if __name__ == '__main__':
    sys.exit(vc.main('C23', 'model_checking', 'random sequences of 12..36 operations on the real containers of capacity 1, 3, 5 with trivial, trivially copyable and life-tracked elements, and on strings of capacity 1..10; the whole content after each operation is judged; an execution counts once per distinct history', body))
