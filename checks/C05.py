from common import *

def body(c):
    exe = obj_exe('loan')
    def wrong(h):
        # a loan reaches beyond its block
        for e in reversed(h['ev']):
            if e['k'] == 'o':
                e['a'][9] += 100000
                return h
    k = 4 if c.thorough() else 1
    c.parallel(objmodel(c, 'LoanModel', *(('t1', 't2') if c.thorough() else ('q1', 'q2'))) + [
        obj(c, exe, 'LoanTrace', ['layout', c.seed, 5000, 0, 5000], 'layout', corrupt=wrong, scale=(2, 4)),
        obj(c, exe, 'LoanTrace', ['port', c.seed + 1, 5000, 0, 5000], 'port', corrupt=wrong, scale=(2, 4)),
        obj(c, exe, 'LoanTrace', ['pools', c.seed + 2, 250, 60, 9000], 'pools', corrupt=wrong, scale=(2, 4))], 3)

if __name__ == '__main__':
    sys.exit(vc.main('C05', 'model_checking', 'random requests (sizes at and around what the pools hold, near 2^64 and in between, alignments up to 2^30, user headers) to 1..3 real pools of 1..3 blocks at varying addresses, by one thread, by a publisher port with history, and by up to 3 threads interleaved at every atomic operation; an execution counts once per distinct history', body))
