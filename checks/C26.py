from common import *

def body(c):
    exe = obj_exe('rd')
    def wrong(h):
        # one block more in use
        for e in reversed(h['ev']):
            if e['k'] == 'r' and e['o'] == 'report':
                e['a'][-1] += 1
                return h
    c.parallel(objmodel(c, 'ProcsModel', *(('t1', 't2') if c.thorough() else ('q1', 'q2')), heap='12g' if c.thorough() else '6g') + [
        obj(c, exe, 'ProcsTrace', ['intro', c.seed, 3000, 0, 3000], 'reports', corrupt=wrong, scale=(2, 4)),
        obj(c, exe, 'ProcsTrace', ['intro', c.seed + 1, 3000, 0, 3000], 'more reports', corrupt=wrong, scale=(2, 4))], 3)

if __name__ == '__main__':
    sys.exit(vc.main('C26', 'model_checking', 'the whole daemon with its introspection threads in virtual time; random histories of applications that register, crash, fall silent, create, give up, offer and subscribe ports and borrow and return memory; after every few steps the reports on processes, ports, subscription states and pools received by a real subscriber are compared entry by entry with the specification; an execution counts once per distinct history', body))
