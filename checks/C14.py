from common import *

def body(c):
    exe = obj_exe('rd')
    def wrong(h):
        # a port of somebody is missing or a stranger gets an answer
        for e in reversed(h['ev']):
            if e['k'] == 'r' and e['o'] == 'shutdown':
                e['a'] = e['a'][1:] if e['a'] else [77]
                return h
    c.parallel(objmodel(c, 'ProcsModel', *(('t1', 't2') if c.thorough() else ('q1', 'q2')), heap='12g' if c.thorough() else '6g') + [
        obj(c, exe, 'ProcsTrace', ['procs', c.seed, 6000, 0, 6000], 'processes', corrupt=wrong, scale=(2, 4)),
        obj(c, exe, 'ProcsTrace', ['threads', c.seed + 1, 1500, 12, 8000], 'threads', corrupt=wrong, scale=(2, 4))], 3)

if __name__ == '__main__':
    sys.exit(vc.main('C14', 'model_checking', 'the whole daemon with all its threads in virtual time; random histories of up to six applications that start, register with every kind of version, register again, crash, give signs of life or fall silent, create all six kinds of ports up to every limit, unregister, ask as unknown processes and send malformed messages under all compatibility levels, monitored or not; three applications at once under random schedules; every answer, the complete list of ports and the processes signalled at shutdown are judged; an execution counts once per distinct history', body))
