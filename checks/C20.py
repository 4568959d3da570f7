from common import *

def body(c):
    exe = obj_exe('ch')
    def lost(h):
        # the first message that arrived is another one
        for e in h['ev']:
            if e['k'] == 'r' and e['o'] in ('receive', 'tryReceive', 'timedReceive') and len(e['a']) == 3:
                e['a'] = [1, e['a'][1] + 50, e['a'][2]]
                return h
    T = lambda mode, k, n, m: obj(c, exe, 'ChannelTrace', [mode, c.seed + k, n, m, n * m if m else n], mode, corrupt=lost, scale=(2, 4))
    c.parallel(objmodel(c, 'ChannelModel', 'q1', 'q2', 'q3', 'q4') + [
        T('pipe', 1, 600, 10), T('uds', 2, 300, 8), T('mq', 3, 500, 10),
        T('pipelife', 4, 600, 0), T('udslife', 5, 1000, 0), T('mqlife', 6, 600, 0)], 3)

if __name__ == '__main__':
    sys.exit(vc.main('C20', 'model_checking', 'random programs of senders and receivers on one channel (named pipe, unix domain socket, message queue) under serial, forced-preemption, random and priority schedules, with messages of every length up to and beyond the limit and queues up to and beyond their capacity; and sequences of opening, closing and moving both ends; an execution counts once per distinct history', body))
