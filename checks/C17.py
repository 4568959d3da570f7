from common import *

def body(c):
    exe = obj_exe('ls')
    def other(h):
        # the last callback that returned is attributed to another attachment
        if h['ev'][-1].get('o') != 'destroyL':
            return None
        for e in reversed(h['ev']):
            if e['k'] == 'c' and e['o'] == 'cb':
                e['a'] = [e['a'][0], e['a'][1] + 1000]
                return h
    def uncalled(h):
        ev = h['ev']
        if ev[-1].get('o') != 'destroyL' or any(e['k'] == 'c' and e['o'] in ('detach', 'detachSelf', 'kill') for e in ev):
            return None
        # nothing was detached or destroyed: without the callbacks of one attachment its occurrence is unanswered
        first = next((e for e in ev if e['k'] == 'c' and e['o'] == 'cb'), None)
        if not first:
            return None
        k = first['a'][0]
        on = [n for n, e in enumerate(ev) if e['k'] == 'r' and e['o'] == 'attach' and e['a'] == [1]
              and next(x for x in reversed(ev[:n]) if x['k'] == 'c' and x['t'] == e['t'])['a'][0] == k]
        if not any(e['k'] == 'c' and e['o'] == 'fire' and e['a'] == [k] for e in ev[on[0]:]):
            return None
        out, skip = [], False
        for e in ev:
            if e.get('o') == 'cb' and e['k'] == 'c':
                skip = e['a'] == first['a']
            if not (e.get('o') == 'cb' and skip):
                out.append(e)
        h['ev'] = out
        return h
    c.parallel(objmodel(c, 'ListenerModel', 't1' if c.thorough() else 'q1') + [
        obj(c, exe, 'ListenerTrace', ['seq', c.seed, 1500, 5, 4000], 'ls seq', corrupt=other, scale=(2, 4)),
        obj(c, exe, 'ListenerTrace', ['conc', c.seed + 10, 2000, 8, 6000], 'ls conc', corrupt=uncalled, scale=(2, 4)),
    ], 3)

if __name__ == '__main__':
    sys.exit(vc.main('C17', 'model_checking', 'random programs on a real Listener (with its own thread) with user triggers, subscribers, a server and a client of the real daemon core: attaching, detaching (also inside callbacks), firing and destroying, under serial, forced-preemption, random and priority schedules; an execution counts once per distinct history', body))
