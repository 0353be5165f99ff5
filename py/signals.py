"""D13 requests to stop that arrive while results are being written"""
from common import *
import signal, json, logging, tempfile, shutil
import logger, IO
logging.disable(logging.CRITICAL)
INT, TERM = int(signal.SIGINT), int(signal.SIGTERM)
class Boom(Exception): pass
class Hit(Exception): pass
def send(k):
    os.kill(os.getpid(), k)
    for i in range(4): pass   # the interpreter runs the Python level handler here
# ---------------------------------------------------------------- programs
def gen(s, depth, budget, kinds):
    out = []
    for i in range(s.range(1, 4)):
        if budget[0] <= 0: break
        budget[0] -= 1
        k = s.below(10)
        if k < 2: out.append(['mark', budget[0]])
        elif k < 5: out.append(['sig', s.pick(kinds)])
        elif k < 8 and depth < 4: out.append(['block', s.range(0, 3) if s.flip() else -1, gen(s, depth + 1, budget, kinds)])
        elif k == 8 and depth < 5: out.append(['try', gen(s, depth + 1, budget, kinds)])
        elif k == 9 and s.flip(): out.append(['boom'])
        else: out.append(['mark', budget[0]])
    return out
class Child:
    """runs a program with the real class"""
    def __init__(self, fd, how):
        self.fd, self.how, self.inst, self.busy = fd, how, {}, set()
    def emit(self, *e): os.write(self.fd, (json.dumps(e) + '\n').encode())
    def handlers(self):
        self.orig = {}
        for k in (INT, TERM):
            h = self.how[k]
            if h == 'ignore': signal.signal(k, signal.SIG_IGN)
            elif h == 'default': signal.signal(k, signal.SIG_DFL)
            elif h == 'python': signal.signal(k, signal.default_int_handler)
            else:
                def f(num, frame, k=k, h=h):
                    self.emit('handled', k, int(num))
                    if h == 'raise': raise Hit()
                signal.signal(k, f)
            self.orig[k] = signal.getsignal(k)
    def run(self, body):
        for st in body:
            if st[0] == 'mark': self.emit('mark', st[1])
            elif st[0] == 'sig': send(st[1])
            elif st[0] == 'boom': raise Boom()
            elif st[0] == 'try':
                try: self.run(st[1])
                except (Boom, Hit, KeyboardInterrupt) as e: self.emit('caught', type(e).__name__)
            elif st[0] == 'block':
                i = st[1]
                if i in self.busy: i = -1          # a section that is still open is not opened again
                if i < 0: b = logger.DelayedInterrupt()
                else: b = self.inst.setdefault(i, None) or logger.DelayedInterrupt()
                if i >= 0: self.inst[i] = b; self.busy.add(i)
                try:
                    with b: self.run(st[2])
                finally: self.busy.discard(i)
    def main(self, prog):
        self.handlers()
        try:
            try:
                self.run(prog)
                end = ''
            except BaseException as e: end = type(e).__name__
            self.emit('end', end, [signal.getsignal(k) is self.orig[k] or signal.getsignal(k) == self.orig[k] for k in (INT, TERM)])
        except BaseException as e: self.emit('broken', repr(e))
class Dead(BaseException): pass
class More(BaseException): pass
class Model:
    """what is allowed to happen; where several things are, the choices are enumerated"""
    def __init__(self, how, choices):
        self.how, self.ch, self.pos, self.width = how, choices, 0, []
        self.out, self.depth, self.pending = [], 0, []
        self.inside = 0
    def choose(self, n):
        self.width.append(n)
        c = self.ch[self.pos] if self.pos < len(self.ch) else 0
        self.pos += 1
        return c
    def emit(self, *e): self.out.append(list(e))
    def deliver(self, k):
        h = self.how[k]
        if h == 'ignore': return
        if h == 'default':
            self.out.append(['died', k])
            raise Dead()
        if h == 'python': raise KeyboardInterrupt()
        self.emit('handled', k, k)
        if h == 'raise': raise Hit()
    def run(self, body):
        for st in body:
            if st[0] == 'mark': self.emit('mark', st[1])
            elif st[0] == 'sig':
                if self.depth:
                    self.inside += 1
                    if st[1] not in self.pending: self.pending.append(st[1])
                else: self.deliver(st[1])
            elif st[0] == 'boom': raise Boom()
            elif st[0] == 'try':
                try: self.run(st[1])
                except (Boom, Hit, KeyboardInterrupt) as e: self.emit('caught', type(e).__name__)
            else:
                self.depth += 1
                try: self.run(st[2])
                finally:
                    self.depth -= 1
                    if self.depth == 0 and self.pending:
                        p, self.pending = self.pending, []
                        if len(p) == 2: # either of two different requests stands for both
                            p = [[p[1]], [p[0]], p, p[::-1]][self.choose(4)]
                        for k in p: self.deliver(k)
    def main(self, prog):
        end = ''
        try: self.run(prog)
        except Dead: return self.out
        except (Boom, Hit, KeyboardInterrupt) as e: end = type(e).__name__
        self.emit('end', end, [True, True])
        return self.out
def allowed(how, prog, limit=300):
    res, ch = [], []
    inside = 0
    while True:
        m = Model(how, ch)
        o = m.main(prog)
        inside = max(inside, m.inside)
        if o not in res: res.append(o)
        if len(res) > limit: raise Discard()
        ch = (ch + [0] * len(m.width))[:len(m.width)]
        while ch and ch[-1] + 1 >= m.width[len(ch) - 1]: ch.pop()
        if not ch: return res, inside
        ch[-1] += 1
def forked(fn):
    """runs fn(fd) in a child; returns the events it wrote and how it ended"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            fn(w)
        finally: os._exit(0)
    os.close(w)
    data = b''
    while True:
        d = os.read(r, 65536)
        if not d: break
        data += d
    os.close(r)
    rc = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    ev = [json.loads(l) for l in data.decode().splitlines()]
    if rc < 0: ev.append(['died', -rc])
    elif rc: ev.append(['exit', rc])
    return ev
def gen_how(s): return {INT: s.pick(['record', 'raise', 'python', 'python', 'ignore', 'default']), TERM: s.pick(['record', 'raise', 'default', 'default', 'ignore', 'python'])}
def name(k): return 'SIGINT' if k == INT else 'SIGTERM' if k == TERM else str(k)
@prop('sections', 'a request arrives while a protected section is open')
def sections(s):
    how = gen_how(s)
    kinds = s.pick([[INT], [TERM], [INT, TERM]])
    prog = []
    budget = [s.range(4, 24)]
    while budget[0] > 0: prog += gen(s, 0, budget, kinds)
    want, inside = allowed(how, prog)
    got = forked(lambda fd: Child(fd, how).main(prog))
    CHECK(got in want, 'sections', lambda: 'handlers %s\nprogram %s\nevents  %s\nallowed %s' % ({name(k): v for k, v in how.items()}, json.dumps(prog), json.dumps(got), json.dumps(want[:3])))
    if inside:
        s.nontrivial(json.dumps(prog)[:160])
        s.tag('requests inside sections', inside)
# ---------------------------------------------------------------- at every point of the section itself
@prop('edges', 'the request arrived')
def edges(s):
    """a request at a generated point while a section is opened, runs or is closed"""
    k, at, nest = s.pick([INT, TERM]), s.range(1, 28), s.range(1, 3)
    again = s.flip()
    def body(fd):
        emit = lambda *e: os.write(fd, (json.dumps(e) + '\n').encode())
        orig = {}
        for q in (INT, TERM):
            def f(num, frame, q=q): emit('handled', q, int(num))
            signal.signal(q, f)
            orig[q] = f
        n = [0]
        src = os.path.abspath(logger.__file__)
        def local(frame, event, arg):
            n[0] += 1
            if n[0] == at:
                emit('sent')
                send(k)
            return local
        def trace(frame, event, arg):
            if os.path.abspath(frame.f_code.co_filename) == src: return local(frame, event, arg)
        def inner(d):
            if d == 0:
                emit('begin')
                local(sys._getframe(), 'line', None)
                emit('done')
                return
            with logger.DelayedInterrupt(): inner(d - 1)
        sys.settrace(trace)
        try:
            inner(nest)
            if again: inner(nest)
        finally: sys.settrace(None)
        emit('end', [signal.getsignal(q) is orig[q] for q in (INT, TERM)])
    ev = forked(body)
    w = lambda: '%s at step %d of %d nested sections: %s' % (name(k), at, nest, json.dumps(ev))
    CHECK(ev and ev[-1] == ['end', [True, True]], 'edge-restore', w)
    sent = [e for e in ev if e[0] == 'sent']
    h = [i for i, e in enumerate(ev) if e[0] == 'handled']
    CHECK(len(h) == len(sent) and all(ev[i][1:] == [k, k] for i in h), 'edge-lost', w)
    inside = False
    for e in ev:
        if e[0] == 'begin': inside = True
        if e[0] == 'done': inside = False
        if e[0] == 'handled': CHECK(not inside, 'edge-inside', w)
    if sent: s.nontrivial('%s at step %d, %d sections' % (name(k), at, nest))
# ---------------------------------------------------------------- a real save
@prop('fire', 'the request arrived while the file was being written')
def fire(s):
    """a request to stop during a protected save takes effect only after the file is complete"""
    k, at = s.pick([INT, TERM]), s.range(1, 45)
    how = s.pick(['record', 'raise', 'default', 'python'] if k == INT else ['record', 'raise', 'default'])
    d = tempfile.mkdtemp(prefix='pbt-sig')
    try:
        fn = os.path.join(d, 'Weight')
        old, new = {'V': 1, 'a': np.arange(5.)}, {'V': 2, 'a': np.arange(7.) * s.range(1, 9), 'b': {'c': [1, 2, 3]}}
        had = s.flip()
        if had: IO.SaveBigDict(fn, old)
        def state():
            try: v = IO.LoadBigDict(fn)
            except IOError: return 0
            if v['V'] == 1: return 1 if np.array_equal(v['a'], old['a']) else -1
            return 2 if np.array_equal(v['a'], new['a']) and list(v['b']['c']) == [1, 2, 3] else -1
        def body(fd):
            emit = lambda *e: os.write(fd, (json.dumps(e) + '\n').encode())
            signal.signal(INT, signal.default_int_handler)
            signal.signal(TERM, signal.SIG_DFL)
            if how in ('record', 'raise'):
                def f(num, frame):
                    emit('handled', int(num), state())
                    if how == 'raise': raise Hit()
                signal.signal(k, f)
            elif how == 'default': signal.signal(k, signal.SIG_DFL)
            n = [0]
            base = (os.path.abspath(IO.__file__), os.path.abspath(sys.modules['hickle'].__file__))
            def local(frame, event, arg):
                n[0] += 1
                if n[0] == at:
                    emit('sent')
                    send(k)
                return local
            def trace(frame, event, arg):
                if os.path.abspath(frame.f_code.co_filename) in base: return local(frame, event, arg)
            try:
                with logger.DelayedInterrupt():
                    sys.settrace(trace)
                    try: IO.SaveBigDict(fn, new)
                    finally: sys.settrace(None)
                    emit('saved')
                emit('end')
            except BaseException as e: emit('stopped', type(e).__name__)
        ev = forked(body)
        w = lambda: '%s (%s) at step %d of a protected save over %s file: %s, afterwards %s' % (name(k), how, at, 'an old' if had else 'no', json.dumps(ev), {0: 'no file', 1: 'the old file', 2: 'the new file', -1: 'a mixture'}[state()])
        CHECK(['saved'] in ev and state() == 2, 'fire-save', w)
        if ['sent'] not in ev:
            CHECK(ev == [['saved'], ['end']], 'fire-events', w)
            return
        tail = {'record': [['handled', k, 2], ['end']], 'raise': [['handled', k, 2], ['stopped', 'Hit']], 'default': [['died', k]], 'python': [['stopped', 'KeyboardInterrupt']]}[how]
        CHECK(ev == [['sent'], ['saved']] + tail, 'fire-events', w)
        s.nontrivial('%s (%s) at step %d' % (name(k), how, at))
    finally: shutil.rmtree(d, ignore_errors=True)
if __name__ == '__main__': main()
