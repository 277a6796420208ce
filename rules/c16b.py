"""C16, second part: single operations on chunks, limits and receive buffers"""
from c16 import *


class Length(Acct):
    """li_chunk_length is what is left of the chunk"""

    def __init__(self, p, t):
        Acct.__init__(self, p, {})
        self.t = t

    headjoin = False
    joins = False

    def head(self, st):
        pass

    def start(self, st, fn, ai):
        set_ps(st, q=(), gone=(), cut=None, new=None, src=(), pop=None)
        self.c = ai.val(st, '$0')
        st.setr(self.c, 1, INF, frozenset())
        st.mem[fld(self.p, self.c, 'liChunk', 'type')] = self.t

    def forget(self, st, ins):
        pass

    def call(self, st, ins, name, args, ai):
        pass

    def post_call(self, st, ins, name, args, res, ai):
        pass

    def call_value(self, st, ins, name, args, ai):
        pass

    def load(self, st, ins, addr, val, ai):
        pass

    def preload(self, st, ins, addr, ai):
        pass

    def store(self, st, ins, addr, val, ai):
        pass

    def branch(self, st, ins, cond, truth, ai):
        pass

    def eq(self, st, a, b):
        return any(same(x, y) for x in self.eqs(st, a) for y in self.eqs(st, b))

    @staticmethod
    def eqs(st, v):
        v = flat(v)
        return {clean(v), simp(st, v), flat(simp(st, v))}

    def ret(self, st, ins, val, ai):
        n = self.size(st, self.c, 'len')
        if not self.eq(st, val, n):
            ai.report(st, ins, 'the length of a chunk of type %d is taken to be %s instead of %s' % (self.t, shw(simp(st, val)), shw(n)), 'length')


class Read(Length):
    """what li_chunkiter_read finds is the data of the chunk from the given position on"""

    def start(self, st, fn, ai):
        set_ps(st, q=(), gone=(), cut=None, new=None, src=(), pop=None, got=None)
        p = self.p
        l = ai.val(st, '$0')
        st.setr(l, 1, INF, frozenset())
        self.c = c = rd(st, fld(p, l, '_GList', 'data'))
        st.setr(c, 1, INF, frozenset())
        st.mem[fld(p, c, 'liChunk', 'type')] = self.t
        self.a = [ai.val(st, '$%d' % n) for n in range(6)]
        self.len = simp(st, add(self.size(st, c, 'len'), self.a[1], -1))
        self.done = set()
        if self.t != FILE:
            self.want = self.content(st, c, rd(st, fld(p, c, 'liChunk', 'offset')))
        else:
            d = fld(p, fld(p, c, 'liChunk', 'data'), 'liChunk.data', 'file')
            self.pos = add(add(rd(st, fld(p, d, 'liChunk.data.file', 'start')), rd(st, fld(p, c, 'liChunk', 'offset'))), self.a[1])
            self.file = rd(st, fld(p, d, 'liChunk.data.file', 'file'))

    def le(self, st, a, b):
        A, B = self.eqs(st, a), self.eqs(st, b)
        if any(same(x, y) or Send.leq(st, x, y) for x in A for y in B):
            return True
        for f, r in st.facts.items():
            if f.k == 'cmp' and r[0] == r[1] and f.a[0][0] in 'su':
                small, big = (f.a[1], f.a[2]) if (f.a[0][1] == 'l') == (r[0] == 1) else (f.a[2], f.a[1])
                if (any(same(x, y) for x in A for y in self.eqs(st, small)) or isconst(a) and a <= (st.rng(small)[0] if isinstance(small, V) else small)) and any(same(x, y) for x in B for y in self.eqs(st, big)):
                    return True
            elif f.k != 'cmp' and (isconst(a) and a <= r[0] and any(same(x, y) for x in B for y in self.eqs(st, f)) or isconst(b) and r[1] <= b and any(same(x, y) for x in A for y in self.eqs(st, f))):
                return True
        return False

    def post_call(self, st, ins, name, args, res, ai):
        if name not in ('pread', 'pread64') or self.t != FILE:
            return
        self.done.add(ins.loc())
        p = self.p
        if not self.eq(st, args[3], self.pos):
            ai.report(st, ins, 'reads from another position of the file (%s instead of %s)' % (shw(simp(st, args[3])), shw(simp(st, self.pos))), 'pos')
        if not self.le(st, args[2], self.len):
            ai.report(st, ins, 'may read more of the file than what belongs to the chunk', 'len')
        if not same(args[0], rd(st, fld(p, self.file, 'liChunkFile', 'fd'))):
            ai.report(st, ins, 'reads from another file than the one of the chunk', 'file')
        set_ps(st, got=(args[1], args[2], res))
        if isinstance(res, V):
            track(st, res)
            st.setr(res, -1, INF, frozenset())
            r = add(args[2], res, -1)
            if isinstance(r, V):
                st.setr(simp(st, r), 0, INF, frozenset()) if isinstance(simp(st, r), V) else None

    def ret(self, st, ins, val, ai):
        if not (isconst(val) and val == 0):
            return
        p = self.p
        ds, dl = rd(st, self.a[3]), rd(st, self.a[4])
        if self.t == FILE:
            got = get_ps(st, 'got')
            if not got:
                ai.report(st, ins, 'says that there are data but has not read any', 'none')
                return
            if not self.eq(st, ds, got[0]):
                ai.report(st, ins, 'the data are not where they were read to', 'start')
            if not self.eq(st, dl, got[2]) and not (self.eq(st, dl, got[1]) and any(st.evalcmp('eq', x, y) for x in [got[2]] for y in [got[1], clean(got[1])])):
                ai.report(st, ins, 'the amount of data (%s) is not what was read' % shw(simp(st, dl)), 'amount')
            return
        w = self.want
        if w and w[0] == 'b':
            w = ('p', flat(add(flat(rd(st, fld(p, w[1], 'liBuffer', 'addr'))), w[2])))
        if not w or not self.eq(st, ds, add(w[1], self.a[1])):
            ai.report(st, ins, 'the data of a chunk of type %d are taken from the wrong place' % self.t, 'start')
        for x in (self.len, self.a[2]):
            if not self.le(st, dl, x):
                ai.report(st, ins, 'more data are announced (%s) than there are or were asked for' % shw(simp(st, dl)), 'amount')
        if not self.le(st, 1, dl):
            ai.report(st, ins, 'says that there are data when there are none', 'none')


class Limit(Length):
    """reading is stopped exactly while a limit is reached"""

    def __init__(self, p):
        Length.__init__(self, p, 0)

    def start(self, st, fn, ai):
        set_ps(st, q=(), gone=(), cut=None, new=None, src=(), pop=None, cql=None, ev=(), nf=())
        if fn.dty[1] == 'liCQLimit*':
            set_ps(st, cql=ai.val(st, '$0'))

    def call(self, st, ins, name, args, ai):
        if name in ('li_event_io_rem_events', 'li_event_io_add_events'):
            set_ps(st, ev=get_ps(st, 'ev') + ((name, args[1]),))
        elif name is None and len(args) == 2:
            set_ps(st, nf=get_ps(st, 'nf') + (simp(st, args[1]) if isinstance(args[1], V) else args[1],))

    def load(self, st, ins, addr, val, ai):
        k = fkey(addr) if isinstance(addr, V) else None
        if k == ('liChunkQueue', 'limit') and isinstance(val, V):
            set_ps(st, cql=val)

    def ret(self, st, ins, val, ai):
        c = get_ps(st, 'cql')
        if c is None:
            return
        lo, hi, ne = st.rng(c)
        if lo == hi == 0:
            return
        p = self.p
        cell = lambda f: rd(st, fld(p, c, 'liCQLimit', f))
        locked, limit, cur = cell('locked'), cell('limit'), cell('current')
        was = mk('init', fld(p, c, 'liCQLimit', 'locked'))
        lo, hi, ne = st.rng(locked) if isinstance(locked, V) else (locked, locked, frozenset())
        on = True if lo > 0 or hi < 0 or 0 in ne else False if lo == hi == 0 else None
        if on is None:
            return      # (the path did not look at it: a path of li_cqlimit_set_limit without a limit)
        pos = any(st.evalcmp('sgt', x, 0) for x in self.eqs(st, limit))
        npos = any(st.evalcmp('sle', x, 0) for x in self.eqs(st, limit))
        full = any(Send.leq(st, x, y) for x in self.eqs(st, limit) for y in self.eqs(st, cur))
        free = any(st.evalcmp(o, x, y) for o in ('slt',) for x in self.eqs(st, cur) for y in self.eqs(st, limit)) or Send.leq(st, simp(st, add(cur, 1)), simp(st, limit))
        if on and not (pos and full):
            ai.report(st, ins, 'reading stays stopped although the limit is not known to be reached', 'on')
        if not on and not (npos or free):
            ai.report(st, ins, 'reading is not stopped although the limit may be reached', 'off')
        self.events.add(ins.loc())
        changed = locked is not was
        if changed:
            w = cell('io_watcher')
            lo, hi, ne = st.rng(w) if isinstance(w, V) else (w, w, ())
            ev = get_ps(st, 'ev')
            want = 'li_event_io_rem_events' if on else 'li_event_io_add_events'
            if lo == hi == 0:
                if ev:
                    ai.report(st, ins, 'changes the events of no watcher', 'ev')
            elif [e[0] for e in ev] != [want] or any(isconst(e[1]) and not e[1] & 1 for e in ev):
                ai.report(st, ins, 'the watcher of the connection is not told to %s reading' % ('stop' if on else 'go on'), 'ev')
            if any(x != int(on) for x in get_ps(st, 'nf') if isconst(x)):
                ai.report(st, ins, 'the owner of the queue is told the opposite of what happened', 'notify')
            n = cell('notify')
            lo, hi, ne = st.rng(n) if isinstance(n, V) else (n, n, ())
            if not lo == hi == 0 and not get_ps(st, 'nf'):
                ai.report(st, ins, 'the owner of the queue is not told that reading was %s' % ('stopped' if on else 'resumed'), 'untold')


RECV = {'li_net_read': (1, 2), 'read': (1, 2), 'SSL_read': (1, 2), 'gnutls_record_recv': (1, 2), 'memcpy': (0, 2)}
class Recv(Length):
    """everything that is received into a buffer is appended to the queue, once"""

    def __init__(self, p):
        Length.__init__(self, p, 0)
        self.sinks, self.puts = set(), set()

    aborts = ()

    def start(self, st, fn, ai):
        set_ps(st, q=(), gone=(), cut=None, new=None, src=(), pop=None, rx=None, abort=False)

    def buffer(self, st, a):
        p = self.p
        for c in list(st.mem):
            if c.k == 'fld' and (c.a[1], c.a[2]) == ('liBuffer', 'used'):
                b = c.a[0]
                addr = rd(st, fld(p, b, 'liBuffer', 'addr'))
                for x in self.eqs(st, add(flat(a), flat(addr), -1)):
                    if isconst(x) or not (isinstance(addr, V) and addr in lin(x)[1]):
                        return b, x
        return None

    le = Read.le

    def branch(self, st, ins, cond, truth, ai):
        rx = get_ps(st, 'rx')
        if rx and rx[3] is None and isinstance(rx[2], V) and st.rng(rx[2])[1] <= 0:
            set_ps(st, rx=None)     # nothing was received

    def pending(self, st, ins, ai, what):
        rx = get_ps(st, 'rx')
        if rx is None or get_ps(st, 'abort'):
            return
        lo, hi, ne = st.rng(rx[2]) if isinstance(rx[2], V) else (rx[2], rx[2], ())
        if hi <= 0:
            return
        if not lost(rx[2]):
            ai.report(st, ins, what, 'lost')

    def call(self, st, ins, name, args, ai):
        p = self.p
        if name and name.startswith(('llvm.memcpy', 'llvm.memmove')):
            name = 'memcpy'
        if name in RECV and len(args) > 2:
            i, j = RECV[name]
            w = self.buffer(st, args[i])
            if w is None:
                if name != 'memcpy':
                    set_ps(st, rx=None)
                return
            b, off = w
            self.pending(st, ins, ai, 'receives more although what was received before was not put into the queue')
            self.sinks.add(ins.loc())
            used = rd(st, fld(p, b, 'liBuffer', 'used'))
            if not self.eq(st, off, used):
                self.alarm(st, ins, ai, [off, used], 'does not put what is received behind what is in the buffer already (%s instead of %s)' % (shw(simp(st, off)), shw(simp(st, used))), 'where')
            room = add(rd(st, fld(p, b, 'liBuffer', 'alloc_size')), used, -1)
            if not self.le(st, args[j], room):
                self.alarm(st, ins, ai, [args[j]], 'may receive more than what fits into the buffer', 'room')
            if isinstance(used, V) and (used.syms or 'stale' in show(used)):
                u = mk('sym', ('c16', 'used', b.n), 'used')
                r = st.rng(used)
                same_ = [(d, k) for d in (st.env, st.mem) for k, v in d.items() if v is used]
                st.purge(u)
                for d, k in same_:
                    d[k] = u
                st.setr(u, *r)
                used = u
            set_ps(st, rx=(b, used, args[j], name))
        elif name == 'li_chunkqueue_update_last_buffer_size':
            rx = get_ps(st, 'rx')
            self.puts.add(ins.loc())
            if rx is None:
                ai.report(st, ins, 'adds data to the queue that were not received (or already added)', 'twice')
                return
            if not self.eq(st, args[1], rx[2]):
                ai.report(st, ins, 'adds another amount of data (%s) than what was received (%s)' % (shw(simp(st, args[1])), shw(rx[2])), 'amount')
            set_ps(st, rx=None)
            a = fld(p, rx[0], 'liBuffer', 'used')
            if not same(rd(st, a), rx[1]):
                ai.report(st, ins, 'what was received counts as used before it is added', 'used')
            st.mem[a] = add(rd(st, a), args[1])
        elif name in ('li_chunkqueue_append_buffer2', 'li_chunkqueue_append_buffer'):
            rx = get_ps(st, 'rx')
            self.puts.add(ins.loc())
            if rx is None:
                ai.report(st, ins, 'adds data to the queue that were not received (or already added)', 'twice')
                return
            set_ps(st, rx=None)
            if args[1] is not rx[0]:
                ai.report(st, ins, 'adds another buffer than the one data were received into', 'buffer')
                return
            used = rd(st, fld(p, rx[0], 'liBuffer', 'used'))
            if name.endswith('2') and not (self.eq(st, args[2], rx[1]) and self.eq(st, args[3], rx[2])):
                ai.report(st, ins, 'adds another part of the buffer (%s) than what was received (%s)' % (shw((simp(st, args[2]), simp(st, args[3]))), shw((rx[1], rx[2]))), 'amount')
            if not self.eq(st, used, add(rx[1], rx[2])):
                ai.report(st, ins, 'the part of the buffer that is used (%s) does not grow by what was received' % shw(simp(st, used)), 'used')
        elif name in ABORT or name in self.aborts:
            set_ps(st, abort=True)

    def post_call(self, st, ins, name, args, res, ai):
        rx = get_ps(st, 'rx')
        if rx and rx[3] == name and name in RECV and name != 'memcpy':
            if isinstance(res, V):
                if name == 'li_net_read':
                    st.setr(res, -1, INF, frozenset())
                set_ps(st, rx=(rx[0], rx[1], res, None))
        elif name == 'li_chunkqueue_get_last_buffer' and isinstance(res, V):
            rd(st, fld(self.p, res, 'liBuffer', 'used'))
            rd(st, fld(self.p, res, 'liBuffer', 'alloc_size'))

    def store(self, st, ins, addr, val, ai):
        k = fkey(addr) if isinstance(addr, V) else None
        if k == ('liChunkQueue', 'is_closed') and isconst(val) and val == 1:
            set_ps(st, abort=True)

    def ret(self, st, ins, val, ai):
        self.pending(st, ins, ai, 'what was received is not put into the queue')


def contents(ctx, p):
    ctx.rule('length', 'the length of a chunk is what is left of its data')
    ctx.rule('read', 'reading a chunk yields its data from the given position on, and no more than there is')
    n = 0
    for f in sorted((f for f in p.fns.values() if f.name == 'li_chunk_length'), key=lambda f: f.key):
        for t in (STRING, MEM, FILE, BUFFER):
            ai = analyse(p, f, Length(p, t), K=50, maxtime=30)
            ctx.take(ai, 'length')
            ctx.ok('length', f.loc())
            n += 1
    ctx.floor('lengths', n, 4)
    f = p.fn('li_chunkiter_read')
    for t in (STRING, MEM, FILE, BUFFER):
        r = Read(p, t)
        ai = analyse(p, f, r, K=100, maxtime=30, purecalls=LOGS | QPURE | {'li_chunkfile_open', 'g_byte_array_set_size', '__errno_location', 'pread', 'pread64', 'posix_fadvise64'},
                     policy=lambda t, ins, d: t.tu == ins.owner.tu and t.name not in ('li_chunkfile_open',))
        ctx.take(ai, 'read')
        ctx.ok('read', f.loc())
        if t == FILE:
            ctx.need(r.done, 'the place where a file chunk is read was not found')
    ctx.rule('limit', 'reading is stopped exactly while the memory limit of a queue is reached')
    ev = set()
    for f in sorted(list(updaters(p).values()) + [f for f in p.fns.values() if ('liCQLimit', 'limit') in {static_field(f, i.a[1]) for i in f.instrs() if i.op == 'store'} and f.name.endswith('set_limit')], key=lambda f: f.key):
        r = Limit(p)
        ai = analyse(p, f, r, K=100, maxtime=30, purecalls=LOGS | {'li_event_io_rem_events', 'li_event_io_add_events', '?'}, keepfields={('liCQLimit', x) for x in ('limit', 'current', 'locked', 'io_watcher', 'notify')},
                     policy=lambda t, ins, d: t.tu == ins.owner.tu)
        ctx.take(ai, 'limit')
        ctx.ok('limit', f.loc())
        ev |= r.events
    ctx.floor('limits', len(ev), 2)
    ctx.rule('receive', 'everything that is received into a buffer is appended to the queue, once and completely')
    sinks, puts, k = set(), set(), 0
    ADD = ('li_chunkqueue_update_last_buffer_size', 'li_chunkqueue_append_buffer2')
    for f in sorted((f for f in p.fns.values() if sum(callee_name(i) in ADD for i in f.instrs() if i.op == 'call')), key=lambda f: f.key):
        if f.name in ADD:
            continue
        r = Recv(p)
        r.aborts = {g.name for g in p.fns.values() if g.local and g.key != f.key and g.tu == f.tu and any(callee_name(i) in ABORT for i in g.instrs() if i.op == 'call')}
        ai = analyse(p, f, r, K=60, maxtime=60, purecalls=LOGS | QPURE | set(ADD) | set(RECV) | {'li_chunkqueue_get_last_buffer', '__errno_location', 'ERR_clear_error', 'SSL_shutdown'},
                     policy=lambda t, ins, d: t.tu == ins.owner.tu and t.name not in QPURE and t.name not in ADD and t.name not in RECV and t.name not in r.aborts)
        ctx.take(ai, 'receive')
        ctx.ok('receive', f.loc())
        sinks |= r.sinks
        puts |= r.puts
        k += 1
        ctx.notes += ['balance not decided (states merged): ' + x for x in sorted(r.undet)]
    ctx.floor('receivers', k, 3)
    ctx.floor('receive_calls', len(sinks), 3)
    ctx.floor('receive_appends', len(puts), 6)
