"""C15: every file descriptor has exactly one owner, which closes it exactly once"""
from common import *

# what hands the caller a descriptor: by its result ...
RESULT = {'socket', 'accept', 'accept4', 'open', 'open64', 'openat', 'dup', 'mkstemp', 'mkstemp64', 'g_mkstemp', 'epoll_create', 'eventfd'}
RESULT_PTR = {'opendir', 'fopen', 'fdopen'}
# ... through a pointer argument when the result is as given ...
OUT = {'li_receive_fd': (1, 0), 'li_stat_cache_get': (4, 'LI_HANDLER_GO_ON'), 'li_stat_cache_get_sync': (4, 'LI_HANDLER_GO_ON')}
# ... or as a pair
PAIR = {'pipe': 0, 'pipe2': 0, 'socketpair': 3}
SOCKETS = {'socket', 'accept', 'accept4'}
NONBLOCK = {'li_fd_no_block': 0, 'li_fd_init': 0}
CLOSE = {'close', 'closedir', 'fclose'}
FREE = {'g_slice_free1': 1, 'g_free': 0, 'free': 0}
# objects that own a descriptor: it is closed, or handed on, before the object is freed or the slot reused ('w' in an event watcher)
OWNED = {('liChunkFile', 'fd'), ('cache_etag_file', 'fd'), ('cache_etag_file', 'hit_fd'), ('liLogTarget', 'fd'), ('liErrorPipe', 'fds'), ('liAngelConnection', 'fd'),
         ('closing_socket', 'fd'), ('listen_socket', 'fd')}
WATCHERS = {('liServerSocket', 'watcher'), ('liIOStream', 'io_watcher'), ('liMemcachedCon', 'con_watcher'), ('liBackendConnection', 'watcher')}
ELEMS = {('liErrorPipe', 'fds'): 2}
KINDS = {('liLogTarget', 'fd'): ('type', ('LI_LOG_TYPE_FILE', 'LI_LOG_TYPE_PIPE'))}
# closed when the server ends, by li_server_free; connections only refer to the listening socket
SHARED = {('liServerSocket', 'watcher')}
# the stream of the request owns the descriptor of a backend connection while it is in use
LENT = {('liBackendConnection', 'watcher')}
KEEP = OWNED - {('liChunkFile', 'fd')}         # changed by the functions of their own file only
# a request that waited for the stat cache has not opened anything yet
EMPTY = {('cache_etag_file', 'fd'), ('cache_etag_file', 'hit_fd')}
OPAQUE = ('li_event_io_fd', 'li_event_clear_', 'li_event_io_set_fd', 'li_event_io_init', 'li_fd_no_block', 'li_fd_init', 'li_fd_block', 'li_fd_close_on_exec', 'li_iostream_reset',
          'li_receive_fd', 'li_send_fd', 'li_stat_cache_get', 'li_stat_cache_get_sync', 'li_event_detach_', 'li_event_attach_', 'li_event_stop_', 'li_event_start_',
          'li_memcached_con_release')       # never the last reference where it is called with the connection in hand (memcached_io_cb checks)


def wfd(w):
    """the place an event watcher keeps its descriptor in"""
    w = w.a[0] if isinstance(w, V) and w.k == 'fld' and w.a[2] == 'base' else w
    return mk('fld', w, '#watcher', 'fd', 0) if isinstance(w, V) else None


def place(a):
    """(Struct, field) of the place an address denotes, the watcher's field for a watcher's descriptor"""
    if isinstance(a, V) and a.k == 'fld' and a.a[1] == '#watcher':
        return fkey(a.a[0]) or ('?', 'watcher')
    while isinstance(a, V) and a.k == 'idx':
        a = a.a[0]
    return fkey(a) if isinstance(a, V) and a.k == 'fld' else None


def owner_of(a):
    """the object an owning place lies in"""
    if isinstance(a, V) and a.k == 'fld' and a.a[1] == '#watcher':
        a = a.a[0]
    while isinstance(a, V) and a.k == 'idx':
        a = a.a[0]
    return a.a[0] if isinstance(a, V) and a.k == 'fld' else None


def inside(a, o):
    while isinstance(a, V):
        if a is o:
            return True
        a = a.a[0] if a.k in ('fld', 'idx', 'elem', 'off') else None
    return False


def top(a):
    while isinstance(a, V) and a.k in ('fld', 'idx', 'elem', 'off'):
        a = a.a[0]
    return a


def islocal(a):
    t = top(a)
    return isinstance(t, V) and t.k in ('alloca', 'local')


OPEN, CLOSED, GONE = 'open', 'closed', 'gone'


class Fds(Rule):
    def __init__(self, env, param=None):
        self.env, self.p, self.param = env, env.p, param
        self.sites = set()
        self.closes = set()
        self.handed = set()
        self.returned = self.needs = False
        self.final = set()
        self.frees = set()

    # --- the table in the property state: ((v, loc, status, cond, places, nb, ptr), ...)
    def tab(self, st):
        return {e[0]: e for e in get_ps(st, 'fds')}

    def put(self, st, t):
        set_ps(st, fds=tuple(sorted(t.values(), key=lambda e: (e[1], show(e[0])))))

    def start(self, st, fn, ai):
        set_ps(st, fds=(), cl=(), pairs=(), done=())
        if self.param is not None:
            v = st.env.get(('arg', self.param))
            v = ai.val(st, '$%d' % self.param) if v is None else v
            st.setr(v, 0, INF, frozenset())
            track(st, v)
            self.argv = v
            set_ps(st, fds=((v, 'its caller', OPEN, None, (), False, False),))

    def live(self, st, e):
        v, loc, status, cond, places, nb, ptr = e
        lo, hi, ne = st.rng(v)
        if hi < 0 or ptr and lo == hi == 0:
            return False
        if cond is not None and st.evalcmp('eq', cond[0], cond[1]) is False:
            return False
        return True

    def register(self, st, ins, v, cond=None, nb=True, ptr=False):
        t = self.tab(st)
        t[v] = (v, ins.loc(), OPEN, cond, (), nb, ptr)
        track(st, v)
        if cond:
            track(st, cond[0])
        self.put(st, t)
        self.sites.add(ins.loc())

    def again(self, st, ins, v, ai):
        """v is about to be produced anew"""
        t = self.tab(st)
        if v in t:
            e = t.pop(v)
            if e[2] == OPEN and not e[4] and self.live(st, e):
                ai.report(st, ins, 'asks for another descriptor while the one from %s is still open and owned by nothing: it can never be closed' % e[1], ('again', e[1]))
            self.put(st, t)

    def move(self, st, ins, v, how, ai):
        t = self.tab(st)
        e = t.get(v)
        if e is None:
            return
        if e[2] != OPEN and self.live(st, e):
            ai.report(st, ins, '%s the descriptor from %s, which was already %s' % (how, e[1], 'closed' if e[2] == CLOSED else 'handed on'), ('use', e[1]))
        t[v] = e[:2] + (GONE, e[3], (), e[5], e[6])
        self.put(st, t)
        self.handed.add(ins.loc())

    def places_of(self, st, v):
        r = {a for a, x in st.mem.items() if x is v and not islocal(a)}
        if isinstance(v, V) and v.k == 'init':
            r.add(v.a[0])
        for m in st.marks:
            if m[0] == 'lf' and m[1] is v:
                r.add(m[2])
        return {a for a in r if place(a) is not None and (a not in st.mem or st.mem[a] is v)}

    def same(self, st, t, v):
        """the descriptor v is known by"""
        if not isinstance(v, V) or v in t or v.k in ('s', 'g', 'fn', 'alloca'):
            return v
        pl = self.places_of(st, v)
        if pl:
            for w, e in t.items():
                if pl & set(e[4]):
                    return w
        return v

    def close(self, st, ins, name, v, ai):
        self.closes.add(ins.loc())
        if not isinstance(v, V):
            if isconst(v) and v < 0:
                ai.report(st, ins, 'closes the descriptor %d: the real one has been forgotten' % v, ('minus',))
            return
        lo, hi, ne = st.rng(v)
        if hi < 0:
            return
        t = self.tab(st)
        e = t.get(v)
        pl = self.places_of(st, v)
        cl = set(get_ps(st, 'cl'))
        for a in pl:
            # only a place that provably still holds v
            if a in cl and st.mem.get(a) is v:
                ai.report(st, ins, 'closes the descriptor in %s->%s a second time' % place(a), ('twice', place(a)))
        for w, x in list(t.items()):
            if w is not v and pl & set(x[4]):
                t[w] = x[:2] + (CLOSED, x[3], (), x[5], x[6])
        if e is not None:
            if e[2] != OPEN and self.live(st, e):
                ai.report(st, ins, 'closes the descriptor from %s, which was already %s' % (e[1], 'closed' if e[2] == CLOSED else 'handed to another owner'), ('double', e[1]))
            pl |= set(e[4])
            t[v] = e[:2] + (CLOSED, e[3], (), e[5], e[6])
        elif v.k == 'arg' or any(place(a) in OWNED | WATCHERS for a in pl):
            t[v] = (v, 'the argument' if v.k == 'arg' else 'elsewhere', CLOSED, None, (), True, False)
            track(st, v)
        self.put(st, t)
        cl |= {a for a in pl if place(a) in OWNED | WATCHERS}
        for a in cl:
            track(st, a)
        set_ps(st, cl=tuple(sorted(cl, key=show)), done=tuple(sorted(cl | set(get_ps(st, 'done')), key=show)))

    def forget(self, st, n):
        """instruction n is about to yield a new value: what is known of its last one is gone"""
        def old(v):
            return any(s.k == 'sym' and s.a[0] == n for s in v.syms)
        t = self.tab(st)
        if any(old(v) for v in t):
            self.put(st, {v: e for v, e in t.items() if not old(v) or e[2] == OPEN and not e[4] and self.live(st, e)})
        for k in ('cl', 'done'):
            if any(old(a) for a in get_ps(st, k)):
                set_ps(st, **{k: tuple(a for a in get_ps(st, k) if not old(a))})

    def call(self, st, ins, name, args, ai):
        if name in OUT:
            self.again(st, ins, mk('sym', ('out', ins.id), 'fd of %s()@%s' % (name, ins.line)), ai)
        if ins.ty is not None and (name != 'li_event_io_fd' or wfd(args[0]) not in st.mem):
            self.forget(st, ins.id)
        if name in CLOSE:
            self.close(st, ins, name, args[0], ai)
            return 'noeffect'
        if name in NONBLOCK:
            t = self.tab(st)
            if args[0] in t:
                e = t[args[0]]
                t[args[0]] = e[:5] + (True, e[6])
                self.put(st, t)
            return 'noeffect'
        if name == 'li_event_io_fd':
            return 'noeffect'
        if name in ('li_event_io_init', 'li_event_io_set_fd'):
            w, v = (args[2], args[4]) if name == 'li_event_io_init' else args[:2]
            self.blocking(st, ins, v, 'watches', ai)
            a = wfd(w)
            if a is not None:
                self.overwrite(st, ins, a, v, ai)
                ai.write(st, a, v, ins)
                self.own(st, ins, a, v, ai)
            return 'noeffect'
        if name == 'li_event_clear_':
            a = wfd(args[0])
            if a is not None:
                self.overwrite(st, ins, a, -1, ai)
                ai.write(st, a, -1, ins)
            return 'noeffect'
        if name in FREE:
            self.free(st, ins, args[FREE[name]], ai)
            return
        if name in RESULT or name in RESULT_PTR or name == 'li_iostream_reset' or self.env.gives(name, ai.fn.tu):
            if ins.ty is not None:
                self.again(st, ins, mk('sym', ins.id, '%s()@%s' % (name or 'indirect', ins.line)), ai)
        g = self.p.resolve(name, ai.fn.tu) if name else None
        if get_ps(st, 'cl') and g is not None:
            m = self.p.modset(g)
            if not (g.tu == ai.fn.tu and g.name not in OPAQUE and self.env.relevant(g)):
                m = {k for k in m if k != '*'}
            set_ps(st, cl=tuple(a for a in get_ps(st, 'cl') if '*' not in m and place(a) not in m))
        t = self.tab(st)
        for n, b in enumerate(args):
            a = self.same(st, t, b)
            if a not in t and isinstance(a, V) and a.k not in ('s', 'g', 'fn', 'alloca') and any(place(x) in OWNED | WATCHERS for x in self.places_of(st, a)) and self.env.consumes(name, ai.fn.tu, n):
                t[a] = (a, 'elsewhere', GONE, None, (), True, False)
                track(st, a)
                self.put(st, t)
                continue
            if a in t and isinstance(a, V) and t[a][2] == OPEN and self.live(st, t[a]):
                if self.env.consumes(name, ai.fn.tu, n):
                    self.blocking(st, ins, a, 'hands on', ai, name, n)
                    self.move(st, ins, a, 'passes to %s()' % (name or 'a callback'), ai)
                    t = self.tab(st)
                    if b is not a:
                        t[b] = (b, 'elsewhere', GONE, None, (), True, False)
                        track(st, b)
                        self.put(st, t)
            elif a in t and isinstance(a, V) and t[a][2] != OPEN and t[a][1] != 'elsewhere' and self.live(st, t[a]) and name and self.env.consumes(name, ai.fn.tu, n):
                ai.report(st, ins, 'passes to %s() the descriptor from %s, which was already %s' % (name, t[a][1], 'closed' if t[a][2] == CLOSED else 'handed on'), ('use', t[a][1]))
        if name == 'g_array_append_vals':
            v = st.mem.get(args[1])
            if v in t and isinstance(v, V):
                self.move(st, ins, v, 'puts into an array', ai)

    def post_call(self, st, ins, name, args, res, ai):
        self.repair(st, ins, ai)
        if name in RESULT and isinstance(res, V):
            nb = not (name in SOCKETS)
            if name == 'accept4' and isconst(args[3]) and args[3] & 2048:
                nb = True
            if name == 'socket' and isconst(args[1]) and args[1] & 2048:
                nb = True
            self.register(st, ins, res, nb=nb)
        elif name in RESULT_PTR and isinstance(res, V):
            self.register(st, ins, res, ptr=True)
        elif name == 'li_iostream_reset' and isinstance(res, V):
            self.register(st, ins, res)
        elif name in OUT and isinstance(args[OUT[name][0]], V):
            a = args[OUT[name][0]]
            c = OUT[name][1]
            v = mk('sym', ('out', ins.id), 'fd of %s()@%s' % (name, ins.line))
            st.purge(v)
            st.setr(v, -1, INF, frozenset())
            ai.write(st, a, v, ins)
            if not islocal(a):
                return
            st.esc = st.esc - {root(a)}         # it does not remember the address
            self.register(st, ins, v, cond=(res, self.p.enum(c) if isinstance(c, str) else c))
        elif name in PAIR:
            a = args[PAIR[name]]
            if isinstance(a, V) and a.k == 'idx' and a.a[1] == 0:
                a = a.a[0]
            new = []
            for n in (0, 1):
                v = mk('sym', ('pair', ins.id, n), 'descriptor %d of %s()@%s' % (n, name, ins.line))
                st.purge(v)
                self.register(st, ins, v, cond=(res, 0))
                new.append((mk('idx', a, n, 4), v))
            set_ps(st, pairs=tuple(new))
            self.repair(st, ins, ai)
        elif self.env.gives(name, ai.fn.tu) and isinstance(res, V):
            self.register(st, ins, res, nb=self.env.gives(name, ai.fn.tu) != 'b')

    def repair(self, st, ins, ai):
        """the functions an array of two descriptors is shown to do not change it"""
        for a, v in get_ps(st, 'pairs'):
            if a not in st.mem:
                ai.write(st, a, v, ins)

    def call_value(self, st, ins, name, args, ai):
        if name == 'li_event_io_fd':
            a = wfd(args[0])
            if a is not None:
                v = ai.read(st, a, ins)
                if isinstance(v, V):
                    st.mark('lf', v, a)
                    track(st, v)
                return v

    def blocking(self, st, ins, v, how, ai, name=None, n=None):
        e = self.tab(st).get(v) if isinstance(v, V) else None
        if e is not None and not e[5] and self.live(st, e):
            if n is not None and not self.env.watches.get((name, n)):
                return
            if self.param is not None and v is self.argv:
                self.needs = True
                return
            ai.report(st, ins, '%s the socket from %s without making it non-blocking: a read or write on it can stop the whole worker' % (how, e[1]), ('block', e[1]))

    def load(self, st, ins, addr, val, ai):
        if not isinstance(addr, V) or not isinstance(val, V):
            return
        k = place(addr)
        if k in OWNED and not islocal(addr):
            st.mark('lf', val, addr)
            track(st, val)
        self.seen(st, addr)

    def seen(self, st, addr):
        while isinstance(addr, V) and addr.k in ('fld', 'idx'):
            if addr.k == 'fld' and addr.a[1] in STRUCTS:
                st.mark('as', addr.a[0], addr.a[1])
            addr = addr.a[0]

    def overwrite(self, st, ins, addr, val, ai):
        """the descriptor kept at addr is forgotten"""
        k = place(addr)
        cl = get_ps(st, 'cl')
        if addr in cl:
            set_ps(st, cl=tuple(a for a in cl if a is not addr))
        t = self.tab(st)
        ch = False
        for v, e in list(t.items()):
            if addr in e[4] and v is not val:
                t[v] = e[:4] + (tuple(a for a in e[4] if a is not addr),) + e[5:]
                ch = True
        if ch:
            self.put(st, t)
        done = get_ps(st, 'done')
        if k in OWNED | WATCHERS:
            if isconst(val) and val < 0 and addr not in done:
                set_ps(st, done=tuple(sorted(set(done) | {addr}, key=show)))
            elif not isconst(val) and addr in done:
                set_ps(st, done=tuple(a for a in done if a is not addr))
        if k in OWNED | WATCHERS and addr not in cl and not (k in LENT and ins.op == 'call' and callee_name(ins) == 'li_event_io_set_fd'):
            self.dropped(st, ins, addr, val, ai, 'overwrites')

    def dropped(self, st, ins, addr, val, ai, how):
        v = st.mem.get(addr)
        k = place(addr)
        if v is None:
            o = owner_of(addr)
            if o is None or any(o is z or inside(o, z) for z in st.zero) or self.isfresh(o):
                return              # a new object has nothing in it yet
            v = mk('init', addr)
        if isconst(v) or v is val or not isinstance(v, V) or v.k == 'init' and k in EMPTY:
            return
        if st.rng(v)[1] < 0:
            return
        t = self.tab(st)
        e = t.get(self.same(st, t, v))
        if e is not None:
            return      # tracked on its own
        # not known to be consumed: it is now only in a variable
        t[v] = (v, 'the %s->%s it %s at %s' % (k + (how, ins.loc())), OPEN, None, (), True, False)
        track(st, v)
        self.put(st, t)

    def isfresh(self, o):
        t = top(o)
        return isinstance(t, V) and t.k == 'sym' and any(('%s(' % n) in show(t) for n in ('g_slice_alloc0', 'g_slice_alloc', 'g_malloc0', 'g_malloc', 'calloc', 'malloc'))

    def own(self, st, ins, addr, val, ai):
        t = self.tab(st)
        if isinstance(val, V) and val in t and not islocal(addr):
            e = t[val]
            if e[2] == CLOSED and self.live(st, e):
                ai.report(st, ins, 'keeps the descriptor from %s, which was already closed' % e[1], ('keep', e[1]))
            t[val] = e[:4] + (tuple(sorted(set(e[4]) | {addr}, key=show)),) + e[5:]
            track(st, addr)
            self.put(st, t)
            self.handed.add(ins.loc())

    def store(self, st, ins, addr, val, ai):
        if not isinstance(addr, V):
            return
        self.seen(st, addr)
        if islocal(addr):
            return
        self.overwrite(st, ins, addr, val, ai)
        self.own(st, ins, addr, val, ai)

    def free(self, st, ins, o, ai):
        if not isinstance(o, V):
            return
        cl = get_ps(st, 'cl')
        for m in sorted((m for m in st.marks if m[0] == 'as' and m[1] is o), key=str):
            for S_, f in sorted((OWNED | WATCHERS) - SHARED):
                if S_ != m[2]:
                    continue
                self.frees.add((ins.loc(), S_))
                offs = self.env.offset(S_, f)
                base = mk('fld', o, S_, f, offs)
                if (S_, f) in WATCHERS:
                    base = mk('fld', base, '#watcher', 'fd', 0)
                els = [mk('idx', base, n, 4) for n in range(ELEMS[S_, f])] if (S_, f) in ELEMS else None
                adr = els or [a for a in set(st.mem) | set(get_ps(st, 'done')) if place(a) == (S_, f) and owner_of(a) is o] or [base]
                for a in adr:
                    if a not in get_ps(st, 'done') and not self.isfresh(o) and not self.unused(st, o, S_, f) and not any(o is z for z in st.zero):
                        v = st.mem.get(a)
                        if v is None:
                            v = mk('init', a)
                        if isinstance(v, V) and v not in self.tab(st) and not st.rng(v)[1] < 0:
                            ai.report(st, ins, 'frees the %s without closing its descriptor %s' % (S_, f), ('free', S_, f))
        if cl:
            set_ps(st, cl=tuple(a for a in cl if not inside(a, o)))
        t = self.tab(st)
        for v, e in list(t.items()):
            if e[4]:
                t[v] = e[:4] + (tuple(a for a in e[4] if not inside(a, o)),) + e[5:]
        self.put(st, t)

    thin = True         # forget what branches say about other values (enough for nearly every function)

    def branch(self, st, ins, cond, truth, ai):
        if self.thin:
            t = self.tab(st)
            for v in [v for v in st.facts if not (v.syms & st.tracked)]:
                if v not in t and not (v.k == 'cmp' and v.a[1] in t) and not (v.k == 'init' and place(v.a[0]) in OWNED | WATCHERS):
                    del st.facts[v]

    def unused(self, st, o, S_, f):
        """the object is of a kind that has no descriptor"""
        c = KINDS.get((S_, f))
        if c is None:
            return False
        xs = [x for a, x in mem_of(st, S_, c[0]) if a.a[0] is o]
        return bool(xs) and all(st.evalcmp('eq', x, self.p.enum(e)) is False for x in xs for e in c[1])

    joins = True

    def renamed(self, st, old, pairs):
        """values of the previous round of a loop are gone"""
        new = {s for s, v in pairs}
        t = {}
        for v, e in self.tab(st).items():
            if v.syms & new:
                for s, w in pairs:
                    if w is v:
                        v = s
                        break
                else:
                    if e[2] != OPEN or e[4]:
                        continue
            t[v] = (v,) + e[1:4] + (tuple(a if not a.syms & new else mk('g', 'elsewhere') for a in e[4]),) + e[5:]
        self.put(st, t)
        for k in ('cl', 'done'):
            set_ps(st, **{k: tuple(a for a in get_ps(st, k) if not a.syms & new)})
        for m in [m for m in st.marks if m[0] in ('lf', 'as') and any(isinstance(x, V) and x.syms & new for x in m[1:])]:
            st.unmark(*m)

    def preload(self, st, ins, addr, ai):
        if addr in st.mem:
            return
        self.forget(st, ins.id)

    def ret(self, st, ins, val, ai):
        t = self.tab(st)
        for v, e in sorted(t.items(), key=lambda x: x[1][1]):
            if not self.live(st, e):
                continue
            if val is v and e[2] == OPEN and not e[4]:
                self.returned = 'y' if e[5] else 'b'
                if self.param is not None and v is self.argv:
                    self.final.add('returned')
                continue
            if self.param is not None and v is self.argv:
                self.final.add('kept' if e[2] == OPEN and not e[4] else 'consumed')
                if e[2] == OPEN and not e[4]:
                    self.lost = (ins, st.trail)
                continue
            if e[2] == OPEN and not e[4]:
                ai.report(st, ins, 'returns without closing the descriptor from %s or giving it to anyone: it stays open for ever' % e[1], ('leak', e[1]))
        for a in get_ps(st, 'cl'):
            o = owner_of(a)
            if o is not None and islocal(o):
                continue
            if place(a) in OWNED | WATCHERS:
                ai.report(st, ins, 'returns with a closed descriptor left in %s->%s: it may be closed again, or used, when its number belongs to something else' % place(a), ('dangling', place(a)))


STRUCTS = {s for s, f in OWNED | WATCHERS}


class Env:
    """what the program's own functions do with the descriptors they are given, and which ones hand one back"""

    def __init__(self, p):
        self.p = p
        self.memo = {}
        self.given = {}
        self.mixed = {}
        self.watches = {}       # (function, argument) pairs where the descriptor ends up watched as it is
        self.n = 0
        self.want = {}
        for f in p.fns.values():
            if f.file and f.file.startswith('/usr/') or f.name in OPAQUE and f.name != 'li_iostream_reset':
                continue
            frees = any(callee_name(i) in FREE for i in f.calls())
            for i in f.instrs():
                if i.op == 'getelementptr' and frees and any(x[0] == 'f' and (x[1] in STRUCTS) for x in i.p):
                    self.want[f.key] = f
                if i.op == 'store':
                    k = static_field(f, i.a[1])
                    if k in OWNED or any(x in OWNED for x in static_steps(f, i.a[1])):
                        self.want[f.key] = f
                if i.op != 'call':
                    continue
                n = callee_name(i)
                if n in RESULT or n in RESULT_PTR or n in OUT or n in PAIR or n in CLOSE or n in ('li_event_io_init', 'li_iostream_reset', 'li_event_io_set_fd', 'li_event_io_fd') \
                        or n == 'li_event_clear_' and static_place(f, i.a[0]) in WATCHERS:
                    self.want[f.key] = f
        self.clo = {}

    def relevant(self, f):
        """f, or something it calls within its file, handles descriptors"""
        if f.key not in self.clo:
            self.clo[f.key] = any(k in self.want for k in self.p.reach([f]) if self.p.fns[k].tu == f.tu)
        return self.clo[f.key]

    def policy(self, t, ins, depth):
        if t.tu != ins.owner.tu or t.name in OPAQUE or t.file and t.file.startswith('/usr/'):
            return False
        return self.relevant(t) or sum(len(b) for b in t.blocks) <= 40

    def gives(self, name, tu):
        f = self.p.resolve(name, tu) if name else None
        return f is not None and self.given.get(f.key)

    def offset(self, S_, f):
        return [x[1] for x in self.p.structs[S_]['fields'] if x[0] == f][0]

    def consumes(self, name, tu, n):
        if name is None:
            return True
        if name.startswith('llvm.') or name in OPAQUE:
            return False
        f = self.p.resolve(name, tu)
        if f is None:
            return name == 'fdopen'
        if (f.key, n) not in self.memo:
            self.memo[f.key, n] = False
            self.memo[f.key, n] = self.summary(f, n) == {'consumed'}
        return self.memo[f.key, n]

    def summary(self, f, n):
        r = Fds(self, n)
        ai = run(self.p, f, r)
        self.n += 1
        self.watches[f.name, n] = r.needs
        fin = r.final - ({'kept'} if f.noret else set())
        if len(fin) > 1 and 'consumed' in fin and 'kept' in fin:
            self.mixed[f.key, n] = r.lost
        return fin


def run(p, f, r):
    try:
        return analyse(p, f, r, K=3, maxvisit=20000, purecalls=LOGS, keepfields=KEEP, policy=r.env.policy, maxdepth=8)
    except AnalysisBroken:
        # too large with its callees inlined: those that close or overwrite an owned descriptor are judged on their own
        ai = analyse(p, f, r, K=3, maxvisit=20000, purecalls=LOGS, keepfields=KEEP, policy=lambda t, ins, d: r.env.policy(t, ins, d) and not r.env.relevant(t))
        r.shallow = True
        return ai


def check(ctx):
    p = prog()
    ctx.rule('owned', 'on every path a descriptor a function obtains is closed, stored in its owner, returned or handed on before the function returns or obtains the next one')
    ctx.rule('once', 'no descriptor is closed twice, or used after it was closed or handed on; a closed one is not left in the place that owned it')
    ctx.rule('freed', 'an object that owns a descriptor is not freed before the descriptor is closed or handed on')
    ctx.rule('nonblocking', 'a socket is made non-blocking before it is watched or handed to a stream')
    ctx.rule('agree', 'a function that takes over a descriptor takes it over on every path')
    env = Env(p)
    sites, closes, handed, frees = set(), set(), set(), set()
    res, passed = {}, {}
    work = sorted(env.want)
    cal = p.callers()
    while work:
        k = work.pop(0)
        f = p.fns[k]
        for thin in (True, False):
            r = Fds(env)
            r.thin = thin
            try:
                ai = run(p, f, r)
            except AnalysisBroken:
                if thin:
                    raise
                r, ai = res[k][1:]          # too large to be more precise
                break
            res[k] = (f, r, ai)
            if not ai.viol:
                break
        up = [c.owner for c in cal.get(k, []) if c.owner.tu == f.tu]
        if ai.viol and f.local and up and k not in p.addr_taken():
            passed[k] = ai              # judged within its callers
            res[k] = (f, r, None)
            work += sorted({c.key for c in up} - set(res) - set(work))
        if r.returned and env.given.get(k) != r.returned:
            env.given[k] = r.returned
            work += sorted({c.owner.key for c in cal.get(k, [])} - set(work))
    for k, ai in passed.items():
        # a caller too large to be looked at with what it calls says nothing about it
        if res[k][2] is None and any(getattr(res[c.owner.key][1], 'shallow', False) for c in cal[k] if c.owner.key in res):
            res[k] = res[k][:2] + (ai,)
    for (k, n), (ins, trail) in sorted(env.mixed.items(), key=str):
        ctx.bad('agree', ins.loc(), '%s takes over the descriptor it is given on some paths and leaves it to its caller on others, one of which ends here' % p.fns[k].name, key='agree|%s|%d' % (p.fns[k].name, n))
    for k, n in sorted(env.memo):
        if env.memo[k, n]:
            ctx.ok('agree', p.fns[k].loc())
    # what a connection is made from: its socket is taken over on every path
    for f, ins in stores_to(p, 'liServerSocket', 'new_cb'):
        t = fn_values(p, ins.a[0], f.tu)
        if t and not env.consumes(t.name, t.tu, 1) and (t.key, 1) not in env.mixed:
            ctx.bad('agree', t.loc(), '%s does not take over the socket of the new connection' % t.name, key='agree|%s' % t.name)
    for k in sorted(res):
        f, r, ai = res[k]
        if ai is not None:
            ctx.take(ai, 'owned')
            ctx.ok('owned', f.loc())
        sites |= r.sites
        closes |= r.closes
        handed |= r.handed
        frees |= r.frees
    ctx.floor('functions', len(res), 60)
    ctx.floor('sources', len(sites), 25)
    ctx.floor('closes', len(closes), 50)
    ctx.floor('hand_overs', len(handed), 20)
    ctx.floor('summaries', env.n, 12)
    ctx.floor('owner_frees', len(frees), 6)


def static_place(f, v):
    """(Struct, field) a watcher given by the address of its base lies in"""
    d = f.defs().get(int(v[1:])) if isinstance(v, str) and v.startswith('%') and v[1:].isdigit() else None
    if d is None or d.op != 'getelementptr':
        return None
    ks = [(x[1], x[2]) for x in d.p if x[0] == 'f']
    for k in ks:
        if k in WATCHERS:
            return k
    return static_place(f, d.a[0])


def static_steps(f, v, depth=0):
    if isinstance(v, list) and v and v[0] == 'gep':
        return [(x[1], x[2]) for x in v[2] if x[0] == 'f']
    d = f.defs().get(int(v[1:])) if isinstance(v, str) and v.startswith('%') and v[1:].isdigit() else None
    if d is None or depth > 8 or d.op != 'getelementptr':
        return []
    return [(x[1], x[2]) for x in d.p if x[0] == 'f'] + static_steps(f, d.a[0], depth + 1)
