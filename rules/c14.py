"""C14: state shared between threads is used only under its lock, and locks are always released"""
from common import *

# which lock protects what.  Kinds: 'r' every access, 'w' writes only (reads are atomic, or belong to the owning thread),
# 'p' the object the pointer refers to (the pointer itself never changes once the object is published), 'pw' both
B = ('liBackendPool_p', 'lock')
L = ('balancer', 'lock')
A = ('liAngelConnection', 'mutex')
D = ('liFetchDatabase', 'lock')
M = ('mod_limit_context', 'mutex')
Q = ('?logs', 'write_queue_mutex')
S = ('liServer', 'statelock')
GUARDED = {}


def _g(lock, S_, kind, *fields):
    for f in fields:
        GUARDED[S_, f] = (lock, kind)


_g(B, 'liBackendPool_p', 'r', 'active', 'reserved', 'idle', 'pending', 'total', 'wait_queue', 'ts_disabled_till', 'shutdown')
_g(B, 'liBackendWorkerPool', 'r', 'active', 'reserved', 'idle', 'pending', 'wait_queue')
_g(B, 'liBackendWorkerPool', 'p', 'connections')
_g(B, 'liBackendConnection_p', 'r', 'ndx', 'wait', 'worker_next')
_g(B, 'liBackendConnection_p', 'w', 'worker')
_g(B, 'liBackendWait', 'r', 'con', 'failed')
_g(L, 'balancer', 'r', 'state', 'next_ndx', 'wake', 'delete_later', 'backlog', 'backlog_reactivate_now')
_g(L, 'backend', 'r', 'load', 'state', 'wake')
_g(L, 'bcontext', 'r', 'backlog_link', 'ref', 'scheduled')
_g(A, 'liAngelConnection', 'p', 'out', 'call_id_list', 'call_table')
_g(A, 'liAngelCall', 'w', 'id')
_g(D, 'liFetchDatabase', 'pw', 'cache')
_g(D, 'liFetchDatabase', 'r', 'lru_queue', 'lru_negative_queue')
_g(D, 'liFetchEntryP', 'r', 'wait_queue', 'refreshing', 'lru_link')
_g(D, 'liFetchEntryP', 'w', 'state')
_g(M, 'mod_limit_context', 'p', 'pool')
_g(M, 'mod_limit_req_ip_data', 'r', 'requests')
_g(('AuthFile', 'lock'), 'AuthFile', 'r', 'data', 'next_check', 'last_stat')
_g(('throttle_ip_pools', 'lock'), 'throttle_ip_pools', 'p', 'ipv4_pools', 'ipv6_pools')
_g(('liServer', 'fetch_backends_mutex'), 'liServer', 'p', 'fetch_backends')
_g(S, 'liServer', 'r', 'state_wait_queue')
_g(S, 'liServerStateWait', 'w', 'active', 'queue_link')
_g(('liSSLSessionDB', 'mutex'), 'liSSLSessionDB', 'p', 'db')
_g(('liThrottlePool', 'rearm_mutex'), 'liThrottlePool', 'w', 'last_rearm')
_g(('#logs', 'write_queue_mutex'), '#logs', 'r', 'write_queue')

# functions of other libraries that are not thread safe, and the lock that serialises them
NONREENTRANT = {'crypt': ('global', 'crypt_mutex')}
# callbacks that run with a lock held: the destroy function of a hash table which is itself guarded
ENTRY = {('liFetchDatabase', 'cache'): D}
OWNERS = {l[0] for l, k in GUARDED.values()}
LUA = ('liLuaState', 'lualock')
ALLOC = {'g_slice_alloc0', 'g_slice_alloc', 'g_malloc0', 'g_malloc', 'g_malloc0_n', 'g_malloc_n', 'calloc', 'malloc', 'g_slice_copy'}
LOCK = {'g_mutex_lock': 1, 'g_mutex_unlock': -1, 'g_rec_mutex_lock': 1, 'g_rec_mutex_unlock': -1, 'g_static_rec_mutex_lock': 1, 'g_static_rec_mutex_unlock': -1,
        'li_lua_lock': 1, 'li_lua_unlock': -1, 'pthread_mutex_lock': 1, 'pthread_mutex_unlock': -1}
REC = {'g_rec_mutex_lock', 'g_rec_mutex_unlock', 'g_static_rec_mutex_lock', 'g_static_rec_mutex_unlock', 'li_lua_lock', 'li_lua_unlock'}
INIT = {'g_static_mutex_init', 'g_mutex_init', 'g_static_rec_mutex_init'}
GETTER = {'g_static_mutex_get_mutex_impl', 'g_static_mutex_get_mutex'}


def norm(k):
    """(Struct, field); members of liServer's embedded log record are named by their field"""
    if k and k[1] in ('write_queue_mutex', 'write_queue'):
        return ('#logs', k[1])
    return k


def chain(a):
    """the (Struct, field) steps an address goes through, outermost last"""
    r = []
    while isinstance(a, V) and a.k in ('fld', 'idx', 'elem', 'off'):
        if a.k == 'fld':
            r.append(norm((a.a[1], a.a[2])))
        a = a.a[0]
    return r


def top(a):
    while isinstance(a, V) and a.k in ('fld', 'idx', 'elem', 'off'):
        a = a.a[0]
    return a


def fresh(a):
    """memory this path allocated itself (not published before it is linked under the lock), or a local"""
    t = top(a)
    if isinstance(t, V) and t.k in ('alloca', 'local'):
        return True
    return isinstance(t, V) and t.k == 'sym' and any(('%s(' % n) in show(t) for n in ALLOC)


def static_key(fn, v):
    """lock named by an operand, read off the instructions"""
    d = fn.defs().get(int(v[1:])) if isinstance(v, str) and v.startswith('%') and v[1:].isdigit() else None
    if d is not None and d.op == 'call' and callee_name(d) in GETTER:
        return static_key(fn, d.a[0])
    if d is not None and d.op == 'load':
        return norm(static_field(fn, d.a[0]))
    k = static_field(fn, v)
    if k:
        return norm(k)
    if isinstance(v, str) and v.startswith('@'):
        return ('global', v[1:])
    return None


def static_chain(fn, v, depth=0):
    """all (Struct, field) steps of the address an operand denotes, read off the instructions"""
    if isinstance(v, list) and v and v[0] == 'gep':
        return [norm((x[1], x[2])) for x in v[2] if x[0] == 'f']
    d = fn.defs().get(int(v[1:])) if isinstance(v, str) and v.startswith('%') and v[1:].isdigit() else None
    if d is None or depth > 8:
        return []
    if d.op == 'getelementptr':
        return [norm((x[1], x[2])) for x in d.p if x[0] == 'f'] + static_chain(fn, d.a[0], depth + 1)
    if d.op in ('bitcast', 'addrspacecast'):
        return static_chain(fn, d.a[0], depth + 1)
    return []


class Locks(Rule):
    def __init__(self, p, acq, mod, entry=(), own=()):
        self.p, self.acq, self.mod, self.entry, self.own = p, acq, mod, tuple(entry), tuple(own)
        self.contexts = set()
        self.nl = self.na = 0
        self.edges = {}
        self.created = set()
        self.sites = set()
        self.used = {}
        self.rets = set()
        self.asites = set()

    # --- state: held = {key: depth}, dead/own = locks created or destroyed on this path, pend = accesses still to be justified
    def start(self, st, fn, ai):
        set_ps(st, held=tuple((k, 1) for k in self.entry), own=self.own, pend=(), new=())

    def held(self, st):
        return dict(get_ps(st, 'held'))

    def key(self, st, ins, v, ai):
        for m in st.marks:
            if m[0] == 'lk' and m[1] is v:
                return m[2]
        if isinstance(v, V):
            if v.k == 'init' and fkey(v.a[0]):
                return norm(fkey(v.a[0]))
            if v.k == 'fld':
                return norm((v.a[1], v.a[2]))
            if v.k == 'g':
                return ('global', v.a[0].lstrip('@'))
        k = static_key(ai.fn, ins.a[0])
        return k

    def op(self, st, ins, name, v, ai):
        k = LUA if name.startswith('li_lua_') else self.key(st, ins, v, ai)
        if k is None:
            raise AnalysisBroken('cannot tell which lock %s takes' % ins.loc())
        self.used.setdefault(k, ins.loc())
        rec = name in REC
        if rec:
            k = LUA
        h = self.held(st)
        n = h.get(k, 0)
        self.sites.add((ins.loc(), name))
        if LOCK[name] > 0:
            if not rec and n > 0:
                ai.report(st, ins, 'takes the lock %s->%s while already holding it: the thread blocks on itself for ever' % k, ('twice', k))
                return False
            for o in h:
                if o != k and h[o] > 0:
                    self.edges.setdefault((o, k), (ai.fn.name, ins.loc()))
            if k == M:
                ty = [x for a, x in mem_of(st, 'mod_limit_context', 'type')]
                if any(st.const(x) == self.p.enum('ML_TYPE_CON') for x in ty):
                    ai.report(st, ins, 'takes the mutex of a limit.con context, which has none', ('nomutex',))
            h[k] = n + 1
        else:
            if n <= 0 and not rec:
                ai.report(st, ins, 'releases the lock %s->%s, which is not held here' % k, ('nolock', k))
                return False
            h[k] = n - 1
        set_ps(st, held=tuple(sorted((a, b) for a, b in h.items() if b)))

    def call(self, st, ins, name, args, ai):
        if name in LOCK:
            if self.op(st, ins, name, args[0] if args else None, ai) is False:
                return False
            return
        if name == 'g_mutex_trylock':
            return
        if name in ('g_mutex_free', 'g_mutex_clear', 'g_static_mutex_free', 'g_static_mutex_init', 'g_mutex_init', 'g_static_rec_mutex_init', 'g_static_rec_mutex_free'):
            k = self.key(st, ins, args[0], ai)
            if k:
                if name.endswith('init'):
                    self.created.add(k)
                if self.held(st).get(k, 0) > 0 and k != D:     # a database is kept by its references while it is in use
                    ai.report(st, ins, 'destroys the lock %s->%s while it is held' % k, ('freeheld', k))
                set_ps(st, own=tuple(sorted(set(get_ps(st, 'own')) | {k})), pend=tuple(x for x in get_ps(st, 'pend') if x[0] != k))
            return
        if name in ('g_slice_free1', 'g_free', 'free'):
            o = args[-1]
            set_ps(st, pend=tuple(x for x in get_ps(st, 'pend') if x[3] is None or x[3] is not o), new=tuple(x for x in get_ps(st, 'new') if x[1] is not o))
            return
        if name in NONREENTRANT:
            self.need(st, ins, NONREENTRANT[name], 'calls %s()' % name, ai)
        for a in args:
            self.access_arg(st, ins, name, a, ai)
        g = self.p.resolve(name, ai.fn.tu) if name else None
        if self.mod.contextual(g, ai.fn.tu):
            self.contexts.add((g.key, tuple(sorted(k for k, n in get_ps(st, 'held') if n > 0 and k != LUA)), get_ps(st, 'own')))
        elif g is not None:
            for k, n in get_ps(st, 'held'):
                if n > 0 and k != LUA:
                    for k2, where in self.acq(g).items():
                        if k2 == k:
                            ai.report(st, ins, 'calls %s() with the lock %s->%s held, which takes the same lock again (%s)' % ((name,) + k + (where,)), ('relock', k, name))
                        elif k2 != k:
                            self.edges.setdefault((k, k2), (ai.fn.name, ins.loc()))

    def post_call(self, st, ins, name, args, res, ai):
        if name in GETTER and isinstance(res, V):
            k = norm(fkey(args[0])) if isinstance(args[0], V) and args[0].k == 'fld' else static_key(ai.fn, ins.a[0])
            if k is None and isinstance(args[0], V) and args[0].k == 'g':
                k = ('global', args[0].a[0].lstrip('@'))
            if k:
                st.mark('lk', res, k)
                track(st, res)
        if name == 'g_mutex_new' and isinstance(res, V):
            st.mark('mnew', res)
            track(st, res)

    def need(self, st, ins, lock, what, ai, b=None):
        self.asites.add(ins.loc())
        if dict(get_ps(st, 'held')).get(lock, 0) > 0 or lock in get_ps(st, 'own'):
            return
        if sum(x[0] == lock for x in get_ps(st, 'pend')) >= 3:
            return
        set_ps(st, pend=tuple(sorted(set(get_ps(st, 'pend')) | {(lock, ins.loc(), what, b)}, key=lambda x: (x[:3], show(x[3])))))

    def access_arg(self, st, ins, name, a, ai):
        if not isinstance(a, V) or (name or '').startswith('llvm.dbg') or (name or '').startswith('llvm.lifetime'):
            return
        for m in st.marks:
            if m[0] == 'gp' and m[1] is a:
                self.need(st, ins, m[2], 'passes the object of %s->%s to %s()' % (m[3] + (name or 'a callback',)), ai, m[4])
        if fresh(a):
            return
        for k in chain(a):
            if k in GUARDED and GUARDED[k][1] in ('r', 'pw', 'p'):
                self.need(st, ins, GUARDED[k][0], 'passes %s->%s to %s()' % (k + (name or 'a callback',)), ai, top(a))

    def load(self, st, ins, addr, val, ai):
        self.access(st, ins, addr, False, ai)
        c = chain(addr)
        if c and c[0] == ('balancer', 'wrk') and isinstance(val, V):
            st.setr(val, -INF, INF, frozenset([0]))     # set once, when the balancer is made
        if isinstance(val, V) and c and isinstance(addr, V) and addr.k == 'fld':
            if c[0] in GUARDED and 'p' in GUARDED[c[0]][1] and not fresh(addr):
                st.mark('gp', val, GUARDED[c[0]][0], c[0], top(addr))
                track(st, val)
            if c[0][1] in ('lock', 'mutex', 'statelock', 'action_mutex', 'fetch_backends_mutex', 'rearm_mutex', 'lualock') or 'mutex' in str(c[0][1]) or 'lock' in str(c[0][1]):
                st.mark('lk', val, c[0])
                track(st, val)

    def store(self, st, ins, addr, val, ai):
        self.access(st, ins, addr, True, ai)
        t = top(addr)
        if isinstance(t, V) and t.k == 'sym' and isinstance(addr, V) and addr.k == 'fld' and addr.a[0] is t and fresh(addr) and addr.a[1] in OWNERS:
            if (addr.a[1], t) not in get_ps(st, 'new'):
                set_ps(st, new=get_ps(st, 'new') + ((addr.a[1], t),))
            if addr.a[1:3] == ('mod_limit_context', 'type') and st.const(val) == self.p.enum('ML_TYPE_CON'):
                set_ps(st, con=True)     # these are counted without a lock
        if isinstance(val, V) and ('mnew', val) in st.marks:
            c = chain(addr)
            if c:
                k = c[0]
                self.created.add(k)
                set_ps(st, own=tuple(sorted(set(get_ps(st, 'own')) | {k})), pend=tuple(x for x in get_ps(st, 'pend') if x[0] != k))

    def access(self, st, ins, addr, write, ai):
        if not isinstance(addr, V) or fresh(addr):
            return
        c = chain(addr)
        for n, k in enumerate(c):
            if k not in GUARDED:
                continue
            lock, kind = GUARDED[k]
            if kind == 'r' or write and kind in ('w', 'pw') or n > 0 and 'p' in kind:
                self.need(st, ins, lock, '%s %s->%s' % (('writes' if write else 'reads',) + k), ai, top(addr))
        t = top(addr)
        for m in st.marks:
            if m[0] == 'gp' and m[1] is t:
                self.need(st, ins, m[2], '%s the object of %s->%s' % (('writes' if write else 'reads',) + m[3]), ai, m[4])

    def branch(self, st, ins, cond, truth, ai):
        # an action whose callback runs is referenced, so its balancer is not being deleted
        if self.in_request:
            for a, x in mem_of(st, 'balancer', 'delete_later'):
                if st.const(x) not in (None, 0) or st.nonzero(x):
                    return False

        if self.thin:
            for v in [v for v in st.facts if v.k != 'arg' and not (v.k == 'cmp' and isinstance(v.a[1], V) and v.a[1].k == 'arg')]:
                del st.facts[v]

    thin = True         # forget what branches say about values (enough for nearly every function)
    in_request = False

    def ret(self, st, ins, val, ai):
        con = get_ps(st, 'con', False)
        for S_, t in get_ps(st, 'new'):
            self.rets.add((S_, get_ps(st, 'own'), con))
        want = {k: 1 for k in self.entry}
        for k, n in get_ps(st, 'held'):
            if n != want.get(k, 0):
                ai.report(st, ins, 'returns with the lock %s->%s %s' % (k + ('still held: every other thread that needs it blocks for ever' if n > 0 else 'released once too often',)), ('leak', k))
        for k in want:
            if k not in dict(get_ps(st, 'held')):
                ai.report(st, ins, 'returns after releasing the lock %s->%s of its caller' % k, ('lost', k))
        for lock, loc, what, b in get_ps(st, 'pend'):
            ai.report(st, ins, '%s at %s without holding %s->%s: another thread may be changing it' % ((what, loc) + lock), ('guard', lock, loc, what))


POLICY = ('li_lua_lock', 'li_lua_unlock')


def relevant(p):
    """functions that take locks or touch guarded state"""
    r = {}
    for f in p.fns.values():
        for i in f.instrs():
            if i.op == 'call' and callee_name(i) in LOCK and f.name not in POLICY:
                r.setdefault(f.key, set()).add('lock')
            elif i.op == 'call' and callee_name(i) in NONREENTRANT or i.op == 'call' and callee_name(i) in INIT:
                r.setdefault(f.key, set()).add('acc')
            elif i.op in ('load', 'store'):
                if any(k in GUARDED for k in static_chain(f, i.a[0 if i.op == 'load' else 1])):
                    r.setdefault(f.key, set()).add('acc')
    return r


def acquisitions(p):
    """locks a call may take, through direct calls"""
    own = {}
    for f in p.fns.values():
        for i in f.calls():
            n = callee_name(i)
            if n in LOCK and LOCK[n] > 0 and n not in REC:
                k = static_key(f, i.a[0])
                if k:
                    own.setdefault(f.key, {}).setdefault(k, i.loc())
    memo = {}

    def acq(g):
        if g.key not in memo:
            d = {}
            for k in p.reach([g]):
                for x, w in own.get(k, {}).items():
                    d.setdefault(x, w)
            memo[g.key] = d
        return memo[g.key]
    return acq


class Modular:
    """which callees are inlined: those that (transitively, within their file) take or release a lock, and small ones.  A larger
    callee that only touches guarded state is analysed on its own for every set of locks it is called with."""

    def __init__(self, p, rel):
        self.p, self.rel = p, rel
        self.memo = {}

    def closure(self, f):
        if f.key not in self.memo:
            s = set()
            for k in self.p.reach([f]):
                if self.p.fns[k].tu == f.tu:
                    s |= self.rel.get(k, set())
            self.memo[f.key] = s
        return self.memo[f.key]

    def inline(self, t):
        if t.name in POLICY or (t.file and t.file.startswith('/usr/')):
            return False
        c = self.closure(t)
        return 'lock' in c or bool(c) and sum(len(b) for b in t.blocks) <= 60

    def policy(self, t, ins, depth):
        return t.tu == ins.owner.tu and self.inline(t)

    def contextual(self, t, tu):
        return t is not None and t.tu == tu and not self.inline(t) and 'acc' in self.closure(t)


def check(ctx):
    p = prog()
    ctx.rule('released', 'on every path a function that takes a lock releases it before it returns; it never releases a lock it does not hold, takes one twice or destroys one that is held')
    ctx.rule('guarded', 'every access to state shared between threads happens while the lock that protects it is held (or in the path that creates or destroys the lock)')
    ctx.rule('order', 'no function called with a lock held takes it again, and the order in which locks nest has no cycle')
    ctx.rule('created', 'an object whose lock is used is never handed out without the lock')
    rel = relevant(p)
    acq = acquisitions(p)
    at = p.addr_taken()
    cal = p.callers()
    roots = {}
    for k in sorted(rel):
        for f in roots_calling(p, p.fns[k]):
            roots[f.key] = f
    # destroy callbacks of guarded hash tables
    entry = {}
    for f in p.fns.values():
        for i in f.calls():
            if callee_name(i) == 'g_hash_table_new_full':
                for s in f.instrs():
                    if s.op == 'store' and s.a[0] == '%%%s' % i.id and norm(static_field(f, s.a[1])) in ENTRY:
                        t = fn_values(p, i.a[3], f.tu)
                        if t:
                            entry[t.key] = ENTRY[norm(static_field(f, s.a[1]))]
    balancer = set()
    for f in p.fns.values():
        for i in f.calls():
            if callee_name(i) == 'li_action_new_balancer':
                for a in i.a:
                    t = fn_values(p, a, f.tu) if isinstance(a, str) else None
                    if t and not t.name.endswith('_free'):
                        balancer.add(t.key)
    mod = Modular(p, rel)
    edges = {}
    nl = set()
    na = set()
    created = set()
    used = {}
    work = [(k, (entry[k],) if k in entry else (), ()) for k in sorted(roots)]
    done = set()
    made = []
    while work:
        k, e, o = work.pop(0)
        if (k, e, o) in done:
            continue
        done.add((k, e, o))
        f = p.fns[k]
        for thin in (True, False):
            m = Locks(p, acq, mod, e, o)
            m.thin = thin
            m.in_request = k in balancer
            try:
                ai = analyse(p, f, m, K=3, maxvisit=80000, purecalls=LOGS, policy=mod.policy, maxdepth=8)
            except AnalysisBroken:
                if thin:
                    raise
                m = first           # too large to be more precise
                break
            if not ai.viol:
                break
            first = m
        ctx.take(ai, 'locks')
        ctx.ok('locks', f.loc())
        edges.update(m.edges)
        nl |= m.sites
        na |= m.asites
        created |= m.created
        used.update(m.used)
        work += sorted(m.contexts)
        made.append((f, m.rets))
    for f, rets in made:
        for S_, own, con in sorted(rets):
            for x in sorted(created | set(used)):
                if x[0] == S_ and x not in own and not (x == M and con):
                    ctx.bad('created', f.loc(), '%s makes an object on a path on which it does not create its lock %s->%s' % ((f.name,) + x), key='created|%s|%s->%s' % ((f.name,) + x))
    for x in sorted(used):
        if x[0] != 'global' and x != LUA and x not in created:
            ctx.bad('created', used[x], 'the lock %s->%s is used but never created' % x, key='created|%s->%s' % x)
        else:
            ctx.ok('created', used[x])
    # the nesting order must be acyclic
    for a, b in sorted(edges):
        seen, w = set(), [b]
        while w:
            x = w.pop()
            if x == a:
                ctx.bad('order', edges[a, b][1], 'takes %s->%s while holding %s->%s, and elsewhere they are taken in the opposite order: two threads can block each other' % (b + a), key='order|%s->%s|%s->%s' % (a + b))
                break
            if x not in seen:
                seen.add(x)
                w += [d for c, d in edges if c == x]
        else:
            ctx.ok('order', edges[a, b][1])
    ctx.floor('roots_and_contexts', len(done), 100)
    ctx.floor('lock_operations', len(nl), 140)
    ctx.floor('guarded_accesses', len(na), 300)
    ctx.floor('locks', len(created), 10)
