"""C17: load counters and limits count exactly what is there"""
from common import *

POOL, WPOOL, CON = 'liBackendPool_p', 'liBackendWorkerPool', 'liBackendConnection_p'
KINDS = ('active', 'reserved', 'idle', 'pending')


def cur(st, addr):
    """what memory holds at addr"""
    v = st.mem.get(addr)
    return v if v is not None else mk('init', addr)


def strip(v):
    """without integer casts"""
    while isinstance(v, V) and v.k in ('u', 'trunc', 'z', 's', 'zext', 'sext', 'cast') and isinstance(v.a[0], V):
        v = v.a[0]
    if isinstance(v, V) and v.k == 'sum':
        c, d = lin(v)
        e = {}
        for k, n in d.items():
            k = strip(k)
            c2, d2 = lin(k)
            c += n * c2
            for x, m in d2.items():
                e[x] = e.get(x, 0) + n * m
        return mklin(c, e)
    return v


def delta(ai, st, ins, addr, val):
    """what an instruction adds to the memory at addr, None if that is not a constant"""
    if ins.op == 'atomicrmw':
        n = ai.val(st, ins.a[1], ins)
        if not isconst(n):
            return None
        return n if ins.x.get('rmw') == 'add' else -n if ins.x.get('rmw') == 'sub' else None
    if ins.op != 'store':
        return None
    d = add(strip(val), strip(cur(st, addr)), -1)
    if not isconst(d):
        d = add(val, cur(st, addr), -1)
    if isconst(d):
        d = (d + (1 << 31)) % (1 << 32) - (1 << 31)
        return d
    return None


def nonzero(st, v):
    """True, False or None"""
    if isconst(v):
        return v != 0
    lo, hi, ne = st.rng(v)
    if lo > 0 or hi < 0 or 0 in ne:
        return True
    return False if lo == hi == 0 else None


class Ledger(Rule):
    """sums of what the paths of a function add to counters; `end` says which of them have to be zero"""

    def __init__(self, p):
        self.p = p
        self.bad = []       # (state, instruction, message)
        self.lost = set()
        self.seen = set()

    def start(self, st, fn, ai):
        set_ps(st, d=())
        self.fn = fn
        self.init(st, fn, ai)

    def init(self, st, fn, ai):
        pass

    def put(self, st, k, n):
        d = dict(get_ps(st, 'd') or ())
        d[k] = max(-2, min(2, d.get(k, 0) + n))
        set_ps(st, d=tuple(sorted(((a, b) for a, b in d.items() if b), key=lambda x: str(x[0].n if isinstance(x[0], V) else x[0]))))

    def get(self, st, k):
        return dict(get_ps(st, 'd') or ()).get(k, 0)

    def wrong(self, st, ins, msg, ai):
        self.bad.append((st.trail, ins, msg))

    def flush(self, ai):
        for trail, ins, msg in self.bad:
            k = (ins.loc(), msg)
            if k not in ai.viol:
                ai.viol[k] = (ins, msg, trail_list(trail))


def settle(ctx, p, rule, what, fns, touches, kw, floor):
    """functions whose sums are not zero are accepted if they are only ever called directly: then their callers, into
    which they are inlined, have to make up for it"""
    inl = {}
    work = {f.key: f for f in fns}
    done = {}
    calls = p.callers()
    while work:
        nxt = {}
        for k in sorted(work):
            f = work[k]
            r = what(p)
            try:
                ai = analyse(p, f, r, policy=lambda t, ins, d: t.key in inl or t.tu == ins.owner.tu and t.local and not touches(t) and t.key not in done and t.key not in work and small(p, t, touches), **kw)
            except AnalysisBroken:
                # (too many cases: what was left to the callers is judged where it is)
                if not any(t in inl for t in p.reach([f])):
                    raise
                done.update({t: inl.pop(t) for t in sorted(p.reach([f])) if t in inl})
                continue
            if r.bad and f.local and f.key not in p.addr_taken() and calls.get(f.key) and k not in done:
                inl[f.key] = (f, r, ai)
                for c in calls[f.key]:
                    if c.owner.key != f.key:
                        nxt[c.owner.key] = c.owner
            else:
                done[f.key] = (f, r, ai)
        work = {k: f for k, f in nxt.items() if k not in inl and not (k in done and not any(t in inl for t in p.reach([f])))}
        for k in work:
            done.pop(k, None)
    seen = set()
    for k in sorted(done):
        f, r, ai = done[k]
        r.flush(ai)
        ctx.take(ai, rule)
        ctx.ok(rule, f.loc())
        seen |= r.seen
    ctx.floor(rule, len(seen), floor)
    return done


def small(p, t, touches):
    """a helper that only passes on (its own calls may matter)"""
    return sum(1 for i in t.instrs()) < 60 and all(not (p.callee(i) and touches(p.callee(i))) for i in t.calls())


class Pools(Ledger):
    """backend pools: total is the sum of the kinds, each kind the sum over the workers, pending the length of the connect queue"""

    def init(self, st, fn, ai):
        set_ps(st, pop=None)
        self.q = None
        if fn.name in connect_callbacks(self.p):
            self.q = ai.val(st, '$0')

    def store(self, st, ins, addr, val, ai):
        k = fkey(addr) if isinstance(addr, V) else None
        if not k or k[0] not in (POOL, WPOOL) or k[1] not in KINDS + ('total',):
            return
        n = delta(ai, st, ins, addr, val)
        self.seen.add(ins.loc())
        if n is None:
            self.wrong(st, ins, 'a connection count is set to something unrelated to what it was', ai)
            return
        if k[0] == POOL and k[1] == 'total':
            self.put(st, 'sum', n)
        elif k[0] == POOL:
            self.put(st, 'sum', -n)
            self.put(st, k[1], n)
        else:
            self.put(st, k[1], -n)
            if k[1] == 'pending':
                self.put(st, 'queue', n)

    def isq(self, st, v):
        return isinstance(v, V) and (fkey(v) == (WPOOL, 'connect_queue') or self.q is not None and v is self.q)

    def call(self, st, ins, name, args, ai):
        if name == 'li_waitqueue_push' and self.isq(st, args[0]):
            self.put(st, 'queue', -1)
            self.seen.add(ins.loc())
        elif name == 'li_waitqueue_remove' and self.isq(st, args[0]):
            self.put(st, 'queue', 1)
            self.seen.add(ins.loc())

    def post_call(self, st, ins, name, args, res, ai):
        if name in ('li_waitqueue_pop', 'li_waitqueue_pop_force') and self.isq(st, args[0]):
            set_ps(st, pop=res)
            self.popped(st)
            self.seen.add(ins.loc())

    def popped(self, st):
        v = get_ps(st, 'pop')
        if v is not None:
            n = nonzero(st, v)
            if n is not None:
                set_ps(st, pop=None)
                if n:
                    self.put(st, 'queue', 1)

    def branch(self, st, ins, cond, truth, ai):
        self.popped(st)

    MSG = {'sum': 'the total number of connections of a pool is not changed like its parts', 'queue': 'the number of pending connections is not changed like the queue of pending connections'}

    def ret(self, st, ins, val, ai):
        for k, n in get_ps(st, 'd') or ():
            self.wrong(st, ins, self.MSG.get(k) or 'the number of %s connections of a pool is not changed like the one of its worker' % k, ai)


def connect_callbacks(p):
    if not hasattr(p, '_c17cb'):
        p._c17cb = set()
        for f in p.fns.values():
            for i in f.calls():
                if callee_name(i) == 'li_waitqueue_init' and static_field(f, i.a[0]) == (WPOOL, 'connect_queue'):
                    p._c17cb |= {v[1:] for v in i.a if isinstance(v, str) and v.startswith('@')}
    return p._c17cb


def stores_field(f, S, fs):
    for i in f.instrs():
        if i.op in ('store', 'atomicrmw', 'cmpxchg'):
            k = static_field(f, i.a[1] if i.op == 'store' else i.a[0])
            if k and k[0] in S and k[1] in fs:
                return True
    return False


PURE = LOGS | {'li_waitqueue_push', 'li_waitqueue_remove', 'li_event_clear', 'close', 'g_slice_free1', 'g_mutex_lock', 'g_mutex_unlock', 'li_vrequest_joblist_append', 'li_job_async',
               'g_queue_pop_head_link', 'g_queue_push_tail_link', 'li_event_stop', 'li_event_async_send', 'getpeername', 'getsockopt', 'li_sockaddr_to_string'}


def pools(ctx, p):
    ctx.rule('pools', 'the connection counts of a backend pool agree with each other and with the queue of pending connections')

    def touches(f):
        return stores_field(f, (POOL, WPOOL), KINDS + ('total',)) or any(callee_name(i) in ('li_waitqueue_push', 'li_waitqueue_remove', 'li_waitqueue_pop', 'li_waitqueue_pop_force') and (
            static_field(f, i.a[0]) == (WPOOL, 'connect_queue') or f.name in connect_callbacks(p)) for i in f.calls())
    ctx.need(connect_callbacks(p), 'the queue of pending connections is not initialised anywhere')
    fns = [f for f in p.fns.values() if touches(f)]
    settle(ctx, p, 'pools', Pools, fns, touches, dict(K=60, maxtime=60, maxvisit=8000, purecalls=PURE, keepfields={(S, x) for S in (POOL, WPOOL) for x in KINDS + ('total',)}), 20)


class Pick(Ledger):
    """the load of a backend is the number of requests that selected it"""

    def init(self, st, fn, ai):
        set_ps(st, new=None, unl=())

    def links(self, st):
        """requests that are known not to wait"""
        u = set(get_ps(st, 'unl'))
        for a, v in st.mem.items():
            if isinstance(a, V) and a.k == 'fld' and a.a[1:3] == ('_GList', 'data') and is_fld(a.a[0], 'bcontext', 'backlog_link') and nonzero(st, v) is False:
                u.add(a.a[0].a[0])
        set_ps(st, unl=tuple(sorted(u, key=lambda x: x.n)))

    def branch(self, st, ins, cond, truth, ai):
        self.links(st)

    def store(self, st, ins, addr, val, ai):
        k = fkey(addr) if isinstance(addr, V) else None
        if k == ('_GList', 'data') and is_fld(addr.a[0], 'bcontext', 'backlog_link'):
            u = set(get_ps(st, 'unl')) - {addr.a[0].a[0]}
            if nonzero(st, val) is False:
                u.add(addr.a[0].a[0])
            set_ps(st, unl=tuple(sorted(u, key=lambda x: x.n)))
        if k == ('backend', 'load'):
            if root(addr).k == 'alloca':
                return
            n = delta(ai, st, ins, addr, val)
            self.seen.add(ins.loc())
            if n not in (1, -1):
                self.wrong(st, ins, 'the load of a backend is changed by something else than one', ai)
                return
            self.put(st, where(st, addr.a[0]), n)
        elif k == ('bcontext', 'selected'):
            self.seen.add(ins.loc())
            old = cur(st, addr)
            if addr.a[0] is get_ps(st, 'new'):
                old = -1
                set_ps(st, new=None)
            self.change(st, old, val)

    def change(self, st, old, new):
        """the context gives up the old and takes the new backend: a debt which a change of the load settles"""
        for v, s in ((old, 1), (new, -1)):
            if isconst(v):
                if v >= 0:
                    self.put(st, mk('const', v), s)
            elif st.rng(v)[1] >= 0:
                self.put(st, strip(v), s)

    def call(self, st, ins, name, args, ai):
        if name == 'g_slice_free1' and args[0] == size(self.p, 'bcontext') and isinstance(args[1], V):
            self.seen.add(ins.loc())
            b = args[1]
            self.change(st, cur(st, fld(self.p, b, 'bcontext', 'selected')), -1)
            self.links(st)
            if b not in get_ps(st, 'unl'):
                ai.report(st, ins, 'the state of a request is freed although it may be in the list of waiting requests', 'linked')

    def post_call(self, st, ins, name, args, res, ai):
        if name and name.startswith('g_slice_alloc') and args[0] == size(self.p, 'bcontext'):
            set_ps(st, new=res)

    def ret(self, st, ins, val, ai):
        for k, n in get_ps(st, 'd') or ():
            if k.k != 'const' and st.rng(k)[1] < 0:
                continue
            self.wrong(st, ins, 'the load of a backend is not the number of requests that selected it any more', ai)


def size(p, S):
    x = p.structs[S]
    return x.get('size', x.get('sz'))


def fld(p, o, S, f):
    return mk('fld', o, S, f, [x[1] for x in p.structs[S]['fields'] if x[0] == f][0])


def where(st, b):
    """the index of an array element at address b"""
    if isinstance(b, V) and b.k == 'idx':
        x = strip(b.a[1])
        return x if isinstance(x, V) else mk('const', x)
    return mk('elem', b)


def balance(ctx, p):
    ctx.rule('balance', 'the load of a balancer backend is the number of requests that selected it')
    n = size(p, 'bcontext')

    def touches(f):
        return stores_field(f, ('backend',), ('load',)) or stores_field(f, ('bcontext',), ('selected',)) or f.tu == tu and any(callee_name(i) == 'g_slice_free1' and i.a[0] == n for i in f.calls())
    tu = [f for f in p.fns.values() if stores_field(f, ('backend',), ('load',))]
    ctx.need(tu, 'the load of backends is not changed anywhere')
    tu = tu[0].tu
    settle(ctx, p, 'balance', Pick, [f for f in p.fns.values() if touches(f)], touches, dict(K=60, maxtime=40, purecalls=PURE, keepfields={('bcontext', 'selected')}), 5)


MLC = 'mod_limit_context'
CONN, IP, REQ, REQ_IP = range(4)


class Limit(Ledger):
    """limit.*: who is let in is counted (once) and remembered, who is not leaves no trace; leaving takes back what entering counted"""
    enter = True

    def init(self, st, fn, ai):
        set_ps(st, ctx=ai.val(st, '$1') if self.enter else None, used=False, look=None, before=None, ref=None, freed=False, out=False, direct=None, fresh=None, queued=False, handled=None, num=None, rq=None, verdict=None, kind=None, one=False)

    def types(self, st, c):
        if get_ps(st, 'kind'):
            return set(get_ps(st, 'kind'))
        v = cur(st, fld(self.p, c, MLC, 'type'))
        lo, hi, ne = st.rng(v) if isinstance(v, V) else (v, v, ())
        return {t for t in range(4) if lo <= t <= hi and t not in ne}

    def counter(self, k):
        return k == (MLC, 'pool')

    def load(self, st, ins, addr, val, ai):
        k = fkey(addr) if isinstance(addr, V) else None
        if k and k[1] == 'requests' and get_ps(st, 'rq') is None and isinstance(addr, V):
            set_ps(st, rq=(addr.a[0], val, val))
        if k and k[0] == MLC:
            if not self.enter and isinstance(addr, V) and addr.k == 'fld' and addr.a[0] is get_ps(st, 'ctx'):
                set_ps(st, used=True)
        if not self.enter and isinstance(addr, V) and addr.k in ('idx', 'fld', 'init', 'sym') and isinstance(val, V) and elements(ai.fn, ins):
            self.finish(st, ins, ai)
            set_ps(st, ctx=val, used=False, d=(), look=None, before=None, ref=None, freed=False, kind=None, one=False)

    def store(self, st, ins, addr, val, ai):
        k = fkey(addr) if isinstance(addr, V) else None
        c = get_ps(st, 'ctx')
        if k and ins.op == 'store' and k[1] == 'requests':
            o = get_ps(st, 'rq')
            set_ps(st, rq=(addr.a[0], o[1] if o and o[0] is addr.a[0] else None, val))
        elif k and ins.op == 'store' and addr.k == 'fld' and is_fld(addr.a[0], MLC, 'pool') and addr.a[0].a[0] is c and (val == 1 or isconst(delta(ai, st, ins, addr, val))):
            set_ps(st, num=val)
        if ins.op == 'store' or not k or k[0] != MLC or addr.k != 'fld':
            return
        n = delta(ai, st, ins, addr, val)
        self.seen.add(ins.loc())
        if addr.a[0] is not c or n is None:
            ai.report(st, ins, 'counts somewhere else than in the limit that is checked', 'where')
            return
        if k[1] == 'refcount':
            self.put(st, 'ref', n)
            set_ps(st, ref=val)
        elif k[1] == 'pool':
            self.put(st, 'con', n)
            if n > 0:
                set_ps(st, before=val)

    def call(self, st, ins, name, args, ai):
        if name in ('li_radixtree_insert', 'li_radixtree_remove'):
            l = get_ps(st, 'look')
            self.seen.add(ins.loc())
            if l is None or any(x is not y and x != y for x, y in zip(l[1:], args[:3])):
                ai.report(st, ins, 'changes the entry of another address than the one that was looked up', 'address')
                return
            if name == 'li_radixtree_remove':
                lo, hi, ne = st.rng(strip(l[0])) if isinstance(l[0], V) else (l[0], l[0], ())
                if not lo == hi == 1 and not get_ps(st, 'one'):
                    ai.report(st, ins, 'the count of an address is dropped although it is not known to be the last', 'drop')
                self.put(st, 'ip', -1)
            else:
                d = add(strip(args[3]), strip(l[0]), -1)
                if isconst(d):
                    self.put(st, 'ip', d)
                    lo, hi, ne = st.rng(strip(args[3])) if isinstance(args[3], V) else (args[3], args[3], ())
                    set_ps(st, before=l[0])
                elif alloced(args[3]):
                    set_ps(st, fresh=args[3])
                elif not isinstance(args[3], V):
                    ai.report(st, ins, 'the count of an address is set to something unrelated to what it was', 'set')
        elif name == 'g_ptr_array_add' and args[1] is get_ps(st, 'ctx'):
            self.put(st, 'arr', 1)
            self.seen.add(ins.loc())
            if alloced(args[0]) and not any(v is args[0] and isinstance(a, V) and root(a).k != 'alloca' for a, v in st.mem.items()):
                ai.report(st, ins, 'what was counted is remembered in a list that is not kept with the request', 'list')
        elif name == 'g_slice_free1' and args[0] == size(self.p, MLC) and args[1] is get_ps(st, 'ctx'):
            set_ps(st, freed=True)
        elif name == 'li_action_enter':
            set_ps(st, out=True)
        elif name == 'li_waitqueue_push':
            set_ps(st, queued=True)

    def post_call(self, st, ins, name, args, res, ai):
        if name in ('li_radixtree_lookup_exact', 'li_radixtree_lookup'):
            if name != 'li_radixtree_lookup_exact':
                ai.report(st, ins, 'looks up the network an address belongs to instead of the address', 'exact')
            set_ps(st, look=(res, args[0], args[1], args[2]), one=False)
        elif name == 'li_vrequest_handle_direct':
            set_ps(st, direct=res)
        elif name == 'li_vrequest_is_handled':
            set_ps(st, handled=res)

    def finish(self, st, ins, ai):
        """a request leaves: one of its limits is done"""
        c = get_ps(st, 'ctx')
        if c is None or not get_ps(st, 'used'):
            return
        t = self.types(st, c)
        want = {'con': -1 if t == {CONN} else 0, 'ip': -1 if t == {IP} else 0, 'ref': -1}
        for k, n in want.items():
            if (CONN in t) != (t == {CONN}) or (IP in t) != (t == {IP}):
                ai.report(st, ins, 'what is taken back does not depend on the kind of the limit', 'kind')
                return
            if self.get(st, k) != n:
                ai.report(st, ins, {'con': 'a request that leaves does not take back exactly one from the number of connections', 'ip': 'a request that leaves does not take back exactly one from the number of connections of its address',
                                    'ref': 'a request that leaves does not give back its reference to the limit exactly once'}[k] + ('' if n or k == 'ref' else ' (although it was not counted there)'), k)
        self.last(st, ins, ai)

    def last(self, st, ins, ai):
        r = get_ps(st, 'ref')
        if r is None:
            return
        lo, hi, ne = st.rng(r) if isinstance(r, V) else (r, r, ())
        if lo == hi == 1 and not get_ps(st, 'freed'):
            ai.report(st, ins, 'the last reference to a limit is given back but the limit is not freed', 'last')
        if not lo == hi == 1 and get_ps(st, 'freed'):
            ai.report(st, ins, 'a limit is freed although it is still in use', 'inuse')

    def ret(self, st, ins, val, ai):
        if not self.enter:
            self.finish(st, ins, ai)
            return
        c = get_ps(st, 'ctx')
        t = self.types(st, c)
        n = self.get(st, 'arr')
        if n not in (0, 1):
            ai.report(st, ins, 'a limit is remembered twice', 'twice')
        for k in ('con', 'ip', 'ref'):
            want = n if k == 'ref' or t == {dict(con=CONN, ip=IP)[k]} else 0
            if self.get(st, k) != want:
                ai.report(st, ins, {'con': 'the number of connections', 'ip': 'the number of connections of an address', 'ref': 'the number of references of a limit'}[k] +
                          ' is not raised exactly for the requests that are let in and remembered', k)
        if len(t) == 1:
            self.judge(st, ins, ai, c, min(t), n)
        elif n:
            ai.report(st, ins, 'a request is let in without any check', 'unchecked')
        if t == {REQ} and n and get_ps(st, 'num') is None:
            ai.report(st, ins, 'a request is let in without being counted', 'uncounted')
        if not n and not get_ps(st, 'out') and nonzero(st, get_ps(st, 'direct') if get_ps(st, 'direct') is not None else 0) is not True:
            h = get_ps(st, 'handled')
            if (h is None or nonzero(st, h) is not True) and val == 0:
                ai.report(st, ins, 'a request that is not let in goes on', 'goon')

    def branch(self, st, ins, cond, truth, ai):
        """what the comparisons decided, as soon as it is known"""
        if isinstance(cond, V) and cond.k == 'cmp' and get_ps(st, 'look') and cond.a[0] in ('eq', 'ne') and (cond.a[0] == 'eq') == truth:
            d = add(add(strip(cond.a[1]), strip(cond.a[2]), -1), strip(get_ps(st, 'look')[0]), -1)
            if d == -1:
                set_ps(st, one=True)
        c = get_ps(st, 'ctx')
        if c is not None and not get_ps(st, 'kind'):
            t = self.types(st, c)
            if len(t) == 1 or t == {REQ, REQ_IP}:
                set_ps(st, kind=tuple(sorted(t)))
        r = get_ps(st, 'ref')
        if isinstance(r, V):
            lo, hi, ne = st.rng(r)
            if lo == hi == 1:
                set_ps(st, ref=1)
            elif 1 in ne or lo > 1:
                set_ps(st, ref=2)
        if not self.enter:
            return
        for k in ('direct', 'handled'):
            v = get_ps(st, k)
            if isinstance(v, V) and nonzero(st, v) is not None:
                set_ps(st, **{k: int(nonzero(st, v))})
        if get_ps(st, 'verdict') is None:
            t = self.types(st, get_ps(st, 'ctx'))
            v = self.verdict(st, min(t)) if len(t) == 1 else None
            if v:
                set_ps(st, verdict=v)

    def verdict(self, st, t):
        """'in' if there is room below the limit, 'out' if not"""
        c = get_ps(st, 'ctx')
        lim = cur(st, fld(self.p, c, MLC, 'limit'))

        def holds(op, a):
            for x in {a, strip(a)}:
                for y in {lim, strip(lim)}:
                    if st.evalcmp(op, x, y) is True or st.evalcmp({'slt': 'sle', 'sge': 'sgt'}[op], add(x, 1), y) is True:
                        return True
            return False
        l = get_ps(st, 'look')
        if t == CONN:
            x = get_ps(st, 'before')
        elif t == IP:
            x = l[0] if l else None
        elif t == REQ:
            x = get_ps(st, 'num')
            if x == 1:
                return 'in'
            x = add(x, -1) if x is not None else None
        else:
            x = get_ps(st, 'rq')
            if get_ps(st, 'fresh') is not None or x is None or l is None or x[0] is not l[0]:
                return None
            x = x[1]
        if x is None:
            return None
        return 'in' if holds('slt', x) else 'out' if holds('sge', x) else None

    def judge(self, st, ins, ai, c, t, n):
        v = get_ps(st, 'verdict') or self.verdict(st, t)
        if nonzero(st, get_ps(st, 'handled') if get_ps(st, 'handled') is not None else 0) is True:
            return
        self.done.add(t)
        f = get_ps(st, 'fresh')
        if t == REQ_IP and f is not None:
            r = get_ps(st, 'rq')
            if not n or r is None or r[0] is not f or r[2] != 1 or not get_ps(st, 'queued'):
                ai.report(st, ins, 'the first request of an address is not counted as one, for a limited time', 'first')
            return
        if v != ('in' if n else 'out') and (n or val_ok(st, get_ps(st, 'look'), t)):
            ai.report(st, ins, 'a request is %s although %s' % (('let in', 'the limit may be reached') if n else ('refused', 'the limit is not known to be reached')), 'limit')
        if t == REQ_IP and n:
            r = get_ps(st, 'rq')
            if r is None or r[1] is None or add(strip(r[2]), strip(r[1]), -1) != 1:
                ai.report(st, ins, 'a request is let in without being counted', 'uncounted')


def val_ok(st, look, t):
    """(a request that is turned away because its address cannot be counted is not refused because of the limit)"""
    return t not in (IP, REQ_IP) or look is not None


class Leave(Limit):
    enter = False
    joins = True
    headjoin = True

    def init(self, st, fn, ai):
        Limit.init(self, st, fn, ai)
        self.ai = ai
        self.here = fn.blocks[0][0]

    def load(self, st, ins, addr, val, ai):
        self.here = ins
        Limit.load(self, st, ins, addr, val, ai)

    def head(self, st):
        self.finish(st, self.here, self.ai)
        set_ps(st, ctx=None, used=False, d=(), look=None, before=None, ref=None, freed=False, out=False, direct=None, fresh=None, queued=False, handled=None, kind=None, one=False)


def bases(a):
    r = []
    while isinstance(a, V) and a.k in ('fld', 'idx'):
        a = a.a[0]
        r.append(a)
    return r


def alloced(v):
    return isinstance(v, V) and v.k == 'sym' and any(x in str(v.a[1]) for x in ('alloc', 'array_sized_new', 'array_new'))


def elements(f, ins):
    """the instruction loads an element of a GPtrArray"""
    d = f.defs()
    x = ins.a[0]
    if static_field(f, x):
        return False
    for _ in range(6):
        i = d.get(int(x[1:])) if isinstance(x, str) and x[1:].isdigit() else None
        if i is None:
            return False
        if i.op == 'getelementptr' or i.op == 'bitcast':
            x = i.a[0]
        elif i.op == 'load':
            return static_field(f, i.a[0]) == ('_GPtrArray', 'pdata')
        else:
            return False
    return False


def limits(ctx, p):
    ctx.rule('limits', 'limit.* lets in exactly as many as configured, and what entering counted is taken back once when the request leaves')

    def touches(f):
        return any(i.op == 'atomicrmw' and static_field(f, i.a[0]) == (MLC, 'pool') for i in f.instrs())
    fns = [f for f in p.fns.values() if touches(f)]
    roots, seen = {}, set()
    calls = p.callers()
    while fns:
        f = fns.pop()
        if f.key in seen:
            continue
        seen.add(f.key)
        if f.local and f.key not in p.addr_taken():
            fns += [c.owner for c in calls.get(f.key, [])]
        else:
            roots[f.key] = f
    sites, done, ent = set(), set(), [0, 0]
    for k in sorted(roots):
        f = roots[k]
        enter = any(p.callee(i) is None and callee_name(i) == 'g_ptr_array_add' for g in p.reach([f], lambda t: t.tu == f.tu) for i in p.fns[g].calls())
        ent[not enter] += 1
        r = (Limit if enter else Leave)(p)
        r.done = done
        ai = analyse(p, f, r, K=100, maxtime=60, purecalls=PURE | {'li_radixtree_insert', 'li_radixtree_remove', 'li_radixtree_lookup_exact', 'li_vrequest_is_handled', 'g_ptr_array_add', 'g_mutex_free'},
                     keepfields={(MLC, x) for x in ('type', 'limit')}, policy=lambda t, ins, d: t.tu == ins.owner.tu)
        ctx.take(ai, 'limits')
        ctx.ok('limits', f.loc())
        sites |= r.seen
    ctx.need(ent[0] and ent[1], 'the functions that count requests for limit.* were not found')
    ctx.floor('limit_sites', len(sites), 8)
    ctx.floor('limit_kinds', len(done), 4)


class Accept(Ledger):
    """a connection is only accepted below the limit, and counted before it is handed to its worker"""

    def init(self, st, fn, ai):
        set_ps(st, cur=None, max=None, room=False)

    def load(self, st, ins, addr, val, ai):
        k = fkey(addr) if isinstance(addr, V) else None
        if k == ('liServer', 'connection_load'):
            set_ps(st, cur=val, room=False)
        elif k == ('liServer', 'max_connections'):
            set_ps(st, max=val)
        self.look(st)

    def look(self, st):
        a, b = get_ps(st, 'cur'), get_ps(st, 'max')
        if a is not None and b is not None and (st.evalcmp('ult', a, b) is True or st.evalcmp('slt', a, b) is True):
            set_ps(st, room=True, cur=None, max=None)

    def branch(self, st, ins, cond, truth, ai):
        self.look(st)

    def store(self, st, ins, addr, val, ai):
        k = fkey(addr) if isinstance(addr, V) else None
        if k == ('liServer', 'connection_load') or k == ('liWorker', 'connection_load'):
            n = delta(ai, st, ins, addr, val)
            self.seen.add(ins.loc())
            if n is None:
                self.wrong(st, ins, 'a number of connections is set to something unrelated to what it was', ai)
            else:
                self.put(st, mk('key', k[0], addr.a[0] if k[0] == 'liWorker' else ''), n)

    def call(self, st, ins, name, args, ai):
        if name in ('accept', 'accept4'):
            self.seen.add(ins.loc())
            if not get_ps(st, 'room'):
                ai.report(st, ins, 'accepts a connection although the limit may be reached', 'room')
        elif name == 'li_worker_new_con':
            self.seen.add(ins.loc())
            self.put(st, mk('key', 'liServer', ''), -1)
            self.put(st, mk('key', 'liWorker', args[1]), -1)
            self.zero(st, ins, ai)
            set_ps(st, room=False)

    def zero(self, st, ins, ai):
        for k, n in get_ps(st, 'd') or ():
            self.wrong(st, ins, 'a connection that is handed to a worker is not counted once for the %s' % ('server' if k.a[0] == 'liServer' else 'worker it is handed to'), ai)
        set_ps(st, d=())

    def ret(self, st, ins, val, ai):
        self.zero(st, ins, ai)


class Slots(Ledger):
    """the list of active connections of a worker"""
    KEYS = {('liServer', 'connection_load'): 'the connections of the server', ('liWorker', 'connection_load'): 'the connections of the worker', ('liWorker', 'connections_active'): 'the active connections'}

    def init(self, st, fn, ai):
        set_ps(st, slots=(), ids=(), al=())
        self.con = ai.val(st, '$0') if fn.dty[1].startswith('liConnection') else None

    def store(self, st, ins, addr, val, ai):
        k = fkey(addr) if isinstance(addr, V) else None
        if k in self.KEYS:
            n = delta(ai, st, ins, addr, val)
            self.seen.add(ins.loc())
            if n is None:
                self.wrong(st, ins, 'the number of %s is set to something unrelated to what it was' % self.KEYS[k], ai)
            else:
                self.put(st, k, n)
        elif ins.op == 'store' and isinstance(val, V) and isinstance(addr, V) and addr.k == 'idx' and self.inlist(st, addr.a[0]):
            self.seen.add(ins.loc())
            set_ps(st, slots=tuple(x for x in get_ps(st, 'slots') if x[0] is not addr.a[1]) + ((addr.a[1], val),))

        elif k == ('liConnection', 'idx') and ins.op == 'store':
            set_ps(st, ids=tuple(x for x in get_ps(st, 'ids') if x[0] is not addr.a[0]) + ((addr.a[0], val),))

    def load(self, st, ins, addr, val, ai):
        """(two entries of the list are different connections: what was stored in one is not changed by storing in the other)"""
        if fkey(addr) == ('liConnection', 'idx') if isinstance(addr, V) else False:
            for o, v in get_ps(st, 'ids'):
                if o is addr.a[0] and val is not v and isinstance(val, V):
                    set_ps(st, al=get_ps(st, 'al') + ((strip(val), v),))

    def inlist(self, st, b):
        return loaded_from(st, b, '_GArray', 'data')

    def same(self, st, a, b):
        a, b = strip(a), strip(b)
        for x, y in get_ps(st, 'al'):
            a = y if a is x else a
            b = y if b is x else b
        return a is b or isconst(a) and isconst(b) and a == b or st.evalcmp('eq', a, b) is True

    def ret(self, st, ins, val, ai):
        d = dict(get_ps(st, 'd') or ())
        if self.con is None:
            # a connection becomes active
            if d != {('liWorker', 'connections_active'): 1}:
                self.wrong(st, ins, 'a new connection is not counted once as active connection', ai)
            return
        idx = mk('init', fld(self.p, self.con, 'liConnection', 'idx'))
        if not d:
            lo, hi, ne = st.rng(idx)
            if not (lo == hi and lo in (-1, 0xffffffff)) and not any(st.rng(x)[0:2] == (-1, -1) for x in (mk('u', idx, 32), mk('trunc', idx, 32))) and st.evalcmp('eq', idx, -1) is not True:
                self.wrong(st, ins, 'an active connection ends without being taken off the counts', ai)
            return
        for k in self.KEYS:
            if d.get(k) != -1:
                self.wrong(st, ins, 'a connection that ends is not taken off the number of %s exactly once' % self.KEYS[k], ai)
        w = [a for a in st.mem if isinstance(a, V) and a.k == 'fld' and a.a[1:3] == ('liWorker', 'connections_active')]
        act = [st.mem[a] for a in w]
        s = get_ps(st, 'slots')
        if any(self.same(st, idx, a) for a in act):
            return
        if not any(self.same(st, x, idx) and v is not self.con for x, v in s) or not any(v is self.con and any(self.same(st, x, a) for a in act) for x, v in s):
            ai.report(st, ins, 'a connection that ended stays in the list of active connections (or another one is dropped from it)', 'hole')
        for x, v in s:
            if v is not self.con and not any(o is v and self.same(st, y, x) for o, y in get_ps(st, 'ids')):
                ai.report(st, ins, 'the connection that is moved in the list does not know its new place', 'place')


def connections(ctx, p):
    ctx.rule('accept', 'a connection is accepted only below the limit of the server and counted once, for the server and its worker')
    ctx.rule('active', 'a connection that ends is taken off all counts once, and off the list of active connections')
    ks = (('liServer', 'connection_load'), ('liWorker', 'connection_load'), ('liWorker', 'connections_active'))

    def rmw(f):
        return any(i.op in ('atomicrmw', 'store') and static_field(f, i.a[0 if i.op == 'atomicrmw' else 1]) in ks for i in f.instrs())
    fns = [f for f in p.fns.values() if rmw(f)]
    calls = p.callers()
    acc = [f for f in p.fns.values() if any(callee_name(i) in ('accept', 'accept4') for i in f.calls()) and any(callee_name(i) == 'li_worker_new_con' for i in f.calls())]
    ctx.need(acc, 'the place where connections are accepted was not found')
    seen = set()
    for f in acc:
        r = Accept(p)
        ai = analyse(p, f, r, K=60, maxtime=40, purecalls=PURE | {'accept', 'accept4', 'li_fd_no_block', 'li_sockaddr_remote_from_socket', '__errno_location', 'li_server_socket_acquire'}, policy=lambda t, ins, d: t.tu == ins.owner.tu)
        r.flush(ai)
        ctx.take(ai, 'accept')
        ctx.ok('accept', f.loc())
        seen |= r.seen
    ctx.floor('accept', len(seen), 4)
    seen = set()
    n = 0
    for f in sorted(fns, key=lambda f: f.key):
        d = {static_field(f, i.a[0]): i.a[1] for i in f.instrs() if i.op == 'atomicrmw' and static_field(f, i.a[0]) in ks}
        if f in acc or not d or not (f.dty[0].startswith('liConnection') or f.dty[1].startswith('liConnection')):
            continue
        r = Slots(p)
        ai = analyse(p, f, r, K=100, maxtime=40, purecalls=PURE | {'li_server_state_ready', 'li_connection_free'}, policy=lambda t, ins, d: t.tu == ins.owner.tu)
        r.flush(ai)
        ctx.take(ai, 'active')
        ctx.ok('active', f.loc())
        seen |= r.seen
        n += 1
    ctx.floor('active_functions', n, 2)
    ctx.floor('active', len(seen), 6)


def check(ctx):
    p = prog()
    pools(ctx, p)
    balance(ctx, p)
    limits(ctx, p)
    connections(ctx, p)
