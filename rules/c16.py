"""C16: chunk queues neither lose, duplicate, reorder nor miscount data"""
from common import *

STRING, MEM, FILE, BUFFER = 1, 2, 3, 4
KINDS = {'length': 'len', 'bytes_in': 'in', 'bytes_out': 'out', 'mem_usage': 'mem'}
CELL = {'len': ('length', 24), 'in': ('bytes_in', 8), 'out': ('bytes_out', 16), 'mem': ('mem_usage', 32)}
WHAT = {'len': 'length', 'in': 'bytes_in', 'out': 'bytes_out', 'mem': 'mem_usage'}
QPURE = {'g_queue_push_tail_link', 'g_queue_unlink', 'g_queue_pop_head_link', 'g_queue_peek_head', 'g_queue_peek_tail', 'g_queue_peek_head_link', 'g_queue_peek_tail_link', 'g_queue_init',
         'g_queue_foreach', 'g_queue_pop_tail_link', 'g_queue_push_head_link', 'li_g_queue_merge', 'li_chunkfile_acquire', 'li_buffer_acquire', 'li_chunkfile_release', 'li_buffer_release',
         'li_cqlimit_release', 'li_cqlimit_acquire', 'munmap', 'g_byte_array_free', 'g_slice_free1', 'g_byte_array_sized_new', 'close', 'unlink'}


def fld(p, o, S, f):
    return mk('fld', o, S, f, [x[1] for x in p.structs[S]['fields'] if x[0] == f][0])


def rd(st, addr, p=None):
    """what memory holds at addr now"""
    v = st.mem.get(addr)
    if v is None:
        r = addr
        while isinstance(r, V) and r.k in ('fld', 'idx'):
            r = r.a[0]
            if r in st.zero and not st.is_dirty(addr, ()):
                st.mem[addr] = 0
                return 0
        if st.is_dirty(addr, ()) or 'stale' in (root(addr).k if isinstance(root(addr), V) else ''):
            v = mk('sym', ('c16', addr.n), 'now %s' % (fkey(addr) or '',)[0:1])
            st.purge(v)
        else:
            v = mk('init', addr)
        st.mem[addr] = v
    return v


def clean(v):
    """the value without the widening of a 32 bit count"""
    if not isinstance(v, V):
        return v
    if v.k in ('u', 'trunc') and v.a[1] == 32:
        return clean(v.a[0])
    if v.k == 'sum':
        c, d = lin(v)
        e = {}
        for k, n in d.items():
            k = clean(k)
            c2, d2 = lin(k)
            c += n * c2
            for x, m in d2.items():
                e[x] = e.get(x, 0) + n * m
        return mklin(c, e)
    return v


def simp(st, v):
    """resolve what is known by now: the type of a chunk, constants"""
    v = clean(v)
    if isconst(v):
        return v
    lo, hi, ne = st.rng(v)
    if lo == hi:
        return lo
    c, d = lin(v)
    e = {}
    for k, n in d.items():
        lo, hi, ne = st.rng(k)
        if lo == hi:
            c += n * lo
            continue
        if k.k == 'pos' or k.k == 'iff':
            lo, hi, ne = st.rng(k.a[0]) if isinstance(k.a[0], V) else (k.a[0], k.a[0], ())
            x = None
            if k.k == 'pos' and lo >= 0:
                x = k.a[0]
            elif k.k == 'iff' and (lo > 0 or hi < 0 or 0 in ne):
                x = k.a[1]
            elif k.k == 'pos' and hi <= 0 or lo == hi == 0:
                x = 0
            if x is not None:
                c2, d2 = lin(simp(st, x))
                c += n * c2
                for y, m in d2.items():
                    e[y] = e.get(y, 0) + n * m
                continue
        if k.k == 'chunk':
            xs = {pick(k.a[0], t, k.a[2:]) for t in ctypes(st, k.a[1])}
            if len(xs) == 1:
                x = xs.pop()
                c2, d2 = lin(simp(st, x))
                c += n * c2
                for y, m in d2.items():
                    e[y] = e.get(y, 0) + n * m
                continue
        e[k] = e.get(k, 0) + n
    return mklin(c, e)


def ctype(st, t):
    """the type of a chunk if it is known (what is none of the four types has no data)"""
    if isconst(t):
        return t
    lo, hi, ne = st.rng(t)
    return lo if lo == hi else 0 if all(x in ne or x < lo or x > hi for x in (STRING, MEM, FILE, BUFFER)) else None


def ctypes(st, t):
    if isconst(t):
        return {t}
    lo, hi, ne = st.rng(t)
    return {x for x in (0, STRING, MEM, FILE, BUFFER) if lo <= x <= hi and (x == 0 or x not in ne)}


def pick(kind, t, a):
    s, m, f, b, off = a
    if kind == 'mem':
        return clean({STRING: s, MEM: m, BUFFER: b}.get(t, 0))
    x = {STRING: s, MEM: m, FILE: f, BUFFER: b}.get(t)
    return 0 if x is None else clean(add(clean(x), off, -1))


def symids(v):
    return {s.a[0] for s in v.syms} if isinstance(v, V) else set()


def lost(v):
    return isinstance(v, V) and (any(isinstance(x.a[0], tuple) and x.a[0][0] in ('j', 'jm') for x in v.syms) or 'stale' in show(v))


class Acct(Rule):
    joins = True
    headjoin = True

    def head(self, st):
        st.tracked = frozenset()
        st.marks = frozenset(m for m in st.marks if m[0] == 'd' or m[0] == 'in' and m[3] == 'head')
        for m in [m for m in st.marks if m[0] == 'd']:
            st.mark('d', m[1], m[2], simp(st, m[3]))
        set_ps(st, cut=None, new=None, src=(), pop=None)

    def __init__(self, p, updater, callback=False):
        self.p, self.updater, self.callback = p, updater, callback
        self.events = set()
        self.queues = set()
        self.undet = set()

    def start(self, st, fn, ai):
        set_ps(st, q=(), gone=(), cut=None, new=None, src=(), pop=None)
        cqs = []
        for n, t in enumerate(fn.dty[1:]):
            if t == 'liChunkQueue*':
                cqs.append(ai.val(st, '$%d' % n))
        if self.callback:
            cqs = [ai.val(st, '$1')]
            st.setr(ai.val(st, '$0'), 1, INF, frozenset())
            track(st, rd(st, fld(self.p, ai.val(st, '$0'), 'liChunk', 'type')))
        for c in cqs:
            st.setr(c, 1, INF, frozenset())
            self.touch(st, c)
        for n, a in enumerate(cqs):
            for b in cqs[n + 1:]:
                st.assume(mk('cmp', 'eq', a, b), False)

    # --- the difference between what a queue says and what is in it
    def touch(self, st, cq):
        if cq not in get_ps(st, 'q'):
            set_ps(st, q=tuple(sorted(get_ps(st, 'q') + (cq,), key=show)))
            for k in CELL:
                st.mark('d', k, cq, 0)
                rd(st, mk('fld', cq, 'liChunkQueue', *CELL[k]))
        self.queues.add(show(cq))

    def vals(self, st, k, cq):
        return [m[3] for m in st.marks if m[0] == 'd' and m[1] == k and m[2] is cq]

    def adj(self, st, k, cq, delta):
        self.touch(st, cq)
        for m in [m for m in st.marks if m[0] == 'd' and m[1] == k and m[2] is cq]:
            st.unmark(*m)
            for x in self.forms(st, add(m[3], clean(delta))):
                st.mark('d', k, cq, x)

    def setd(self, st, k, cq, vals):
        for m in [m for m in st.marks if m[0] == 'd' and m[1] == k and m[2] is cq]:
            st.unmark(*m)
        for v in vals:
            st.mark('d', k, cq, clean(v))

    def cell(self, st, k, cq):
        return rd(st, mk('fld', cq, 'liChunkQueue', *CELL[k]))

    def forget(self, st, ins):
        for m in [m for m in st.marks if any(isinstance(x, V) and ins.id in symids(x) for x in m[1:])]:
            st.unmark(*m)
        if any(ins.id in symids(x) for x in st.tracked):
            st.tracked = frozenset(x for x in st.tracked if ins.id not in symids(x))

    def rebase(self, st, dying, env=True):
        """some symbols are about to be forgotten: what was computed from them gets a name of its own, and the balance is expressed with it"""
        res = lambda v: isinstance(v, V) and any(dying(x) for x in v.syms)
        cells = []
        for e, m in ((0, st.mem), (1, st.env if env else {})):
            for a, v in list(m.items()):
                if res(v) and v.k in (('sum', 'chunk') if env else ('sum', 'pos', 'sym', 'idx', 'off')) and not (e == 0 and res(a)):
                    v = simp(st, flat(v))
                    if isinstance(v, V):
                        cells.append((m, a, v, mk('sym', ('c16', 'cell', a if e else a.n), show(a)[:40] if e == 0 else 'value %s' % a)))
                    else:
                        m[a] = v
        names = {s for m, a, v, s in cells}
        new = set()
        for m in [m for m in st.marks if m[0] == 'd']:
            for x in self.forms(st, m[3]):
                if not (isinstance(x, V) and (res(x) or x.syms & names)):
                    new.add((m[1], m[2], x))
                for mm, a, v, s in cells:
                    for c in (1, -1):
                        e = simp(st, flat(add(x, v, -c)))
                        if not (isinstance(e, V) and (res(e) or e.syms & names)):
                            new.add((m[1], m[2], add(e, s, c)))
            st.unmark(*m)
        rngs = [st.rng(v) for m, a, v, s in cells]
        for m, a, v, s in cells:
            st.purge(s)
        for (m, a, v, s), r in zip(cells, rngs):
            m[a] = s
            st.setr(s, *r)
        for k, q, x in new:
            st.mark('d', k, q, x)

    def renamed(self, st, old, pairs):
        new = {s for s, v in pairs}
        for m in [m for m in st.marks if any(isinstance(x, V) and x.syms & new for x in m[1:])]:
            st.unmark(*m)
        for m in old.marks:
            if m[0] != 'd':
                continue
            for val in self.forms(old, m[3]):
                if isconst(val) or not (val.syms & new):
                    st.mark('d', m[1], m[2], val)
                for s, v in pairs:
                    for v in self.forms(old, v):
                        for sign in (1, -1):
                            e = add(val, v, -sign)
                            if isconst(e) and isconst(v) == isconst(val) or not isconst(e) and not (e.syms & new) and len(lin(e)[1]) < len(lin(val)[1]):
                                st.mark('d', m[1], m[2], add(e, s, sign))

    @staticmethod
    def forms(st, v):
        return {clean(v), simp(st, v)}

    def join(self, st, s, va, a, vb, b):
        if a is b:
            return          # a renaming, see above
        xa, xb = self.forms(a, va), self.forms(b, vb)
        for m in a.marks:
            if m[0] != 'd':
                continue
            for n in b.marks:
                if n[:3] == m[:3] and not (isconst(m[3]) and same(m[3], n[3])):
                    for sign in (1, -1):
                        ea = {add(x, y, -sign) for x in self.forms(a, m[3]) for y in xa}
                        eb = {add(x, y, -sign) for x in self.forms(b, n[3]) for y in xb}
                        for e in ea & eb:
                            if not (isinstance(e, V) and s in e.syms):
                                st.mark('d', m[1], m[2], add(e, s, sign))

    def alarm(self, st, ins, ai, vals, msg, key):
        """only what is known exactly is a violation: after the states of too many paths were merged nothing is known about the balance"""
        if all(lost(v) for v in vals):
            self.undet.add(ins.loc())
        else:
            ai.report(st, ins, msg, key)

    # --- chunks
    def parts(self, st, c):
        p = self.p
        t = rd(st, fld(p, c, 'liChunk', 'type'))
        if isinstance(t, V):
            lo, hi, ne = st.rng(t)
            if lo < 0 or hi > BUFFER:
                st.setr(t, max(lo, 0), min(hi, BUFFER), ne)
        d = fld(p, c, 'liChunk', 'data')
        s = rd(st, fld(p, rd(st, fld(p, d, 'liChunk.data', 'str')), '_GString', 'len')) if isinstance(rd(st, fld(p, d, 'liChunk.data', 'str')), V) else 0
        a = rd(st, fld(p, c, 'liChunk', 'mem'))
        m = rd(st, fld(p, a, '_GByteArray', 'len')) if isinstance(a, V) else 0
        f = rd(st, fld(p, fld(p, d, 'liChunk.data', 'file'), 'liChunk.data.file', 'length'))
        b = rd(st, fld(p, fld(p, d, 'liChunk.data', 'buffer'), 'liChunk.data.buffer', 'length'))
        off = rd(st, fld(p, c, 'liChunk', 'offset'))
        return t, (s, m, f, b, off)

    def size(self, st, c, kind):
        t, a = self.parts(st, c)
        if isinstance(t, V):
            track(st, t)
        if isconst(t):
            return pick(kind, t, a)
        return mk('chunk', kind, t, *[clean(x) for x in a])

    def chunk(self, st, link):
        if isinstance(link, V) and link.k == 'fld' and (link.a[1], link.a[2]) == ('liChunk', 'cq_link'):
            return link.a[0]
        if isinstance(link, V):
            c = rd(st, fld(self.p, link, '_GList', 'data'))
            return c if isinstance(c, V) else None
        return None

    def where(self, st, c):
        for m in st.marks:
            if m[0] == 'in' and m[1] is c:
                return m[2], m[3]
        return None, None

    def queue(self, a):
        return a.a[0] if isinstance(a, V) and a.k == 'fld' and (a.a[1], a.a[2]) == ('liChunkQueue', 'queue') else None

    def put(self, st, ins, cq, c, ai):
        n, m = self.size(st, c, 'len'), self.size(st, c, 'mem')
        self.events.add(ins.loc())
        self.adj(st, 'len', cq, add(0, n, -1))
        self.adj(st, 'in', cq, add(0, n, -1))
        self.adj(st, 'mem', cq, add(0, m, -1))

    def take(self, st, ins, cq, c, ai):
        n, m = self.size(st, c, 'len'), self.size(st, c, 'mem')
        self.events.add(ins.loc())
        self.adj(st, 'len', cq, n)
        self.adj(st, 'out', cq, add(0, n, -1))
        self.adj(st, 'mem', cq, m)

    def call(self, st, ins, name, args, ai):
        self.forget(st, ins)
        cq = self.queue(args[0]) if args else None
        if cq is not None:
            self.touch(st, cq)
        if name == 'g_queue_push_tail_link' and cq is not None:
            c = self.chunk(st, args[1])
            if c is None:
                ai.report(st, ins, 'appends something that is not a chunk', 'push')
                return
            self.put(st, ins, cq, c, ai)
            if not any(m[0] == 'out' and m[1] is c for m in st.marks):
                self.fresh(st, ins, c, ai)
        elif name in ('g_queue_push_head_link', 'g_queue_pop_tail_link', 'g_queue_reverse', 'g_queue_push_nth_link', 'g_queue_sort') and cq is not None:
            ai.report(st, ins, 'data is put in or taken out of the queue at the wrong end (%s)' % name, 'fifo')
        elif name == 'g_queue_unlink' and cq is not None:
            c = self.chunk(st, args[1])
            w = self.where(st, c)
            if not self.callback and not (w[0] is cq and w[1] == 'head'):
                ai.report(st, ins, 'removes a chunk that is not known to be the first one of the queue', 'fifo')
            self.take(st, ins, cq, c, ai)
            for m in [m for m in st.marks if m[0] == 'in' and m[2] is cq and m[3] == 'head']:
                st.unmark(*m)
        elif name == 'g_queue_foreach' and cq is not None:
            f = args[1].a[0] if isinstance(args[1], V) and args[1].k == 'fn' else None
            if f is None or args[2] is not cq:
                ai.report(st, ins, 'calls a function that cannot be determined, or with another queue, for each chunk', 'foreach')
                return
            self.events.add(ins.loc())
            # everything is removed, and accounted for in mem_usage, by the callback (checked on its own)
            ln = self.cell(st, 'len', cq)
            dl = self.vals(st, 'len', cq)
            if dl:
                true = add(ln, dl[0], -1)
                self.adj(st, 'out', cq, add(0, true, -1))
            self.setd(st, 'len', cq, [ln])
            dm = self.vals(st, 'mem', cq)
            if dm:
                st.mem[mk('fld', cq, 'liChunkQueue', *CELL['mem'])] = dm[0]
        elif name == 'li_g_queue_merge':
            a, b = self.queue(args[0]), self.queue(args[1])
            if a is None or b is None:
                return
            self.events.add(ins.loc())
            self.touch(st, b)
            lb, mb = self.vals(st, 'len', b), self.vals(st, 'mem', b)
            if not lb or not mb:
                return
            n = add(self.cell(st, 'len', b), lb[0], -1)
            m = add(self.cell(st, 'mem', b), mb[0], -1)
            for k, x in (('len', n), ('in', n), ('mem', m)):
                self.adj(st, k, a, add(0, x, -1))
            self.setd(st, 'len', b, [self.cell(st, 'len', b)])
            self.setd(st, 'mem', b, [self.cell(st, 'mem', b)])
            self.adj(st, 'out', b, add(0, n, -1))
        elif name in self.updater and args and isinstance(args[0], V):
            self.touch(st, args[0])
            self.adj(st, 'mem', args[0], args[1])
            a = mk('fld', args[0], 'liChunkQueue', *CELL['mem'])
            st.mem[a] = simp(st, add(rd(st, a), args[1]))
        elif name == 'g_byte_array_append':
            src = []
            for m in st.marks:
                if m[0] == 'in' and m[3] == 'head':
                    off = rd(st, fld(self.p, m[1], 'liChunk', 'offset'))
                    w = self.content(st, m[1], off)
                    if w and w[0] == 'p' and w[1] is flat(args[1]):
                        src.append((m[1], simp(st, off)))
            set_ps(st, src=tuple(src))
        elif name == 'g_slice_free1':
            if args[1] in get_ps(st, 'q'):
                set_ps(st, gone=tuple(sorted(get_ps(st, 'gone') + (args[1],), key=show)))

    def call_value(self, st, ins, name, args, ai):
        if name == 'li_chunk_length' and isinstance(args[0], V):
            v = self.size(st, args[0], 'len')
            if isinstance(v, V) and v.k == 'chunk' and v not in st.facts:
                st.setr(v, 0, INF, frozenset())
            return v
        if self.stable and name == 'g_queue_peek_head' and args and self.queue(args[0]) is not None:
            cq = self.queue(args[0])
            for m in st.marks:
                if m[0] == 'in' and m[2] is cq and m[3] == 'head':
                    return m[1]
            s = mk('sym', ('c16', 'first', cq.n), 'first chunk')
            if any(isinstance(v, V) and s in v.syms for d in (st.env, st.mem) for v in d.values()) or any(isinstance(x, V) and s in x.syms for m in st.marks for x in m):
                self.rebase(st, lambda x: x is s)
            st.purge(s)
            for m in [m for m in st.marks if any(isinstance(x, V) and s in x.syms for x in m[1:])]:
                st.unmark(*m)
            return s

    stable = True

    def post_call(self, st, ins, name, args, res, ai):
        cq = self.queue(args[0]) if args else None
        if cq is not None and isinstance(res, V):
            if name in ('g_queue_peek_head', 'g_queue_peek_tail'):
                st.mark('in', res, cq, 'head' if 'head' in name else 'tail')
                track(st, rd(st, fld(self.p, res, 'liChunk', 'type')))
            elif name in ('g_queue_peek_head_link', 'g_queue_peek_tail_link'):
                c = self.chunk(st, res)
                if c is not None:
                    st.mark('in', c, cq, 'head' if 'head' in name else 'tail')
            elif name == 'g_queue_pop_head_link':
                c = [m[1] for m in st.marks if m[0] == 'in' and m[2] is cq and m[3] == 'head' and st.nonzero(m[1])]
                if c:
                    st.setr(res, 1, INF, frozenset())
                    st.mem[fld(self.p, res, '_GList', 'data')] = c[0]
                    self.took(st, ins, res, cq, ai)
                    return
                # nothing happens if there is none: only looked at further if there is one
                set_ps(st, pop=(res, cq, ins.loc()))
                track(st, res)
        if name == 'g_slice_alloc0' and isinstance(res, V) and args[0] == self.p.structs['liChunk']['size']:
            p, c = self.p, res
            d = fld(p, c, 'liChunk', 'data')
            for a in (fld(p, c, 'liChunk', 'offset'), fld(p, c, 'liChunk', 'mem'), fld(p, c, 'liChunk', 'type'), fld(p, d, 'liChunk.data', 'str'),
                      fld(p, fld(p, d, 'liChunk.data', 'file'), 'liChunk.data.file', 'length'), fld(p, fld(p, d, 'liChunk.data', 'file'), 'liChunk.data.file', 'start'),
                      fld(p, fld(p, d, 'liChunk.data', 'buffer'), 'liChunk.data.buffer', 'length'), fld(p, fld(p, d, 'liChunk.data', 'buffer'), 'liChunk.data.buffer', 'offset')):
                st.mem[a] = 0
        if name == 'g_byte_array_append' and isinstance(args[0], V):
            a = fld(self.p, args[0], '_GByteArray', 'len')
            old = 0 if any(m[0] == 'empty' and m[1] is args[0] for m in st.marks) else None
            if old == 0:
                st.unmark('empty', args[0])
                st.mem[a] = args[2]
                for m in get_ps(st, 'src') or ():
                    st.mark('copyof', args[0], *m)
                set_ps(st, src=())
        if name == 'g_byte_array_sized_new' and isinstance(res, V):
            st.mark('empty', res)

    def branch(self, st, ins, cond, truth, ai):
        self.popped(st, ins, ai)

    def popped(self, st, ins, ai):
        pop = get_ps(st, 'pop')
        if pop:
            lo, hi, ne = st.rng(pop[0])
            if lo == hi == 0:
                set_ps(st, pop=None)
            elif lo > 0 or hi < 0 or 0 in ne:
                set_ps(st, pop=None)
                self.took(st, ins, pop[0], pop[1], ai)

    def took(self, st, ins, l, cq, ai):
        c = self.chunk(st, l)
        if c is not None:
            self.take(st, ins, cq, c, ai)
            st.mark('out', c)
            for m in [m for m in st.marks if m[0] == 'in' and m[1] is c]:
                st.unmark(*m)
            # the first chunk is the one looked at before
            for m in [m for m in st.marks if m[0] == 'in' and m[2] is cq and m[3] == 'head']:
                st.unmark(*m)

    def load(self, st, ins, addr, val, ai):
        pop = get_ps(st, 'pop')
        if pop and isinstance(addr, V) and root(addr) is pop[0]:
            st.setr(pop[0], 1, INF, frozenset())
            set_ps(st, pop=None)
            self.took(st, ins, pop[0], pop[1], ai)

    def preload(self, st, ins, addr, ai):
        if isinstance(addr, V) and addr not in st.mem:
            self.forget(st, ins)

    def store(self, st, ins, addr, val, ai):
        k = fkey(addr) if isinstance(addr, V) else None
        if k is None:
            return
        if k[0] == 'liChunkQueue' and k[1] in KINDS:
            self.adj(st, KINDS[k[1]], addr.a[0], add(val, rd(st, addr), -1))
        elif k == ('liChunk', 'offset'):
            cq, w = self.where(st, addr.a[0])
            if cq is not None:
                n = add(val, rd(st, addr), -1)
                if w != 'head':
                    ai.report(st, ins, 'skips the start of a chunk that is not the first one of the queue', 'fifo')
                self.adj(st, 'len', cq, n)
                self.adj(st, 'out', cq, add(0, n, -1))
                self.events.add(ins.loc())
                set_ps(st, cut=(addr.a[0], simp(st, rd(st, addr)), simp(st, n)))
                self.cutnew(st, ins, ai)
        elif k == ('liChunk.data.buffer', 'length'):
            c = addr.a[0].a[0].a[0] if addr.a[0].k == 'fld' and addr.a[0].a[0].k == 'fld' else None
            cq, w = self.where(st, c)
            if cq is not None:
                n = add(val, rd(st, addr), -1)
                if w != 'tail':
                    ai.report(st, ins, 'adds data to a chunk that is not the last one of the queue', 'fifo')
                for kk in ('len', 'in', 'mem'):
                    self.adj(st, kk, cq, add(0, n, -1))
                self.events.add(ins.loc())

    # --- a chunk made from a part of another one
    def fresh(self, st, ins, c, ai):
        set_ps(st, new=c)
        self.cutnew(st, ins, ai)

    def content(self, st, c, off, t=None):
        """where the data of a chunk starts, in terms of the thing that holds it"""
        p = self.p
        if t is None:
            t = ctype(st, rd(st, fld(p, c, 'liChunk', 'type')))
        d = fld(p, c, 'liChunk', 'data')
        if t == STRING:
            return ('p', self.sum(rd(st, fld(p, rd(st, fld(p, d, 'liChunk.data', 'str')), '_GString', 'str')), off))
        if t == MEM:
            return ('p', self.sum(rd(st, fld(p, rd(st, fld(p, c, 'liChunk', 'mem')), '_GByteArray', 'data')), off))
        if t == FILE:
            f = fld(p, d, 'liChunk.data', 'file')
            return ('f', rd(st, fld(p, f, 'liChunk.data.file', 'file')), simp(st, add(rd(st, fld(p, f, 'liChunk.data.file', 'start')), off)))
        if t == BUFFER:
            b = fld(p, d, 'liChunk.data', 'buffer')
            return ('b', rd(st, fld(p, b, 'liChunk.data.buffer', 'buffer')), simp(st, add(rd(st, fld(p, b, 'liChunk.data.buffer', 'offset')), off)))
        return None

    @staticmethod
    def sum(b, off):
        return flat(add(b, off)) if isinstance(b, V) else None

    def cutnew(self, st, ins, ai):
        cut, c = get_ps(st, 'cut'), get_ps(st, 'new')
        if not cut or c is None:
            return
        set_ps(st, cut=None, new=None)
        old, off, n = cut
        want = self.content(st, old, off)
        t = rd(st, fld(self.p, c, 'liChunk', 'type'))
        got = None
        if t == MEM:
            arr = rd(st, fld(self.p, c, 'liChunk', 'mem'))
            for m in st.marks:
                if m[0] == 'copyof' and m[1] is arr and m[2] is old and same(m[3], off):
                    got = want
        else:
            got = self.content(st, c, 0)
        size = self.size(st, c, 'len')
        o2 = rd(st, fld(self.p, c, 'liChunk', 'offset'))
        self.events.add(ins.loc())
        if want is None or got is None or len(got) != len(want) or not all(same(a, b) for a, b in zip(got, want)) or not same(simp(st, o2), 0):
            ai.report(st, ins, 'the new chunk does not stand for the data that was cut off the first chunk (%s instead of %s)' % (shw(got), shw(want)), ('part', str(t)))
        if not same(simp(st, size), n):
            ai.report(st, ins, 'the new chunk has another length (%s) than what was cut off (%s)' % (show(size), show(n)), ('partlen', str(t)))

    def ret(self, st, ins, val, ai):
        self.popped(st, ins, ai)
        for cq in get_ps(st, 'q'):
            if cq in get_ps(st, 'gone'):
                continue
            zero = all(same(simp(st, self.cell(st, k, cq)), 0) for k in ('len', 'in', 'out'))
            for k in CELL:
                vs = [simp(st, v) for v in self.vals(st, k, cq)]
                if self.callback and k in ('len', 'out'):
                    continue
                if zero and k in ('in', 'out'):
                    continue
                if not any(same(v, 0) for v in vs):
                    ai.report(st, ins, '%s of the queue %s is not what is in it any more: %s' % (WHAT[k], show(cq), 'off by ' + shw(vs[0]) if vs else 'the difference depends on the path'), ('off', k))


SINKS = {'li_net_write': (1, 2), 'write': (1, 2), 'pwrite': (1, 2), 'pwrite64': (1, 2), 'send': (1, 2), 'SSL_write': (1, 2), 'gnutls_record_send': (1, 2)}
COPIES = {'memcpy': (1, 2), 'memmove': (1, 2), 'g_string_append_len': (1, 2), 'li_g_string_append_len': (1, 2), 'g_byte_array_append': (1, 2)}
ZIP = {'deflate': 'z_stream_s', 'BZ2_bzCompress': 'bz_stream'}
# (only the compressor, which is handled, changes these)
KEEP = {(S, f) for S in ZIP.values() for f in ('next_in', 'avail_in')}
FILEREAD = {'sendfile': None, 'sendfile64': None}
ABORT = {'li_stream_reset', 'li_stream_disconnect', 'li_stream_disconnect_dest', 'li_vrequest_error', 'li_iostream_reset'}


class Send(Acct):
    """what is handed on (written, sent, compressed, copied) is what is removed from the queue afterwards, once and in order"""

    def __init__(self, p):
        Acct.__init__(self, p, {})
        self.headjoin = 60
        self.stable = False
        self.sinks, self.moves, self.reads = set(), set(), set()
        self.results = set()

    def start(self, st, fn, ai):
        set_ps(st, src=None, off=0, stale=False, wmax=None, pos=None, iov=None)
        st.mark('d', 'sent', 'Q', 0)
        ps = [ai.val(st, '$%d' % n) for n, t in enumerate(fn.dty[1:]) if t in ('goffset*', 'gint64*', 'long*', 'off_t*')]
        if len(ps) == 1 and any(t == 'liChunkQueue*' for t in fn.dty[1:]):
            set_ps(st, wmax=ps[0])
            st.mark('d', 'max', 'Q', 0)

    def head(self, st):
        """what came out of the last pass gets a name of its own, and the balance is expressed with it"""
        st.tracked = frozenset()
        self.rebase(st, lambda x: x.a[0] in self.results, env=False)

    @staticmethod
    def forms(st, v):
        v = flat(v)
        return {clean(v), simp(st, v), flat(simp(st, v))}

    def adj(self, st, k, cq, delta):
        old = [m for m in st.marks if m[0] == 'd' and m[1] == k]
        for m in old:
            st.unmark(*m)
        for m in old:
            for x in self.forms(st, add(m[3], clean(delta))):
                st.mark(m[0], k, cq, x)

    def vals(self, st, k='sent'):
        return [m[3] for m in st.marks if m[0] == 'd' and m[1] == k]

    def iszero(self, st, k='sent'):
        return any(same(x, 0) for v in self.vals(st, k) for x in self.forms(st, v))

    def fresh(self, st, ins, what, label):
        s = mk('sym', ('c16', ins.id, what), label)
        st.purge(s)
        for m in [m for m in st.marks if any(isinstance(x, V) and s in x.syms for x in m[1:])]:
            st.unmark(*m)
        return s

    def forget(self, st, ins):
        for m in [m for m in st.marks if any(isinstance(x, V) and ins.id in symids(x) for x in m[1:])]:
            st.unmark(*m)

    def position(self, st, ins, buf, what, ai):
        """the data handed on has to start where the last piece ended"""
        src = get_ps(st, 'src')
        if not src or not isinstance(buf, V):
            return False
        b = simp(st, flat(buf))
        d = lin(b)[1]
        if d.get(src[0]) != 1 and not any(same(x, add(b, src[0], -1)) for v in self.vals(st) for x in self.forms(st, v)):
            return False
        self.sinks.add(ins.loc())
        off = add(b, src[0], -1)
        if not any(same(x, y) for v in self.vals(st) for x in self.forms(st, v) for y in self.forms(st, off)):
            self.alarm(st, ins, ai, [off], '%s does not continue where the data handed on before ended' % what, 'position')
        return True

    def amount(self, st, ins, n, what, ai):
        src = get_ps(st, 'src')
        tot = [y for v in self.vals(st) for x in self.forms(st, v) for y in self.forms(st, add(x, n))]
        if any(same(t, x) or self.leq(st, t, x) for t in tot for x in self.forms(st, src[1])):
            return
        self.alarm(st, ins, ai, [n] if tot else [], '%s may take more than what was read from the queue' % what, 'amount')

    @staticmethod
    def leq(st, a, b):
        if any(st.evalcmp(c, a, b) for c in ('sle', 'slt', 'ule', 'ult')):
            return True
        lo, hi, ne = st.rng(add(a, b, -1)) if isinstance(add(a, b, -1), V) else (add(a, b, -1),) * 2 + ((),)
        return hi <= 0

    def gone(self, st, ins, n, ai):
        self.moves.add(ins.loc())
        self.adj(st, 'sent', 'Q', add(0, n, -1))
        if get_ps(st, 'wmax') is not None:
            self.adj(st, 'max', 'Q', n)
        if not self.iszero(st):
            self.alarm(st, ins, ai, self.vals(st), 'removes something else (%s) from the queue than what was handed on' % shw(simp(st, n)), 'removed')
        # from here on everything is handed on again
        self.reset(st)
        set_ps(st, src=None, stale=get_ps(st, 'stale') or self.haswritev)

    haswritev = False
    aborts = ()

    def reset(self, st):
        for m in [m for m in st.marks if m[0] == 'd' and m[1] == 'sent']:
            st.unmark(*m)
        st.mark('d', 'sent', 'Q', 0)

    def call(self, st, ins, name, args, ai):
        if name and name.startswith(('llvm.memcpy', 'llvm.memmove')):
            name = 'memcpy'
        if name in SINKS or name in COPIES:
            i, j = (SINKS.get(name) or COPIES[name])
            if len(args) > j and self.position(st, ins, args[i], name, ai):
                self.amount(st, ins, args[j], name, ai)
                set_ps(st, off=1)
                if name in COPIES:
                    self.adj(st, 'sent', 'Q', args[j])
                    set_ps(st, off=0)
        elif name in ZIP and isinstance(args[0], V):
            z = self.zfields(args[0], ZIP[name])
            nx, av = rd(st, z[0]), rd(st, z[1])
            if simp(st, av) == 0 and isconst(simp(st, av)):
                return
            if self.position(st, ins, nx, name, ai):
                self.amount(st, ins, av, name, ai)
                tot = frozenset(x for v in self.vals(st) for x in self.forms(st, add(v, av)))
                set_ps(st, off=(av, tot, simp(st, flat(add(flat(nx), av)))))
        elif name in FILEREAD:
            self.file(st, ins, args, ai)
        elif name == 'writev':
            self.sinks.add(ins.loc())
            if get_ps(st, 'stale'):
                ai.report(st, ins, 'writes what was written (and removed from the queue) before once more', 'again')
            set_ps(st, off=1)
        elif name == 'g_array_set_size' and isconst(args[1]) and args[1] == 0:
            set_ps(st, stale=False)
        elif name in ('li_chunkqueue_skip', 'li_chunkqueue_steal_len'):
            n = args[1 if name.endswith('skip') else 2]
            self.gone(st, ins, n, ai)
        elif name in ('li_chunkqueue_steal_all', 'li_chunkqueue_skip_all', 'li_chunkqueue_steal_chunk', 'li_chunkqueue_reset'):
            if not self.iszero(st) and not any(m[0] == 'abort' for m in st.marks):
                self.alarm(st, ins, ai, self.vals(st), 'hands on the data of the queue although a part of it was handed on before and not removed', 'twice')
            set_ps(st, src=None)
        elif name in ABORT or name in self.aborts:
            st.mark('abort')
        elif name == 'li_chunkiter_read':
            if not self.iszero(st) and not any(m[0] == 'abort' for m in st.marks):
                self.alarm(st, ins, ai, self.vals(st), 'reads from the queue although data handed on before was not removed', 'twice')
            self.reset(st)
            self.reads.add(ins.loc())

    def zfields(self, z, S):
        return fld(self.p, z, S, 'next_in'), fld(self.p, z, S, 'avail_in')

    def file(self, st, ins, args, ai):
        """sendfile(out, in, &offset, n)"""
        self.sinks.add(ins.loc())
        pos = rd(st, args[2]) if isinstance(args[2], V) else args[2]
        set_ps(st, off=1, pos=pos)
        for m in st.marks:
            if m[0] == 'in' and m[3] == 'head':
                c = m[1]
                d = fld(self.p, c, 'liChunk', 'data')
                f = fld(self.p, d, 'liChunk.data', 'file')
                o = rd(st, fld(self.p, c, 'liChunk', 'offset'))
                want = add(rd(st, fld(self.p, f, 'liChunk.data.file', 'start')), o)
                fd = rd(st, fld(self.p, rd(st, fld(self.p, f, 'liChunk.data.file', 'file')), 'liChunkFile', 'fd'))
                left = add(rd(st, fld(self.p, f, 'liChunk.data.file', 'length')), o, -1)
                if not any(same(simp(st, add(want, x)), simp(st, pos)) for x in self.vals(st)):
                    self.alarm(st, ins, ai, [pos] if self.vals(st) else [], 'sends from another position of the file (%s) than where the data of the chunk begins (%s)' % (shw(simp(st, pos)), shw(simp(st, want))), 'position')
                if not same(fd, args[1]):
                    ai.report(st, ins, 'sends another file (%s) than the one of the first chunk (%s)' % (shw(args[1]), shw(fd)), 'file')
                if not same(simp(st, args[3]), simp(st, left)) and not self.leq(st, simp(st, args[3]), simp(st, left)):
                    self.alarm(st, ins, ai, [args[3]], 'may send more (%s) than what the first chunk has (%s)' % (shw(simp(st, args[3])), shw(simp(st, left))), 'amount')
                return
        ai.report(st, ins, 'sends from a file without looking at the first chunk', 'file')

    def call_value(self, st, ins, name, args, ai):
        self.forget(st, ins)
        return Acct.call_value(self, st, ins, name, args, ai)

    def post_call(self, st, ins, name, args, res, ai):
        if name == 'g_queue_peek_head_link' and isinstance(res, V):
            # (nothing is handed on if there is nothing)
            st.setr(res, 1, INF, frozenset())
            c = rd(st, fld(self.p, res, '_GList', 'data'))
            if isinstance(c, V):
                st.setr(c, 1, INF, frozenset())
                st.mark('in', c, 'Q', 'head')
        elif name == 'g_queue_peek_head' and isinstance(res, V):
            st.mark('in', res, 'Q', 'head')
            track(st, rd(st, fld(self.p, res, 'liChunk', 'type')))
        elif name == 'li_chunkiter_read':
            d = self.fresh(st, ins, 'd', 'data')
            l = self.fresh(st, ins, 'l', 'len')
            st.setr(d, 1, INF, frozenset())
            st.setr(l, 1, args[2] if isconst(args[2]) else INF, frozenset())
            x = args[2]
            if isinstance(x, V) and x.k == 'chunk' and FILE not in ctypes(st, x.a[1]):
                l = x
                st.setr(l, 1, INF, frozenset())
            elif isinstance(x, V):
                st.assume(mk('cmp', 'sle', l, x), True)
            if isinstance(args[3], V):
                st.mem[args[3]] = d
            if isinstance(args[4], V):
                st.mem[args[4]] = l
            if same(args[1], 0):
                set_ps(st, src=(d, l))
        elif (name in SINKS or name in FILEREAD or name == 'writev') and get_ps(st, 'off') == 1:
            set_ps(st, off=0)
            if isinstance(res, V):
                self.results |= symids(res)
                n = args[2] if name in SINKS else args[3] if name in FILEREAD else None
                if name not in ('SSL_write', 'gnutls_record_send'):
                    st.setr(res, -1, INF, frozenset())
                if n is not None:
                    for rest in (simp(st, add(n, res, -1)), clean(add(n, res, -1)), add(n, res, -1)):
                        if isinstance(rest, V):
                            st.setr(rest, 0, INF, frozenset())
                self.adj(st, 'sent', 'Q', mk('pos', res))
                track(st, res)
                if name in FILEREAD and isinstance(args[2], V) and get_ps(st, 'pos') is not None:
                    st.mem[args[2]] = clean(add(get_ps(st, 'pos'), mk('pos', res)))
                    set_ps(st, pos=None)
        elif name in ZIP and get_ps(st, 'off'):
            av, tot, end = get_ps(st, 'off')
            set_ps(st, off=0)
            z = self.zfields(args[0], ZIP[name])
            lo, hi, ne = st.rng(av) if isinstance(av, V) else (av, av, ())
            n = self.fresh(st, ins, 'z', 'avail_in')
            st.setr(n, 0, hi, frozenset())
            st.mem[z[1]] = n
            st.mem[z[0]] = add(end, n, -1)
            for m in [m for m in st.marks if m[0] == 'd' and m[1] == 'sent']:
                st.unmark(*m)
            for x in tot:
                if not (isinstance(x, V) and n in x.syms):
                    st.mark('d', 'sent', 'Q', add(x, n, -1))
        elif name == 'li_chunkqueue_extract_to_memory':
            if isinstance(res, V):
                self.sinks.add(ins.loc())
                self.adj(st, 'sent', 'Q', mk('iff', res, clean(args[1])))
                track(st, res)

    def branch(self, st, ins, cond, truth, ai):
        pass

    def load(self, st, ins, addr, val, ai):
        pass

    def store(self, st, ins, addr, val, ai):
        k = fkey(addr) if isinstance(addr, V) else None
        if k == ('liChunkQueue', 'is_closed') and isconst(val) and val == 1:
            st.mark('abort')
        elif addr is get_ps(st, 'wmax') and addr is not None:
            self.adj(st, 'max', 'Q', add(val, rd(st, addr), -1))
        elif k in (('iovec', 'iov_base'), ('iovec', 'iov_len')):
            self.iov(st, ins, k[1], addr, val, ai)

    def iov(self, st, ins, f, addr, val, ai):
        if f == 'iov_base':
            ok, seen = None, False
            for a in list(st.mem):
                if a.k == 'fld' and a.a[1] == 'liChunk' and a.a[2] == 'type':
                    c = a.a[0]
                    for t in ctypes(st, rd(st, a)) - {0, FILE}:
                        seen = True
                        w = self.content(st, c, rd(st, fld(self.p, c, 'liChunk', 'offset')), t)
                        if w and w[0] == 'b':
                            w = ('p', flat(add(flat(rd(st, fld(self.p, w[1], 'liBuffer', 'addr'))), w[2])))
                        if w and any(same(x, y) for x in self.forms(st, w[1]) for y in self.forms(st, val)):
                            ok = c
            set_ps(st, iov=ok)
            self.sinks.add(ins.loc())
            if ok is None and seen:
                self.alarm(st, ins, ai, [val], 'writes from somewhere else than where the data of the chunk begins', 'iov')
        else:
            c = get_ps(st, 'iov')
            if c is None or not isinstance(c, V):
                return
            n = self.size(st, c, 'len')
            self.sinks.add(ins.loc())
            v = [y for y in self.forms(st, val)]
            if not any(same(x, y) or self.leq(st, y, x) for x in self.forms(st, n) for y in v):
                self.alarm(st, ins, ai, [val], 'may write more than what the chunk has', 'iovlen')

    def ret(self, st, ins, val, ai):
        if not self.iszero(st) and not any(m[0] == 'abort' for m in st.marks):
            vs = self.vals(st)
            self.alarm(st, ins, ai, vs, 'data that was handed on stays in the queue (%s)' % (shw(simp(st, vs[0])) if vs else 'on some path'), 'left')
        if get_ps(st, 'wmax') is not None and not self.iszero(st, 'max'):
            vs = self.vals(st, 'max')
            self.alarm(st, ins, ai, vs, 'the number of bytes that may still be written is not reduced by what was written (%s)' % (shw(simp(st, vs[0])) if vs else 'on some path'), 'max')


def senders(p):
    """functions that hand on data of a queue"""
    out = {}
    for k, f in p.fns.items():
        names = {callee_name(i) for i in f.instrs() if i.op == 'call'}
        if 'li_chunkiter_read' in names or names & set(FILEREAD) or 'writev' in names or any(i.op == 'call' and callee_name(i) == 'li_chunkqueue_extract_to_memory' and isinstance(i.a[2], str) and i.a[2].startswith('$') for i in f.instrs()):
            out[k] = f
    return out


def flat(v):
    """pointer arithmetic as a sum"""
    if isinstance(v, V) and v.k == 'idx' and len(v.a) > 2 and v.a[2] == 1:
        return flat(add(flat(v.a[0]), v.a[1]))
    if isinstance(v, V) and v.k == 'off':
        return flat(add(flat(v.a[0]), v.a[1]))
    return clean(v)


def same(a, b):
    return a is b or isconst(a) and isconst(b) and a == b


def shw(x):
    if isinstance(x, tuple):
        return '(' + ', '.join(shw(y) for y in x) + ')'
    return show(x) if isinstance(x, V) else str(x)


def touches(f):
    for i in f.instrs():
        if i.op == 'store':
            k = static_field(f, i.a[1])
            if k and (k[0] == 'liChunkQueue' and k[1] in ('length', 'mem_usage') or k == ('liChunk', 'offset')):
                return True
        if i.op == 'call':
            n = callee_name(i) or ''
            if n.startswith(('g_queue_', 'li_g_queue_')) and 'peek' not in n and any(static_field(f, a) == ('liChunkQueue', 'queue') for a in i.a if isinstance(a, str)):
                return True
    return False


def updaters(p):
    """the functions that change the memory usage of a queue and of its limit together"""
    r = {}
    for f in p.fns.values():
        ks = {static_field(f, i.a[1]) for i in f.instrs() if i.op == 'store'}
        if ('liChunkQueue', 'mem_usage') in ks and ('liCQLimit', 'current') in ks:
            r[f.name] = f
    return r


def check(ctx):
    p = prog()
    ctx.rule('account', 'length, bytes_in, bytes_out and mem_usage of a queue change by exactly what is linked, unlinked, skipped or added')
    up = updaters(p)
    work, cbs = {}, {}
    T = {k for k, f in p.fns.items() if touches(f)}
    cal = p.callers()
    todo = sorted(T)
    seen = set()
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        f = p.fns[k]
        if f.name in up:
            continue
        if f.local and k not in p.addr_taken():
            todo += [c.owner.key for c in cal.get(k, [])]
        elif f.local:
            cbs[k] = f
        else:
            work[k] = f
    ev, q = set(), set()
    for k in sorted(work) + sorted(cbs):
        f = p.fns[k]
        r = Acct(p, up, k in cbs)
        ai = analyse(p, f, r, K=150, maxtime=60, purecalls=LOGS | QPURE | set(up) | {'li_chunk_length'}, policy=lambda t, ins, d: t.name not in up and (t.tu == ins.owner.tu) and t.name not in QPURE and t.name != 'li_chunk_length')
        ctx.take(ai, 'account')
        ctx.ok('account', f.loc())
        ev |= r.events
        q |= r.queues
    send(ctx, p)
    ctx.floor('functions', len(work) + len(cbs), 12)
    ctx.floor('queue_operations', len(ev), 14)


def writes(p, f, depth=0):
    return any(callee_name(i) == 'writev' or depth < 3 and p.callee(i) and p.callee(i).tu == f.tu and writes(p, p.callee(i), depth + 1) for i in f.instrs() if i.op == 'call')


def send(ctx, p):
    ctx.rule('send', 'what is written, sent, compressed or copied from a queue is exactly what is removed from it afterwards')
    S = senders(p)
    cal = p.callers()
    todo, work, seen = sorted(S), {}, set()
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        f = p.fns[k]
        names = {callee_name(i) for i in f.instrs() if i.op == 'call'}
        if 'li_chunkqueue_skip' in names or 'li_chunkqueue_steal_len' in names:
            work[k] = f
        elif f.local and k not in p.addr_taken():
            todo += [c.owner.key for c in cal.get(k, [])]
    aborts = {f.name for f in p.fns.values() if f.local and f.key not in work and any(callee_name(i) in ABORT for i in f.instrs() if i.op == 'call')
              and not any(callee_name(i) in SINKS or callee_name(i) in FILEREAD for i in f.instrs() if i.op == 'call')}
    sinks, moves, reads, undet = set(), set(), set(), set()
    for k in sorted(work):
        f = p.fns[k]
        r = Send(p)
        r.aborts = aborts
        r.haswritev = writes(p, f)
        ai = analyse(p, f, r, K=150, maxtime=90, keepfields=KEEP, purecalls=LOGS | QPURE | {'li_chunk_length', 'li_chunkiter_read', 'li_chunkfile_open', 'g_array_set_size', '__errno_location'},
                     policy=lambda t, ins, d: t.tu == ins.owner.tu and t.name not in QPURE and t.name != 'li_chunk_length' and t.name not in aborts)
        ctx.take(ai, 'send')
        ctx.ok('send', f.loc())
        sinks |= r.sinks
        moves |= r.moves
        reads |= r.reads
        undet |= r.undet
    ctx.notes += ['balance not decided (states merged): ' + x for x in sorted(undet)]
    ctx.floor('senders', len(work), 8)
    ctx.floor('sinks', len(sinks), 8)
    ctx.floor('removals', len(moves), 8)
    from c16b import contents
    contents(ctx, p)
