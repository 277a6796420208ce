"""C03 a connection is reused for another request only when it is safe"""
from common import *

EXPLAIN = ('Path-sensitive abstract interpretation from every entry point that can switch a connection to the keep-alive state or declare a '
           'response finished; every such path must have established the conditions under which the next bytes on the wire are the next request.')


class Reuse(Rule):
    def __init__(self, p):
        self.KA = p.enum('LI_CON_STATE_KEEP_ALIVE')
        self.run = {p.enum('LI_SERVER_RUNNING'), p.enum('LI_SERVER_WARMUP')}
        self.allst = set(p.enums.get('liServerState', {}).values()) or set(range(-1, 12))
        self.n = 0

    def start(self, st, fn, ai):
        set_ps(st, ka=False, body=False, run=False)

    def look(self, st):
        ka, body, run = get_ps(st, 'ka'), get_ps(st, 'body'), get_ps(st, 'run')
        if not ka and any(st.nonzero(x) for a, x in mem_of(st, 'liConInfo', 'keep_alive')):
            ka = True
        if not body:
            for a, x in mem_of(st, 'liChunkQueue', 'is_closed'):
                b = a.a[0]
                if st.nonzero(x) and loaded_from(st, b, 'liStream', 'out') and self.of_in(st, b):
                    body = True
        if not run:
            for a, x in mem_of(st, 'liServer', 'dest_state'):
                lo, hi, ne = st.rng(x)
                if {s for s in self.allst if lo <= s <= hi and s not in ne} <= self.run:
                    run = True
        set_ps(st, ka=ka, body=body, run=run)

    def of_in(self, st, b):
        if b.k == 'init' and is_fld(b.a[0].a[0], 'liConnection', 'in'):
            return True
        return any(x is b and is_fld(a.a[0], 'liConnection', 'in') for a, x in mem_of(st, 'liStream', 'out'))

    def branch(self, st, ins, cond, truth, ai):
        self.look(st)

    def store(self, st, ins, addr, val, ai):
        k = fkey(addr)
        if k == ('liConInfo', 'keep_alive') and not st.nonzero(val):
            set_ps(st, ka=False)
        if k == ('liConnection', 'state') and (st.rng(val)[0] <= self.KA <= st.rng(val)[1]) and not (isinstance(val, V) and val.k == 'init'):
            self.n += 1
            self.look(st)
            if not get_ps(st, 'ka'):
                ai.report(st, ins, 'a connection is reused although keep-alive was not established for it')
            if not get_ps(st, 'body'):
                ai.report(st, ins, 'a connection is reused although the request body may not have been read completely')
            if not get_ps(st, 'run'):
                ai.report(st, ins, 'a connection is reused while the server may be shutting down')


class Done(Rule):
    """callers that declare the response finished"""

    def __init__(self):
        self.n = 0

    def start(self, st, fn, ai):
        set_ps(st, all=False, empty=False)

    def look(self, st):
        al, em = get_ps(st, 'all'), get_ps(st, 'empty')
        if not al and any(st.nonzero(x) for a, x in mem_of(st, 'liConnection', 'out_has_all_data')):
            al = True
        if not em:
            for a, x in mem_of(st, 'liStream', 'out'):
                if self.is_out(st, a.a[0]) and st.const(x) == 0:
                    em = True
            for a, x in mem_of(st, 'liChunkQueue', 'length'):
                b = a.a[0]
                if st.rng(x)[1] <= 0 and (b.k == 'init' and fkey(b.a[0]) == ('liStream', 'out') and self.is_out(st, b.a[0].a[0])
                                         or any(y is b and self.is_out(st, c.a[0]) for c, y in mem_of(st, 'liStream', 'out'))):
                    em = True
        set_ps(st, all=al, empty=em)

    def is_out(self, st, s):
        return is_fld(s, 'liIOStream', 'stream_out') or loaded_from(st, s, 'liConnectionSocket', 'raw_out') or loaded_from(st, s, 'liConnection.con_sock', 'raw_out')

    def branch(self, st, ins, cond, truth, ai):
        self.look(st)

    def call(self, st, ins, name, args, ai):
        if name == 'li_connection_request_done':
            self.n += 1
            self.look(st)
            if not get_ps(st, 'all'):
                ai.report(st, ins, 'the response is declared finished before all of it was handed over')
            if not get_ps(st, 'empty'):
                ai.report(st, ins, 'the response is declared finished while unsent data may be queued')


class Switch(Rule):
    """new bytes on a reused connection: old body stream reopened and request state restarted before parsing"""

    def __init__(self, p):
        self.KA = p.enum('LI_CON_STATE_KEEP_ALIVE')
        self.n = 0

    def start(self, st, fn, ai):
        set_ps(st, reset=False, start=False, was=False)

    def branch(self, st, ins, cond, truth, ai):
        if not get_ps(st, 'was') and any(st.const(x) == self.KA for a, x in mem_of(st, 'liConnection', 'state')):
            set_ps(st, was=True)

    def call(self, st, ins, name, args, ai):
        if name == 'li_chunkqueue_reset':
            set_ps(st, reset=True)
        if name == 'li_vrequest_start':
            set_ps(st, start=True)
        if name == 'li_http_request_parse' and get_ps(st, 'was'):
            self.n += 1
            if not get_ps(st, 'reset'):
                ai.report(st, ins, 'the next request on a connection is parsed without reopening the request body stream')
            if not get_ps(st, 'start'):
                ai.report(st, ins, 'the next request on a connection is parsed without restarting request processing')


def check(ctx):
    p = prog()
    ctx.rule('reuse', 'every path to "state = keep-alive": keep-alive flag set, request body stream closed (complete), server running or warming up')
    ctx.rule('done', 'every call that finishes a response: all response data handed over and nothing left in the output queue')
    ctx.rule('restart', 'parsing on a connection in keep-alive state is preceded by reopening the body stream and restarting the request')
    KA = p.enum('LI_CON_STATE_KEEP_ALIVE')
    sites = [(f, i) for f, i in stores_to(p, 'liConnection', 'state') if i.a[0] == KA or not isinstance(i.a[0], int)]
    ctx.floor('keep_alive_state_stores', len(sites), 1)
    roots = {}
    for f, i in sites:
        for r in roots_calling(p, f):
            roots[r.key] = r
    n = 0
    for r in roots.values():
        m = Reuse(p)
        ai = analyse(p, r, m, K=16, purecalls=LOGS)
        ctx.take(ai, 'reuse')
        n += m.n
        ctx.ok('reuse', r.loc())
    ctx.floor('reuse_paths', n, 1)
    n = 0
    cs = {f.key: f for f, i in callers_of(p, 'li_connection_request_done')}
    for f in cs.values():
        for r in roots_calling(p, f):
            m = Done()
            ai = analyse(p, r, m, K=12, purecalls=LOGS, policy=same_tu(opaque=('li_connection_request_done',)))
            ctx.take(ai, 'done')
            n += m.n
            ctx.ok('done', r.loc())
    ctx.floor('response_done_paths', n, 2)
    n = 0
    for f in stream_callbacks(p, 'liConnection', 'in'):
        m = Switch(p)
        ai = analyse(p, f, m, K=12, purecalls=LOGS)
        ctx.take(ai, 'restart')
        n += m.n
        ctx.ok('restart', f.loc())
    ctx.floor('restart_paths', n, 1)
