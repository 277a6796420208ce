"""C01 refused request heads get an error response and end the connection"""
from common import *

EXPLAIN = ('Path-sensitive abstract interpretation of the client-side input callback (helpers of the same file inlined), of the header '
           'validator and of the head parser driver: every path on which parsing or validation fails must answer with an error and close.')


class InCb(Rule):
    def __init__(self, ctx, p):
        self.ctx = ctx
        self.GO_ON = p.enum('LI_HANDLER_GO_ON')
        self.WAIT = p.enum('LI_HANDLER_WAIT_FOR_EVENT')
        self.WRITE = p.enum('LI_CON_STATE_WRITE')
        self.MAINVR = p.enum('LI_CON_STATE_HANDLE_MAINVR')
        self.nparse = self.nval = self.nrefused = self.naccept = 0

    def start(self, st, fn, ai):
        set_ps(st, parse=None, val=None, started=False, woke=None, big=False, closed=False)

    def call(self, st, ins, name, args, ai):
        if name == 'li_request_validate_header':
            p = get_ps(st, 'parse')
            if p is None or st.const(p) != self.GO_ON:
                ai.report(st, ins, 'a request head is validated although parsing it did not succeed')
            ok = False
            for a, v in mem_of(st, '_GString', 'len'):
                if loaded_from(st, a.a[0], 'liRequestUri', 'raw') and st.rng(v)[1] <= 8192:
                    ok = True
            if not ok:
                ai.report(st, ins, 'a request head is accepted on a path where the request URI was not limited to 8 KB')
        if name in ('li_action_enter', 'li_vrequest_handle_request_headers'):
            set_ps(st, started=True)
            v = get_ps(st, 'val')
            if v is None or not st.nonzero(v):
                ai.report(st, ins, 'request handling starts on a path where the request head was not validated successfully')
        if name in ('li_stream_again', 'li_stream_again_later'):
            if is_fld(args[0], 'liConnection', 'out'):
                set_ps(st, woke=self.missing(st))
        if name in ('li_connection_error', 'li_connection_reset', 'li_plugins_handle_close'):
            set_ps(st, closed=True)

    def post_call(self, st, ins, name, args, res, ai):
        if name == 'li_http_request_parse':
            self.nparse += 1
            track(st, res)
            track(st, args[0])      # (keeps what is known about the request)
            set_ps(st, parse=res)
        elif name == 'li_request_validate_header':
            self.nval += 1
            track(st, res)
            set_ps(st, val=res)

    def store(self, st, ins, addr, val, ai):
        if is_fld(addr, 'liConnection', 'state') and val == self.MAINVR:
            v = get_ps(st, 'val')
            if v is None or not st.nonzero(v):
                ai.report(st, ins, 'the connection enters request handling without a successfully validated request head')

    def missing(self, st):
        """what a refusal lacks at the moment the response is triggered"""
        miss = []
        ka = [x for a, x in mem_of(st, 'liConInfo', 'keep_alive')]
        if not ka or any(st.const(x) != 0 for x in ka):
            miss.append('the connection may be kept alive')
        stt = [x for a, x in mem_of(st, 'liConnection', 'state')]
        if not stt or any(st.const(x) != self.WRITE for x in stt):
            miss.append('the connection does not enter the response writing state')
        hs = [x for a, x in mem_of(st, 'liResponse', 'http_status')]
        if not hs or any(not (st.nonzero(x)) for x in hs):
            miss.append('no error status is set')
        for x in hs:
            c = st.const(x)
            if c is not None and c < 400:
                miss.append('the status is %d' % c)
        return tuple(sorted(miss))

    def branch(self, st, ins, cond, truth, ai):
        if get_ps(st, 'parse') is not None and not get_ps(st, 'big'):
            if any(loaded_from(st, a.a[0], 'liRequestUri', 'raw') and st.rng(x)[0] > 8192 for a, x in mem_of(st, '_GString', 'len')):
                set_ps(st, big=True)

    def ret(self, st, ins, val, ai):
        p, v = get_ps(st, 'parse'), get_ps(st, 'val')
        if p is None or get_ps(st, 'closed'):
            return
        if v is not None and st.nonzero(v):
            self.naccept += 1
            return
        lo, hi, ne = st.rng(p)
        uri_big = get_ps(st, 'big')
        if st.const(p) == self.WAIT and not uri_big:
            # more data needed: nothing decided yet
            return
        if st.const(p) == self.GO_ON and v is None and not uri_big and get_ps(st, 'started'):
            ai.report(st, ins, 'request handled without validation')
            return
        # refused
        self.nrefused += 1
        w = get_ps(st, 'woke')
        miss = list(w or ())
        if get_ps(st, 'started'):
            miss.append('request handling was started')
        if w is None:
            miss.append('sending of the error response is not triggered')
        if miss:
            ai.report(st, ins, 'refused request head: ' + '; '.join(sorted(miss)))


class Validate(Rule):
    def __init__(self):
        self.nf = 0

    def ret(self, st, ins, val, ai):
        if st.const(val) == 0:
            self.nf += 1
            for a, x in mem_of(st, 'liResponse', 'http_status'):
                c = st.const(x)
                if c is None and isinstance(x, V) and x.k == 'init':
                    continue
                lo, hi, ne = st.rng(x)
                if c != 0 and not 400 <= lo <= hi <= 599:
                    ai.report(st, ins, 'a refused request gets status %s' % (c if c is not None else show(x)))


class Parse(Rule):
    def __init__(self, p):
        self.GO_ON = p.enum('LI_HANDLER_GO_ON')
        self.n = 0

    def start(self, st, fn, ai):
        set_ps(st, data=False, lim=False)

    def call(self, st, ins, name, args, ai):
        if name == 'li_chunk_parser_next':
            set_ps(st, data=True)

    def branch(self, st, ins, cond, truth, ai):
        if not get_ps(st, 'lim') and any(st.rng(x)[1] <= 65536 for a, x in mem_of(st, 'liChunkParserCtx', 'bytes_in')):
            set_ps(st, lim=True)

    def ret(self, st, ins, val, ai):
        lo, hi, ne = st.rng(val)
        may_go = lo <= self.GO_ON <= hi and self.GO_ON not in ne
        if may_go and get_ps(st, 'data'):
            self.n += 1
            if not get_ps(st, 'lim'):
                ai.report(st, ins, 'a complete request head is accepted without its size being limited to 64 KB')


def check(ctx):
    p = prog()
    ctx.rule('refuse', 'on every path of the input callback where parsing or validation failed (or the URI exceeds 8 KB): error status set, keep-alive off, '
             'response writing state entered and triggered, request handling not started')
    ctx.rule('status', 'every failing return of the validator leaves an error status (4xx/5xx) or none')
    ctx.rule('limit', 'the head parser reports success only under a 64 KB bound')
    cbs = stream_callbacks(p, 'liConnection', 'in')
    ctx.need(cbs, 'no callback installed for the connection input stream')
    n = 0
    for f in cbs:
        r = InCb(ctx, p)
        ai = analyse(p, f, r, K=48, purecalls=LOGS)
        ctx.take(ai, 'refuse')
        n += r.nrefused
        ctx.floor('parser_and_validator_calls', min(r.nparse, r.nval), 1)
        ctx.floor('accepting_path_ends', r.naccept, 1)
        ctx.ok('refuse', f.loc())
    ctx.floor('refusing_path_ends', n, 3)
    r = Validate()
    f = p.fn('li_request_validate_header')
    ai = analyse(p, f, r, K=24, purecalls=LOGS)
    ctx.take(ai, 'status')
    ctx.floor('failing_returns', r.nf, 5)
    ctx.ok('status', f.loc())
    r = Parse(p)
    f = p.fn('li_http_request_parse')
    ai = analyse(p, f, r, K=8, purecalls=LOGS)
    ctx.take(ai, 'limit')
    ctx.floor('accepting_parser_returns', r.n, 1)
    ctx.ok('limit', f.loc())
