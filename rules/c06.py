"""C06 responses are framed so that the client can tell where they end"""
import re
from common import *

EXPLAIN = ('Path-sensitive interpretation of the head writer (every path must choose a framing that matches the body it lets through), of the callback '
           'moving response data to the connection, of every caller that writes a head, and of the chunked encoder.')

APPEND = ('li_g_string_append_len', 'g_string_append_len', 'g_string_append')
CHUNKED = 1


def cmem(st, S, f, base=None):
    return [x for a, x in mem_of(st, S, f) if base is None or a.a[0] is base]


def all_of(xs, pred):
    return bool(xs) and all(pred(x) for x in xs)


def has_bit(st, x):
    """the chunked bit of a transfer encoding value is known to be set"""
    c = st.const(x)
    if c is not None:
        return bool(c & CHUNKED)
    if isinstance(x, V) and x.k == 'or' and isconst(x.a[1]) and x.a[1] & CHUNKED:
        return True
    return st.nonzero(mk('and', x, CHUNKED)) if isinstance(x, V) else False


ASPECT = {'frame': 'cl one plen te rmcl nohead nostat shut ka v11 tmp out', 'conn': 'ka v11 conn head', 'syntax': 'head eol end out con'}


class Head(Rule):
    def set(self, st, **kw):
        keep = ASPECT[self.aspect].split()
        kw = {k: v for k, v in kw.items() if k in keep}
        if kw:
            set_ps(st, **kw)

    def __init__(self, p, aspect):
        self.aspect = aspect
        self.V11 = p.enum('LI_HTTP_VERSION_1_1')
        self.HEAD = p.enum('LI_HTTP_METHOD_HEAD')
        self.n = self.nhdr = 0

    def start(self, st, fn, ai):
        # cl: length announced; te: chunked announced; rmcl: backend's content-length removed; conn: Connection header written
        # nohead/nostat: method is not HEAD / the status allows a body; eol, end: syntax of the head; out: head handed over
        self.set(st, cl=None, one=None, plen=None, te=False, rmcl=False, conn=None, nohead=False, nostat=False, shut=False, head=None, eol=True, end=False, out=False, ka=None, v11=None, tmp=None)

    def look(self, st):
        v = get_ps(st, 'shut')
        if isinstance(v, V):
            while isinstance(v, V) and v.k in ('u', 'z', 'zext', 'trunc', 's', 'sext') and isinstance(v.a[0], V):
                v = v.a[0]
            if st.nonzero(v) or st.const(v) == 0 or st.truth(v) is False:
                self.set(st, shut=bool(st.nonzero(v)))
        if not get_ps(st, 'nohead'):
            m = cmem(st, 'liRequest', 'http_method')
            if all_of(m, lambda x: self.HEAD in st.rng(x)[2] or not st.rng(x)[0] <= self.HEAD <= st.rng(x)[1]):
                self.set(st, nohead=True)
        ka = cmem(st, 'liConInfo', 'keep_alive')
        if ka:
            self.set(st, ka=True if all_of(ka, lambda x: st.nonzero(x)) else False if all_of(ka, lambda x: st.const(x) == 0) else None)
        ver = cmem(st, 'liRequest', 'http_version')
        if ver:
            self.set(st, v11=True if all_of(ver, lambda x: st.const(x) == self.V11) else
                   False if all_of(ver, lambda x: self.V11 in st.rng(x)[2] or not st.rng(x)[0] <= self.V11 <= st.rng(x)[1]) else None)
        s = cmem(st, 'liResponse', 'http_status')
        ok = get_ps(st, 'nostat') or all_of(s, lambda x: st.rng(x)[0] >= 200 and all(k in st.rng(x)[2] or not st.rng(x)[0] <= k <= st.rng(x)[1] for k in (204, 205, 304)))
        if ok != get_ps(st, 'nostat'):
            self.set(st, nostat=ok)

    def branch(self, st, ins, cond, truth, ai):
        self.look(st)

    def store(self, st, ins, addr, val, ai):
        if is_fld(addr, 'liChunkQueue', 'is_closed') and addr.a[0] is mk('arg', 1):
            self.set(st, shut=st.nonzero(val) or (val if isinstance(val, V) else False))
        if is_fld(addr, 'liConInfo', 'keep_alive'):
            self.set(st, ka=True if st.nonzero(val) else False if st.const(val) == 0 else None)
        if is_fld(addr, 'liResponse', 'http_status'):
            self.set(st, nostat=False)
        if is_fld(addr, 'liRequest', 'http_method'):
            self.set(st, nohead=False)

    def call(self, st, ins, name, args, ai):
        if name in ('g_string_printf', 'g_string_append_printf', 'li_string_append_int') and len(args) > 1:
            v = args[-1]
            fmt = const_arg_str(args[1]) if 'printf' in name else None
            if fmt is not None and not re.search(r'%(l|ll|j|z|q|t)[diu]', fmt):
                self.set(st, plen=None)
            elif isinstance(v, V):
                self.set(st, plen=v)
        elif name in ('li_http_header_overwrite', 'li_http_header_insert', 'li_http_header_append'):
            h = (const_arg_str(args[1]) or '').lower()
            if h == 'content-length':
                self.set(st, cl=get_ps(st, 'plen') or False, one=get_ps(st, 'rmcl'), rmcl=False)
            elif h == 'transfer-encoding' and (const_arg_str(args[3]) or '').lower() == 'chunked':
                self.set(st, te=True)
        elif name == 'li_http_header_remove':
            h = (const_arg_str(args[1]) or '').lower()
            if h == 'content-length':
                self.set(st, cl=None, rmcl=True)
            elif h == 'transfer-encoding':
                self.set(st, te=False)
        elif name == 'li_chunkqueue_skip_all':
            st.mark('emptied', args[0])
        elif name in APPEND:
            self.append(st, ins, args, ai)
        elif name == 'li_chunkqueue_append_string' and args[0] is mk('arg', 1):
            self.final(st, ins, args, ai)
        elif name and name.startswith('li_chunkqueue_steal') and args[0] is mk('arg', 1):
            if self.aspect != 'conn' and not get_ps(st, 'out'):
                ai.report(st, ins, 'body bytes are sent before the response head')
            if self.shut(st) and ('emptied', args[1]) not in st.marks:
                ai.report(st, ins, 'a body is sent with a response that must not have one')

    def post_call(self, st, ins, name, args, res, ai):
        if name in ('g_string_sized_new', 'g_string_new') and get_ps(st, 'head') is None:
            self.set(st, head=res)
        elif name == 'li_chunkqueue_new':
            self.set(st, tmp=res)

    def append(self, st, ins, args, ai):
        h = get_ps(st, 'head')
        if args[0] is not h:
            return
        s = const_arg_str(args[1])
        if get_ps(st, 'end'):
            ai.report(st, ins, 'text is added to the response head behind its empty line')
        if s is None:
            g = base_of(st, args[1], '_GString', 'str')
            h = base_of(st, g, 'liHttpHeader', 'data')
            if h is not None:
                self.nhdr += 1
                if self.aspect == 'syntax':
                    if get_ps(st, 'eol') is False:
                        ai.report(st, ins, 'a header line does not start on a new line')
                    c = get_ps(st, 'con')
                    if not (c and c[0] is h and st.const(c[1]) == 0):
                        ai.report(st, ins, 'a Connection header of a backend is forwarded')
            self.set(st, eol=False)
            return
        n = st.const(args[2]) if len(args) > 2 else len(s)
        if n is not None and 0 <= n <= len(s):
            s = s[:n]
        if self.aspect == 'conn' and s.lower().startswith('connection:'):
            v = s[11:].strip().lower()
            ka = cmem(st, 'liConInfo', 'keep_alive')
            if v == 'close' and not all_of(ka, lambda x: st.const(x) == 0):
                ai.report(st, ins, '"Connection: close" is announced although the connection may be kept')
            if v == 'keep-alive' and not all_of(ka, lambda x: st.nonzero(x)):
                ai.report(st, ins, '"Connection: keep-alive" is announced although the connection may be closed')
            self.set(st, conn=v)
        if s == '\r\n' and get_ps(st, 'eol') is True:
            self.set(st, end=True)
        else:
            self.set(st, eol=s.endswith('\r\n'))

    def shut(self, st):
        return get_ps(st, 'shut') is True

    def final(self, st, ins, args, ai):
        self.n += 1
        self.look(st)
        R = lambda m: ai.report(st, ins, m)
        self.set(st, out=True)
        if self.aspect == 'syntax' and not get_ps(st, 'end'):
            R('the response head is sent without the empty line that ends it')
        up = mk('arg', 3)
        if st.nonzero(up):
            return
        closing = get_ps(st, 'ka') is False
        is11 = get_ps(st, 'v11') is True
        not11 = get_ps(st, 'v11') is False
        if self.aspect == 'frame' and not self.shut(st):
            if not get_ps(st, 'nohead'):
                R('the response to a HEAD request may carry a body')
            if not get_ps(st, 'nostat'):
                R('a response with a status that excludes a body (1xx, 204, 205, 304) may carry one')
            cl, te = get_ps(st, 'cl'), get_ps(st, 'te')
            tes = cmem(st, 'liResponse', 'transfer_encoding')
            coded = all_of(tes, lambda x: has_bit(st, x))
            uncoded = not tes or all_of(tes, lambda x: st.const(x) == 0 or isinstance(x, V) and x.k == 'init' or st.const(mk('and', x, CHUNKED)) == 0)
            if te or coded:
                if not coded:
                    R('chunked coding is announced but the body is not encoded')
                if not (is11 and get_ps(st, 'ka')):
                    R('chunked coding is used for a client that is not an HTTP/1.1 client with a persistent connection')
                if cl is not None or not get_ps(st, 'rmcl'):
                    R('chunked coding is announced together with a Content-Length')
            elif cl is not None:
                if not self.whole(st, cl):
                    R('the Content-Length sent is not the length of the complete body')
                if not get_ps(st, 'one'):
                    R('a Content-Length of the backend may be sent besides the one of the complete body')
            elif not closing:
                R('a body of unknown length is sent on a connection that stays open')
        conn = get_ps(st, 'conn')
        if self.aspect != 'conn':
            return
        if closing and not not11 and conn != 'close':
            R('an HTTP/1.1 client is not told that the connection will be closed')
        if not closing and not is11 and conn != 'keep-alive':
            R('an HTTP/1.0 client is not told that the connection stays open')

    def whole(self, st, v):
        """v is the length field of a queue that is complete"""
        if not isinstance(v, V):
            return False
        q = None
        if v.k == 'init' and fkey(v.a[0]) == ('liChunkQueue', 'length'):
            q = v.a[0].a[0]
        else:
            for a, x in mem_of(st, 'liChunkQueue', 'length'):
                if x is v:
                    q = a.a[0]
        if q is None:
            return False
        if q is not mk('arg', 2):
            return q.k == 'sym' and 'li_chunkqueue_new' in repr(q)
        return ('complete', q) in st.marks


class HeadW(Head):
    """also remembers whether the body queue was seen closed"""

    def look(self, st):
        Head.look(self, st)
        q = mk('arg', 2)
        if any(st.nonzero(x) for x in cmem(st, 'liChunkQueue', 'is_closed', q)):
            st.mark('complete', q)

    def post_call(self, st, ins, name, args, res, ai):
        Head.post_call(self, st, ins, name, args, res, ai)
        if name == 'li_http_header_key_is' and (const_arg_str(args[1]) or '').lower() == 'connection':
            track(st, res)
            self.set(st, con=(args[0], res))


class Out(Rule):
    """response data -> connection"""

    def __init__(self, p):
        self.n = self.ndata = self.nall = 0

    def start(self, st, fn, ai):
        set_ps(st, fresh=False, marked=False, wrote=False, up=False, nosrc=False, clo=False)

    def look(self, st):
        d = {}
        if not get_ps(st, 'fresh') and all_of(cmem(st, 'liConnection', 'response_headers_sent'), lambda x: st.const(x) == 0):
            d['fresh'] = True
        if not get_ps(st, 'nosrc') and any(st.const(x) == 0 for a, x in mem_of(st, 'liStream', 'source') if a.a[0] is mk('arg', 0)):
            d['nosrc'] = True
        if not get_ps(st, 'clo') and any(st.nonzero(x) for a, x in mem_of(st, 'liChunkQueue', 'is_closed')):
            d['clo'] = True
        if d:
            set_ps(st, **d)

    def branch(self, st, ins, cond, truth, ai):
        self.look(st)

    def load(self, st, ins, addr, val, ai):
        if fkey(addr) == ('liStream', 'out') and isinstance(val, V):
            st.setr(val, -INF, INF, frozenset([0]))      # a stream that is connected always has a queue

    def call(self, st, ins, name, args, ai):
        if name == 'li_response_send_headers':
            self.n += 1
            self.look(st)
            if not get_ps(st, 'fresh'):
                ai.report(st, ins, 'a response head may be sent twice')
            set_ps(st, wrote=True, up=st.nonzero(args[3]))
        elif get_ps(st, 'up'):
            pass
        elif name in ('li_chunkqueue_steal_all', 'li_filter_chunked_encode', 'li_chunkqueue_steal_len', 'li_chunkqueue_steal_chunk'):
            q = args[1] if name == 'li_filter_chunked_encode' else args[0]
            if not self.is_rawout(st, q):
                return
            self.ndata += 1
            te = cmem(st, 'liResponse', 'transfer_encoding')
            if name == 'li_filter_chunked_encode':
                if not all_of(te, lambda x: has_bit(st, x)):
                    ai.report(st, ins, 'body data is encoded as chunks although chunked coding was not announced')
            elif not all_of(te, lambda x: st.const(x) == 0 or isinstance(x, V) and st.const(mk('and', x, CHUNKED)) == 0):
                ai.report(st, ins, 'body data is sent as is although chunked coding may have been announced')
            if not get_ps(st, 'wrote') and not all_of(cmem(st, 'liConnection', 'response_headers_sent'), lambda x: st.nonzero(x)):
                ai.report(st, ins, 'body data is sent before the response head')
            if not all_of(cmem(st, 'liChunkQueue', 'is_closed', q), lambda x: st.const(x) == 0):
                ai.report(st, ins, 'body data is sent although the response must not have a body')
            if not all_of(cmem(st, 'liConnection', 'out_has_all_data'), lambda x: st.const(x) == 0):
                ai.report(st, ins, 'body data is sent behind the end of the response')

    def is_rawout(self, st, q):
        if not isinstance(q, V):
            return False
        if q.k == 'init' and fkey(q.a[0]) == ('liStream', 'out'):
            return q.a[0].a[0] is mk('arg', 0) or is_fld(q.a[0].a[0], 'liConnection', 'out')
        return any(x is q and (a.a[0] is mk('arg', 0) or is_fld(a.a[0], 'liConnection', 'out')) for a, x in mem_of(st, 'liStream', 'out'))

    def store(self, st, ins, addr, val, ai):
        k = fkey(addr)
        if k == ('liConnection', 'response_headers_sent') and st.nonzero(val):
            set_ps(st, marked=True)
        if k == ('liConnection', 'out_has_all_data') and st.nonzero(val):
            self.nall += 1
            self.look(st)
            if not get_ps(st, 'clo') and not get_ps(st, 'nosrc'):
                ai.report(st, ins, 'the response is declared complete although more data may come')

    def ret(self, st, ins, val, ai):
        if get_ps(st, 'wrote') and not get_ps(st, 'marked'):
            ai.report(st, ins, 'a response head was sent without remembering it')


class Enc(Rule):
    """chunked encoder: (length, data, CRLF)*, then the terminating chunk once"""

    def __init__(self, p):
        self.n = self.nend = 0

    def start(self, st, fn, ai):
        set_ps(st, at='idle', sent=False, last=False, pos=False, zero=False, inc=None, wasopen=False)

    def look(self, st):
        i, o = mk('arg', 2), mk('arg', 1)
        if not get_ps(st, 'pos') and any(st.nonzero(x) for x in cmem(st, 'liChunkQueue', 'length', i)):       # (a length is never negative: C16)
            set_ps(st, pos=True)
        if not get_ps(st, 'zero') and any(st.rng(x)[1] <= 0 for x in cmem(st, 'liChunkQueue', 'length', i)):
            set_ps(st, zero=True)
        if get_ps(st, 'inc') is None:
            for x in cmem(st, 'liChunkQueue', 'is_closed', i):
                if st.nonzero(x):
                    set_ps(st, inc=True)
                elif st.const(x) == 0:
                    set_ps(st, inc=False)
        for x in cmem(st, 'liChunkQueue', 'is_closed', o):
            if st.const(x) == 0 and not get_ps(st, 'wasopen'):
                set_ps(st, wasopen=True)

    def branch(self, st, ins, cond, truth, ai):
        self.look(st)

    def load(self, st, ins, addr, val, ai):
        # (nothing but the steal changes the length of the input)
        if is_fld(addr, 'liChunkQueue', 'length') and addr.a[0] is mk('arg', 2) and not get_ps(st, 'sent') and isinstance(val, V):
            st.mark('all', val)

    def call(self, st, ins, name, args, ai):
        if not name or not args or args[0] is not mk('arg', 1):
            return
        self.look(st)
        at = get_ps(st, 'at')
        if name.startswith('li_chunkqueue_append'):
            s = const_arg_str(args[1]) if len(args) > 1 else None
            n = st.const(args[2]) if len(args) > 2 else None
            if s is not None and n is not None and 0 <= n <= len(s):
                s = s[:n]
            if s == '\r\n':
                if at != 'data':
                    ai.report(st, ins, 'a line end is sent that does not follow chunk data')
                set_ps(st, at='idle')
            elif s is not None:
                self.nend += 1
                if s != '0\r\n\r\n':
                    ai.report(st, ins, 'the terminating chunk is malformed')
                if at != 'idle':
                    ai.report(st, ins, 'the terminating chunk is sent inside another chunk')
                if get_ps(st, 'inc') is not True:
                    ai.report(st, ins, 'the terminating chunk is sent although more data may come')
                if not get_ps(st, 'wasopen') or get_ps(st, 'last'):
                    ai.report(st, ins, 'the terminating chunk may be sent twice')
                set_ps(st, last=True)
            else:
                self.n += 1
                if at != 'idle' or get_ps(st, 'last'):
                    ai.report(st, ins, 'a chunk length is sent at the wrong place')
                if not get_ps(st, 'pos'):
                    ai.report(st, ins, 'an empty chunk (end of body) may be sent for a part of the body')
                set_ps(st, at='len')
        elif name.startswith('li_chunkqueue_steal'):
            if at != 'len':
                ai.report(st, ins, 'chunk data is sent without chunk length')
            if name == 'li_chunkqueue_steal_len':
                if ('all', args[2]) not in st.marks and not any(x is args[2] for x in cmem(st, 'liChunkQueue', 'length', mk('arg', 2))):
                    ai.report(st, ins, 'the announced chunk length differs from the data')
            elif name != 'li_chunkqueue_steal_all':
                ai.report(st, ins, 'the announced chunk length differs from the data')
            set_ps(st, at='data', sent=True)

    def ret(self, st, ins, val, ai):
        self.look(st)
        if get_ps(st, 'at') != 'idle':
            ai.report(st, ins, 'a chunk is left unfinished')
        if not get_ps(st, 'sent') and not get_ps(st, 'zero'):
            ai.report(st, ins, 'body data is dropped by the chunked encoder')
        if get_ps(st, 'inc') is not False and not get_ps(st, 'last') and get_ps(st, 'wasopen'):
            ai.report(st, ins, 'the end of the body is not announced')
        if get_ps(st, 'shut') and not get_ps(st, 'last'):
            ai.report(st, ins, 'the output is closed without the terminating chunk')

    def store(self, st, ins, addr, val, ai):
        if is_fld(addr, 'liChunkQueue', 'is_closed') and addr.a[0] is mk('arg', 1) and st.nonzero(val):
            set_ps(st, shut=True)


def narrow(fn):
    """places in the (inlined) encoder where the chunk length loses digits"""
    d = fn.defs()
    copies = set()
    for i in fn.instrs():
        if i.op == 'load' and static_field(fn, i.a[0]) == ('liChunkQueue', 'length'):
            copies.add(i.id)
    ch = True
    while ch:
        ch = False
        for i in fn.instrs():
            if i.id in copies or i.op not in ('phi', 'select', 'lshr', 'ashr', 'sext', 'zext', 'freeze', 'udiv', 'sdiv'):
                continue
            ops = [ir_id(x) for x in i.a]
            if any(x in copies for x in ops):
                copies.add(i.id)
                ch = True
    for i in fn.instrs():
        if i.op == 'trunc' and ir_id(i.a[0]) in copies and i.ty in ('i32', 'i16', 'i8'):
            yield i, 'the chunk length is cut to %s' % i.ty
        if i.op == 'icmp' and i.pr in ('ult', 'slt', 'ule', 'sle', 'ugt', 'sgt', 'uge', 'sge'):
            for x, y in ((i.a[0], i.a[1]), (i.a[1], i.a[0])):
                if isinstance(y, int) and not isinstance(y, bool) and 1 < y < 16 and ir_id(x) in d and d[ir_id(x)].op == 'phi' and ir_id(x) not in copies:
                    yield i, 'the number of hexadecimal digits of a chunk length is limited to %d' % y
        if i.op == 'call' and 'printf' in (callee_name(i) or ''):
            for x in i.a:
                if isinstance(x, (list, tuple)) and x and x[0] == 's' and re.search(r'%[#0-9]*[hdiuxX]', x[1]):
                    yield i, 'the chunk length is formatted with fewer digits than it can have'


def ir_id(x):
    if isinstance(x, str) and x.startswith('%'):
        return int(x[1:])
    return None


def check(ctx):
    p = prog()
    ctx.rule('head', 'head writer: every path ends in exactly one framing (no body / length of the complete body / chunked for persistent HTTP/1.1 without Content-Length / close), '
             'no body for HEAD, 1xx, 204, 205, 304, Connection header as decided, well-formed head')
    ctx.rule('data', 'data callback: one head per response, before the data; data encoded iff chunked was announced; nothing for responses without body; complete only at the end of the source')
    ctx.rule('encode', 'chunked encoder: length of exactly the data, data, CRLF; terminating chunk once at the end; no digits lost')
    f = p.fn('li_response_send_headers')
    KEEP = {('liConInfo', 'keep_alive'), ('liRequest', 'http_version'), ('liRequest', 'http_method'), ('liResponse', 'http_status'), ('liResponse', 'transfer_encoding')}
    for asp in ASPECT:
        r = HeadW(p, asp)
        ai = analyse(p, f, r, K=6, maxvisit=200000, keepfields=unwritten(p, f, KEEP), purecalls=LOGS - {'li_http_header_key_is'},
                     policy=same_tu(opaque=APPEND + ('li_response_send_error_page', 'li_http_header_key_is')))
        ctx.take(ai, 'head')
        ctx.floor('heads_sent_' + asp, r.n, 1)
        if asp == 'syntax':
            ctx.floor('header_lines', r.nhdr, 1)
        ctx.ok('head', f.loc())
    cs = {}
    for g, i in callers_of(p, 'li_response_send_headers'):
        for e in roots_calling(p, g):
            cs[e.key] = e
    ctx.floor('head_senders', len(cs), 2)
    nd = na = 0
    for g in cs.values():
        r = Out(p)
        ai = analyse(p, g, r, K=16, purecalls=LOGS)
        ctx.take(ai, 'data')
        nd += r.ndata
        na += r.nall
        ctx.ok('data', g.loc())
    ctx.floor('body_transfers', nd, 2)
    ctx.floor('completions', na, 1)
    f = p.fn('li_filter_chunked_encode')
    r = Enc(p)
    ai = analyse(p, f, r, K=16, purecalls=LOGS)
    ctx.take(ai, 'encode')
    ctx.floor('chunks', r.n, 1)
    ctx.floor('terminators', r.nend, 1)
    for i, m in narrow(ai.fn):
        ctx.bad('encode', i.loc(), m)
    ctx.ok('encode', f.loc())
