"""C08 backend responses are forwarded completely or aborted"""
from common import *

EXPLAIN = ('Abstract interpretation of the stream that turns a backend connection into a response (head check, body transfer, end of response) and of the '
           'FastCGI record decoder.')
MAX = (1 << 63) - 1
S = 'liStreamHttpResponse'
ERR = {'li_vrequest_error', 'li_stream_reset'}


def fval(st, S_, f):
    xs = [x for a, x in mem_of(st, S_, f)]
    return xs


def known(st, xs, pred):
    return bool(xs) and all(pred(x) for x in xs)


class Data(Rule):
    """the callback of the response stream, per event"""
    joins = False

    def __init__(self, p, ev, evname):
        self.ev = ev
        self.evname = evname
        self.nmove = self.nend = self.nret = 0
        self.GO = p.enum('LI_HANDLER_GO_ON')
        self.WAIT = p.enum('LI_HANDLER_WAIT_FOR_EVENT')

    def start(self, st, fn, ai):
        st.setr(mk('arg', 1), self.ev, self.ev, frozenset())
        # chunked/close/fin: what is known about the framing; src: source queue is closed; moved: amount taken; bal: remaining length was reduced
        set_ps(st, err=False, ch=None, wc=None, fin=None, src=None, gone=False, stolen=False, rem=None, moved=None, dec=None, out=None, nosrc=False, dd=False)

    def isout(self, st, q):
        """q is the output queue of the stream itself"""
        b = base_of(st, q, 'liStream', 'out')
        return b is not None and self.own(b)

    def own(self, b):
        b = root(b)
        return b is mk('arg', 0)

    def issrc(self, st, q):
        if ('srcq', q) in st.marks:
            return True
        b = base_of(st, q, 'liStream', 'out')
        if b is None:
            return False
        return loaded_from(st, b, 'liStream', 'source') or ('srcobj', b) in st.marks

    def load(self, st, ins, addr, val, ai):
        if is_fld(addr, 'liStream', 'source') and isinstance(val, V):
            st.mark('srcobj', val)
        if is_fld(addr, 'liStream', 'out') and isinstance(val, V) and ('srcobj', addr.a[0]) in st.marks:
            st.mark('srcq', val)
        if is_fld(addr, 'liChunkQueue', 'is_closed') and self.issrc(st, addr.a[0]) and isinstance(val, V):
            st.mark('srccl', val)
        self.look(st)

    def tri(self, st, xs):
        if known(st, xs, st.nonzero):
            return True
        if known(st, xs, lambda x: st.const(x) == 0):
            return False
        return None

    def look(self, st):
        kw = {}
        for k, f in (('ch', 'transfer_encoding_chunked'), ('wc', 'wait_for_close'), ('fin', 'response_headers_finished')):
            t = self.tri(st, fval(st, S, f))
            if t is not None and get_ps(st, k) != t:
                kw[k] = t
        r = fval(st, S, 'content_length')
        if get_ps(st, 'moved') is None and known(st, r, lambda x: st.const(x) == 0) and get_ps(st, 'rem') != 0:
            kw['rem'] = 0
        for a, x in mem_of(st, 'liChunkQueue', 'is_closed'):
            if self.issrc(st, a.a[0]):
                t = self.tri(st, [x])
                if t is not None and get_ps(st, 'src') != t:
                    kw['src'] = t
            elif self.isout(st, a.a[0]):
                t = self.tri(st, [x])
                if t is not None and get_ps(st, 'out') != t:
                    kw['out'] = t
        for m in st.marks:
            if m[0] == 'srccl':
                t = self.tri(st, [m[1]])
                if t is not None and get_ps(st, 'src') != t:
                    kw['src'] = t
        s = [x for a, x in mem_of(st, 'liStream', 'source') if self.own(a.a[0])]
        if known(st, s, lambda x: st.const(x) == 0) and not get_ps(st, 'nosrc'):
            kw['nosrc'] = True
        if kw:
            set_ps(st, **kw)

    def branch(self, st, ins, cond, truth, ai):
        self.look(st)

    def call(self, st, ins, name, args, ai):
        if name is None:
            return
        if name in ERR:
            set_ps(st, err=True)
        elif name == 'li_stream_disconnect' and self.own(args[0]):
            set_ps(st, gone=True)
        elif name == 'li_stream_disconnect_dest' and self.own(args[0]):
            set_ps(st, dd=True)
        elif name.startswith('li_chunkqueue_steal') and self.isout(st, args[0]):
            self.look(st)
            self.nmove += 1
            if get_ps(st, 'err'):
                return
            if not get_ps(st, 'fin') and not get_ps(st, 'hd'):
                ai.report(st, ins, 'response data are forwarded before the response head of the backend was accepted')
            if get_ps(st, 'ch') is not False:
                ai.report(st, ins, 'data of a response that may be chunked are forwarded undecoded')
            if name == 'li_chunkqueue_steal_all':
                if get_ps(st, 'wc') is not True:
                    ai.report(st, ins, 'all data are forwarded although the response has an announced length')
                set_ps(st, stolen=True)
            elif name == 'li_chunkqueue_steal_len':
                if not any(x is args[2] for x in fval(st, S, 'content_length')):
                    ai.report(st, ins, 'the amount of forwarded data is not limited by the remaining announced length')
            else:
                ai.report(st, ins, 'response data are forwarded without regard to the announced length')
        elif name == 'li_filter_chunked_decode':
            self.look(st)
            self.nmove += 1
            if not get_ps(st, 'err') and get_ps(st, 'ch') is not True:
                ai.report(st, ins, 'a response that is not chunked is decoded')
            if not get_ps(st, 'err') and not get_ps(st, 'fin') and not get_ps(st, 'hd'):
                ai.report(st, ins, 'response data are forwarded before the response head of the backend was accepted')
        elif name == 'li_vrequest_indirect_headers_ready' or name == 'li_vrequest_connection_upgrade':
            set_ps(st, hd=True)

    def post_call(self, st, ins, name, args, res, ai):
        if name == 'li_chunkqueue_steal_len' and self.isout(st, args[0]):
            set_ps(st, moved=res, rem=None)
            track(st, res)
        elif name == 'li_filter_chunked_decode':
            track(st, res)
            set_ps(st, dec=res)
        elif name == 'li_http_response_parse':
            track(st, res)
            set_ps(st, parse=res)

    def store(self, st, ins, addr, val, ai):
        if is_fld(addr, S, 'content_length'):
            m = get_ps(st, 'moved')
            if m is not None:
                old = st.mem.get(addr)
                if add(old if old is not None else mk('init', addr), m, -1) is val:
                    set_ps(st, moved=None, rem='ok')
                else:
                    ai.report(st, ins, 'the remaining length is not reduced by exactly the amount forwarded')
        elif is_fld(addr, 'liChunkQueue', 'is_closed') and self.isout(st, addr.a[0]) and st.const(val) != 0:
            self.look(st)
            self.nend += 1
            if get_ps(st, 'err'):
                return
            if get_ps(st, 'ch') is not False:
                ai.report(st, ins, 'a response that may be chunked is marked complete without its last chunk')
            elif get_ps(st, 'wc') is True:
                if get_ps(st, 'src') is not True:
                    ai.report(st, ins, 'the response is marked complete although the backend has not closed')
                if not get_ps(st, 'stolen'):
                    ai.report(st, ins, 'the response is marked complete before its data were forwarded')
            else:
                if get_ps(st, 'moved') is not None or not known(st, fval(st, S, 'content_length'), lambda x: st.const(x) == 0):
                    ai.report(st, ins, 'the response is marked complete before the announced length was forwarded')

    def ret(self, st, ins, val, ai):
        self.look(st)
        self.nret += 1
        g = lambda k: get_ps(st, k)
        if self.evname == 'data':
            if g('err') or g('gone') or g('nosrc'):
                if g('dec') is not None and g('gone') and not g('err') and st.const(g('dec')) == 0:
                    ai.report(st, ins, 'malformed chunked data of a backend are not treated as an error')
                return
            if g('moved') is not None:
                ai.report(st, ins, 'the remaining length is not reduced by the amount forwarded')
            if g('dec') is not None and not st.nonzero(g('dec')):
                ai.report(st, ins, 'malformed chunked data of a backend are not treated as an error')
            pr = g('parse')
            if pr is not None and not any(st.evalcmp('eq', pr, c) is not False for c in (self.GO, self.WAIT)):
                return      # results the parser never gives
            if g('src') is not False:
                ai.report(st, ins, 'the response may wait for a backend that has already closed')
        elif self.evname == 'lost':
            if g('out') is not True and not g('dd'):
                ai.report(st, ins, 'an incomplete response is not aborted when its backend is lost')


class Head(Rule):
    """acceptance of a backend's response head"""
    KEYS = {'te': 'cur cmp n chk rmte rmcl hascl'.split(), 'len': 'num numend errno'.split()}

    def __init__(self, p, aspect):
        self.aspect = aspect
        self.n = self.nnum = 0

    def start(self, st, fn, ai):
        set_ps(st, err=False)
        if self.aspect == 'te':
            set_ps(st, cur=None, cmp=(), n=0, rmte=False, rmcl=False, none=False)

    def cur_ok(self, st, ins, ai):
        cur = get_ps(st, 'cur')
        if cur is None or st.const(cur) == 0:
            return
        for val, sym in get_ps(st, 'cmp', ()):
            if st.const(sym) == 0 and val in ('identity', 'chunked'):
                if val == 'chunked':
                    set_ps(st, n=min(get_ps(st, 'n') + 1, 2))
                return
        if not get_ps(st, 'err'):
            ai.report(st, ins, 'a backend response with an unsupported Transfer-Encoding is accepted')

    def call(self, st, ins, name, args, ai):
        if name in ERR:
            set_ps(st, err=True)
        if name.startswith('li_chunkqueue_steal') if name else False:
            set_ps(st, moving=True)
        if self.aspect == 'te':
            if name in ('li_http_header_find_next', 'li_http_header_find_first') and (const_arg_str(args[1]) or '').lower() == 'transfer-encoding':
                self.cur_ok(st, ins, ai)
                set_ps(st, cur=None, cmp=())
            elif name == 'li_http_header_remove':
                h = (const_arg_str(args[1]) or '').lower()
                if h == 'transfer-encoding':
                    self.cur_ok(st, ins, ai)
                    set_ps(st, rmte=True, cur=None, cmp=())
                elif h == 'content-length':
                    set_ps(st, rmcl=True)
        if name == 'li_vrequest_indirect_headers_ready':
            self.accept(st, ins, ai)

    def post_call(self, st, ins, name, args, res, ai):
        if self.aspect == 'te':
            if name in ('li_http_header_find_first', 'li_http_header_find_next') and (const_arg_str(args[1]) or '').lower() == 'transfer-encoding':
                track(st, res)
                set_ps(st, cur=res, cmp=())
            elif name in ('g_ascii_strcasecmp', 'strcasecmp', 'strcmp'):
                s = (const_arg_str(args[1]) or const_arg_str(args[0]) or '').lower()
                if s in ('identity', 'chunked'):
                    track(st, res)
                    set_ps(st, cmp=tuple(x for x in get_ps(st, 'cmp') if x[0] != s) + ((s, res),))
        elif name in ('g_ascii_strtoll', 'g_ascii_strtoull', 'strtoll', 'strtoull', 'strtol', 'strtoul', 'atoi', 'atol', 'atoll'):
            self.nnum += 1
            st.setr(res, -(1 << 63), MAX, frozenset())
            track(st, res)
            set_ps(st, num=res, numend=args[1] if len(args) > 1 else None)

    def branch(self, st, ins, cond, truth, ai):
        if self.aspect == 'te':
            cur = get_ps(st, 'cur')
            if cur is not None and st.const(cur) == 0 and not get_ps(st, 'none') and get_ps(st, 'n') == 0 and not get_ps(st, 'rmte'):
                set_ps(st, none=True)
        elif isinstance(cond, V) and cond.k == 'cmp' and cond.a[2] == 34 and get_ps(st, 'num') is not None and (cond.a[0] == 'ne') == truth:
            set_ps(st, errno=True)

    def store(self, st, ins, addr, val, ai):
        if self.aspect == 'len' and is_fld(addr, S, 'content_length'):
            num = get_ps(st, 'num')
            if num is not None and val is num:
                lo, hi, ne = st.rng(val)
                if lo < 0:
                    ai.report(st, ins, 'a negative Content-Length of a backend is accepted')
                e = get_ps(st, 'numend')
                end = st.mem.get(e) if isinstance(e, V) else None
                ch = st.mem.get(end) if isinstance(end, V) else None
                if ch is None or st.const(ch) != 0:
                    ai.report(st, ins, 'a Content-Length of a backend with trailing garbage is accepted')
                if hi >= MAX and not get_ps(st, 'errno'):
                    ai.report(st, ins, 'an overflowing Content-Length of a backend is accepted')
            elif not get_ps(st, 'moving') and (st.const(val) is None or st.const(val) >= 0):
                ai.report(st, ins, 'the response length does not follow the Content-Length of the backend')
        if is_fld(addr, S, 'response_headers_finished') and st.const(val) != 0:
            set_ps(st, fin=True)

    def accept(self, st, ins, ai):
        self.n += 1
        R = lambda m: ai.report(st, ins, m)
        if get_ps(st, 'err'):
            R('a refused backend response is passed on')
        ch = fval(st, S, 'transfer_encoding_chunked')
        if self.aspect == 'te':
            self.cur_ok(st, ins, ai)
            n = get_ps(st, 'n')
            if get_ps(st, 'cur') is None and not get_ps(st, 'rmte'):
                R('the Transfer-Encoding of the backend is not examined')
            if n > 1:
                R('a backend response with chunked applied more than once is accepted')
            if n == 1:
                if not known(st, ch, st.nonzero):
                    R('a chunked backend response is not decoded')
                if not get_ps(st, 'rmcl'):
                    R('the Content-Length of a chunked backend response is kept')
            if n == 0 and not known(st, ch, lambda x: st.const(x) == 0):
                R('a backend response that is not chunked is decoded as chunked')
            if not get_ps(st, 'rmte') and not (get_ps(st, 'cur') is not None and st.const(get_ps(st, 'cur')) == 0):
                R('the Transfer-Encoding of the backend is passed on to the client')
        else:
            wc = fval(st, S, 'wait_for_close')
            cl = fval(st, S, 'content_length')
            if not (known(st, ch, st.nonzero) or known(st, wc, st.nonzero) or known(st, cl, lambda x: st.rng(x)[0] >= 0)):
                R('a backend response is accepted without a way to find its end')
            if known(st, wc, st.nonzero) and any(x is get_ps(st, 'num') for x in cl):
                R('the announced length of a backend response is not used')


# fields of the decoder: the structure is private to its file, the calls analysed as opaque there do not come back to it
KEEP = [('liFastCGIBackendContext', f) for f in 'stdin_closed stdout_closed stderr_closed request_done version type requestID contentLength paddingLength remainingContent remainingPadding iostream'.split()]


class Fcgi(Rule):
    """FastCGI records: contents are taken exactly once; response data come only from stdout records"""
    C = 'liFastCGIBackendContext'

    KEYS = {'acct': ('pend', 'hdr', 'buf'), 'data': ('buf',), 'end': ('fine', 'buf'), 'lost': ('fine',)}

    def __init__(self, p, ev, evname, aspect):
        self.aspect = aspect
        self.keys = self.KEYS[aspect] + ('err',)
        self.n = self.nend = self.nfwd = self.nret = 0
        self.ev = ev
        self.evname = evname
        self.OUT = p.enum('FCGI_STDOUT')
        self.END = p.enum('FCGI_END_REQUEST')

    def start(self, st, fn, ai):
        st.setr(mk('arg', 1), self.ev, self.ev, frozenset())
        # pend: bytes removed from the input but not yet accounted; hdr: 1 = header bytes copied, 2 = header removed; bytes: where the header / end request bytes are
        self.put(st, pend=None, hdr=0, err=False, buf=None, fine=False)

    def put(self, st, **kw):
        set_ps(st, **{k: v for k, v in kw.items() if k in self.keys})

    def f(self, st, f):
        return fval(st, self.C, f)

    def isin(self, st, q):
        """the queue filled from the backend socket"""
        b = base_of(st, q, 'liStream', 'out')
        return b is not None and is_fld(b, 'liIOStream', 'stream_in')

    def isout(self, st, q):
        b = base_of(st, q, 'liStream', 'out')
        return b is not None and is_fld(b, self.C, 'fcgi_in')

    def know(self, st, k):
        """what memory says right now"""
        if k in ('typ', 'cl0'):
            c = {st.const(x) for x in self.f(st, 'type' if k == 'typ' else 'contentLength')}
            return c.pop() if len(c) == 1 else None
        if k in ('so', 'done', 'none'):
            xs = self.f(st, {'so': 'stdout_closed', 'done': 'request_done', 'none': 'iostream'}[k])
            if known(st, xs, st.nonzero):
                return k != 'none'
            if known(st, xs, lambda x: st.const(x) == 0):
                return k == 'none'
            return None
        xs = [x for a, x in mem_of(st, 'liChunkQueue', 'is_closed' if k == 'closed' else 'length') if self.isin(st, a.a[0])]
        if k == 'dry':
            return known(st, xs, lambda x: st.rng(x)[1] <= 0)
        if known(st, xs, st.nonzero):
            return True
        if known(st, xs, lambda x: st.const(x) == 0):
            return False

    def look(self, st):
        if 'fine' in self.keys:
            k = self.know
            fine = k(st, 'closed') is False or k(st, 'done') is True or k(st, 'none') is True
            if fine and not get_ps(st, 'fine'):
                self.put(st, fine=True)      # the input is not reopened and nothing else closes it during the callback

    def branch(self, st, ins, cond, truth, ai):
        self.look(st)
        if self.aspect == 'acct' and isinstance(cond, V) and cond.k == 'cmp':
            for n, o in (cond.a[1:], cond.a[2:0:-1]):
                for tag, fs in (('lerc', self.f(st, 'remainingContent')), ('leav', self.avail(st)), ('lerp', self.f(st, 'remainingPadding'))):
                    if isinstance(n, V) and any(o is x for x in fs) and self.le(st, n, [o]):
                        st.mark(tag, n)
                        st.mark(tag, o)

    def load(self, st, ins, addr, val, ai):
        self.look(st)

    joins = True

    def join(self, st, s, va, a, vb, b):
        for tag, fs in (('lerc', lambda x: self.f(x, 'remainingContent')), ('leav', self.avail), ('lerp', lambda x: self.f(x, 'remainingPadding'))):
            if self.le(a, va, fs(a), tag) and self.le(b, vb, fs(b), tag):
                st.mark(tag, s)

    def forget(self, st, tag):
        for m in [m for m in st.marks if m[0] == tag]:
            st.unmark(*m)

    def le(self, st, n, fs, tag=None):
        """n is at most one of fs"""
        if tag and (tag, n) in st.marks:
            return True
        if isinstance(n, V) and n.k == 'trunc' and n.a[1] >= 32:
            n = n.a[0]
        for x in fs:
            if n is x or st.evalcmp('sle', n, x) is True or st.evalcmp('slt', n, x) is True:
                return True
            if st.const(n) is not None and st.rng(x)[0] >= st.const(n):
                return True
        return False

    def avail(self, st):
        return [x for a, x in mem_of(st, 'liChunkQueue', 'length') if self.isin(st, a.a[0])]

    def call(self, st, ins, name, args, ai):
        if name is None:
            return
        if name == 'fastcgi_reset' or name == 'abort':
            self.put(st, err=True)
            return
        if self.evname != 'data':
            return
        R = lambda m: ai.report(st, ins, m)
        g = lambda k: get_ps(st, k) if k in self.keys else self.know(st, k)
        acct, data = self.aspect == 'acct', self.aspect == 'data'
        if name.startswith('li_chunkqueue_') and name != 'li_chunkqueue_extract_to' and any(self.isin(st, a) for a in args[:2]):
            self.look(st)
            if name == 'li_chunkqueue_steal_len':
                self.n += 1
                n = args[2]
                if not self.isout(st, args[0]):
                    R('response data of the backend do not go to the response')
                self.nfwd += 1
                if data and g('typ') != self.OUT:
                    R('contents of a record that is not response data are forwarded')
                if data and g('so') is not False:
                    R('response data are forwarded after the end of the response')
                if acct and not self.le(st, n, self.f(st, 'remainingContent'), 'lerc'):
                    R('more data than the record contains are forwarded')
                if acct and g('pend') is not None:
                    R('record contents are taken twice')
                if g('hdr') in (2, 3, 4):
                    R('data are taken before the lengths of the record are known')
                self.put(st, pend=('c', n, self.le(st, n, self.avail(st), 'leav'), None))
            elif name == 'li_chunkqueue_skip':
                if self.le(st, args[1], self.avail(st), 'leav'):
                    st.mark('full', ins.id)
                else:
                    st.unmark('full', ins.id)
            elif name in ('li_chunkqueue_extract_to_memory',):
                pass
            elif name.startswith('li_chunkqueue_steal') or name.startswith('li_chunkqueue_skip'):
                R('data are taken without regard to the record they belong to')
        elif name.startswith('li_chunkqueue_') and args and self.isout(st, args[0]) and name not in ('li_chunkqueue_limit_available',):
            R('data which are not record contents are added to the response')

    def post_call(self, st, ins, name, args, res, ai):
        if self.evname != 'data':
            return
        R = lambda m: ai.report(st, ins, m)
        g = lambda k: get_ps(st, k) if k in self.keys else self.know(st, k)
        if name and name.startswith('li_chunkqueue_s') and any(self.isin(st, a) for a in args[:2]):
            self.forget(st, 'leav')
        if name == 'li_chunkqueue_extract_to_memory' and self.isin(st, args[0]):
            self.look(st)
            if known(st, self.f(st, 'remainingContent'), lambda x: st.const(x) == 0) and known(st, self.f(st, 'remainingPadding'), lambda x: st.const(x) == 0) and st.const(args[1]) == 8:
                self.put(st, hdr=1, buf=args[2])
            else:
                self.put(st, buf=args[2])
        elif name == 'li_chunkqueue_skip' and self.isin(st, args[0]):
            self.look(st)
            self.n += 1
            n = args[1]
            if self.aspect != 'acct':
                return
            if g('hdr') == 1:
                if st.const(n) != 8:
                    R('not exactly a record header is removed')
                self.put(st, hdr=2)
                return
            if g('hdr') in (2, 3, 4):
                R('data are taken before the lengths of the record are known')
            full = ('full', ins.id) in st.marks
            if g('pend') is not None:
                R('record contents are taken twice')
            rc, rp = self.f(st, 'remainingContent'), self.f(st, 'remainingPadding')
            if self.le(st, n, rc, 'lerc') or st.const(n) is not None and st.const(n) == g('cl0'):
                self.put(st, pend=('c', n, full, res))
            elif self.le(st, n, rp, 'lerp'):
                if not known(st, rc, lambda x: st.rng(x)[1] <= 0):
                    R('padding is removed before the contents of the record')
                self.put(st, pend=('p', n, full, res))
            else:
                R('more data than the record contains are skipped')

    def hdrbyte(self, st, v):
        """offsets of header bytes v is made of: [(offset, shift)]"""
        b = get_ps(st, 'buf')
        if not isinstance(v, V):
            return None
        if v.k == 'sum':
            r = [] if v.a[0] == 0 else None
            for x, c in zip(v.a[1::2], v.a[2::2]):
                h = self.hdrbyte(st, x)
                if h is None or r is None or c < 1:
                    return None
                r += [(o, s * c) for o, s in h]
            return r
        if v.k in ('or', 'u', 'trunc', 'shl', 'mul', 'and'):
            if v.k == 'or':
                x, y = self.hdrbyte(st, v.a[0]), self.hdrbyte(st, v.a[1])
                return x + y if x is not None and y is not None else None
            h = self.hdrbyte(st, v.a[0])
            if h is None:
                return None
            if v.k == 'shl' and isconst(v.a[1]):
                return [(o, s << v.a[1]) for o, s in h]
            if v.k == 'mul' and isconst(v.a[1]):
                return [(o, s * v.a[1]) for o, s in h]
            return h
        for a, x in st.mem.items():
            if x is v:
                o = offset_in(a, b)
                if o is not None:
                    return [(o, 1)]
        if v.k in ('init',):
            o = offset_in(v.a[0], b)
            if o is not None:
                return [(o, 1)]
        return None

    def store(self, st, ins, addr, val, ai):
        if self.evname != 'data' or not isinstance(addr, V) or addr.k != 'fld':
            return
        R = lambda m: ai.report(st, ins, m)
        g = lambda k: get_ps(st, k) if k in self.keys else self.know(st, k)
        fld = addr.a[2] if addr.a[1] == self.C else None
        if fld in ('contentLength', 'paddingLength', 'type') and self.aspect == 'acct' and g('hdr') in (2, 3, 4):
            want = {'contentLength': [(4, 256), (5, 1)], 'paddingLength': [(6, 1)], 'type': [(1, 1)]}[fld]
            h = self.hdrbyte(st, val)
            if h is None or sorted(h) != want:
                R('%s of a record is not taken from its header bytes' % fld)
        elif fld in ('remainingContent', 'remainingPadding') and self.aspect == 'acct':
            self.look(st)
            self.forget(st, 'lerc' if fld == 'remainingContent' else 'lerp')
            old = st.mem.get(addr)
            old = old if old is not None else mk('init', addr)
            pd = g('pend')
            if pd is None:
                if g('hdr') in (2, 3, 4):
                    want = [(4, 256), (5, 1)] if fld == 'remainingContent' else [(6, 1)]
                    h = self.hdrbyte(st, val)
                    src = 'contentLength' if fld == 'remainingContent' else 'paddingLength'
                    if not (h is not None and sorted(h) == want or val in [mk('u', x, 16) for x in self.f(st, src)] + [mk('u', x, 8) for x in self.f(st, src)] + self.f(st, src)):
                        R('the length of a record is not the one in its header')
                    mine, other = (3, 4) if fld == 'remainingContent' else (4, 3)
                    self.put(st, hdr=0 if g('hdr') == other else mine)
                    return
                if val is not old:
                    R('the rest of a record changes although nothing was taken')
                return
            if (pd[0] == 'c') != (fld == 'remainingContent'):
                return
            n, full, res = pd[1:]
            ok = res is not None and add(old, res, -1) is val
            if full and not ok:
                ok = add(old, n, -1) is val or st.const(val) == 0 and (n is old or st.const(n) is not None and st.const(n) == st.const(old))
            if not ok:
                R('the rest of the record is not reduced by exactly the amount taken')
            self.put(st, pend=None)
        elif fld == 'stdout_closed' and self.aspect == 'data' and st.const(val) != 0:
            self.look(st)
            if g('err') or g('so') is True:
                return
            if not (g('typ') == self.OUT and g('cl0') == 0 or g('typ') == self.END and self.complete(st)):
                R('the response is taken as ended without an end of data or end of request record')
        elif self.aspect == 'end' and addr.a[1] == 'liChunkQueue' and addr.a[2] == 'is_closed' and st.const(val) != 0 and self.isout(st, addr.a[0]):
            self.look(st)
            self.nend += 1
            if g('err'):
                return
            if g('typ') == self.END and self.complete(st):
                return
            if g('so') is True and g('closed') is True and g('dry'):
                return
            R('the response is marked complete without an end of request record or the end of data and connection')

    def complete(self, st):
        """the end request record says the request was completed"""
        b = get_ps(st, 'buf')
        for a, x in st.mem.items():
            if offset_in(a, b) == 4 and st.const(x) == 0:
                return True
        for x, r in st.facts.items():
            if r[0] == r[1] == 0 and x.k in ('init', 'u', 'trunc') and (self.hdrbyte(st, x) or []) == [(4, 1)]:
                return True
        return False

    def ret(self, st, ins, val, ai):
        self.look(st)
        self.nret += 1
        g = lambda k: get_ps(st, k) if k in self.keys else self.know(st, k)
        if g('err'):
            return
        if self.evname == 'lost':
            if not g('fine'):
                ai.report(st, ins, 'the request is not aborted when its backend is lost')
            return
        if self.aspect == 'acct' and g('pend') is not None:
            ai.report(st, ins, 'the rest of the record is not reduced by the amount taken')
        if self.aspect == 'end' and not g('fine'):
            ai.report(st, ins, 'the response may wait for a backend that has already closed')


def split_off(a):
    o = 0
    while isinstance(a, V):
        if a.k == 'idx' and isconst(a.a[1]):
            o += a.a[1] * (a.a[2] if len(a.a) > 2 and isconst(a.a[2]) else 1)
            a = a.a[0]
        elif a.k == 'sum' and len(a.a) == 3 and a.a[2] == 1:
            o += a.a[0]
            a = a.a[1]
        else:
            break
    return a, o


def offset_in(a, b):
    """constant byte offset of address a in buffer b"""
    x, o = split_off(a)
    y, q = split_off(b)
    return o - q if x is y and isinstance(x, V) else None


class Join(Rule):
    """connecting the backend to the client"""
    def __init__(self, p):
        self.n = 0

    def start(self, st, fn, ai):
        set_ps(st, ok=False)

    def fine(self, st):
        if known(st, [x for a, x in mem_of(st, 'liVRequest', 'direct_out')], st.nonzero):
            return True
        isb = lambda x: base_of(st, x, 'liVRequest', 'backend_source') is not None
        if known(st, [x for a, x in mem_of(st, 'liStream', 'source') if isb(a.a[0])], st.nonzero):
            return True
        return known(st, [x for a, x in mem_of(st, 'liChunkQueue', 'is_closed') if isb(base_of(st, a.a[0], 'liStream', 'out'))], st.nonzero)

    def branch(self, st, ins, cond, truth, ai):
        if not get_ps(st, 'ok') and self.fine(st):
            set_ps(st, ok=True)

    def call(self, st, ins, name, args, ai):
        if name == 'li_stream_connect' and base_of(st, args[0], 'liVRequest', 'backend_source') is not None:
            self.n += 1
            if not get_ps(st, 'ok') and not self.fine(st):
                ai.report(st, ins, 'the client is left waiting for a backend that was lost before the response was connected')
        elif get_ps(st, 'ok') and name not in LOGS:
            set_ps(st, ok=False)


def check(ctx):
    p = prog()
    ctx.rule('data', 'response stream: data move only after the head was accepted; chunked data only through the decoder; with an announced length exactly that many bytes, the remainder reduced by the amount moved; complete only when that end is reached; a closed source never leaves the response waiting; loss of the backend aborts an incomplete response')
    ctx.rule('head', 'backend response head: only identity/chunked codings, chunked once and decoded, Transfer-Encoding not passed on, Content-Length dropped when chunked, otherwise fully numeric, non-negative and not overflowed; a way to find the end')
    cbs = stream_callbacks(p, S, 'stream')
    ctx.need(len(cbs) == 1, 'callback of the backend response stream not found')
    cb = cbs[0]
    opaque = ('check_response_header',)
    n = e = 0
    for ev, nm in ((p.enum('LI_STREAM_NEW_DATA'), 'data'), (p.enum('LI_STREAM_DISCONNECTED_SOURCE'), 'lost')):
        r = Data(p, ev, nm)
        ai = analyse(p, cb, r, K=6, purecalls=LOGS)
        ctx.take(ai, 'data')
        ctx.ok('data', '%s [%s]' % (cb.loc(), nm))
        n += r.nmove
        e += r.nend
        ctx.floor('path_ends[%s]' % nm, r.nret, 1)
    ctx.floor('transfers', n, 3)
    ctx.floor('completions', e, 2)
    for aspect in ('te', 'len'):
        r = Head(p, aspect)
        ai = analyse(p, cb, r, K=6, purecalls=LOGS)
        ctx.take(ai, 'head')
        ctx.ok('head', '%s [%s]' % (cb.loc(), aspect))
        ctx.floor('accepting_paths[%s]' % aspect, r.n, 1)
    ctx.floor('number_parses', r.nnum, 1)
    ctx.rule('fcgi', 'FastCGI decoder: header fields come from their bytes; contents and padding are removed at most as announced and the rest is reduced by exactly that amount; only data of stdout records before the end of data are forwarded; end only after a completed end-request record or end of data and connection; otherwise a closed or lost backend resets the request')
    cbs = stream_callbacks(p, Fcgi.C, 'fcgi_in')
    ctx.need(len(cbs) == 1, 'callback of the FastCGI response stream not found')
    n = e = 0
    for ev, nm, aspect in ((p.enum('LI_STREAM_NEW_DATA'), 'data', 'acct'), (p.enum('LI_STREAM_NEW_DATA'), 'data', 'data'), (p.enum('LI_STREAM_NEW_DATA'), 'data', 'end'),
                           (p.enum('LI_STREAM_DISCONNECTED_SOURCE'), 'lost', 'lost')):
        r = Fcgi(p, ev, nm, aspect)
        ai = analyse(p, cbs[0], r, K=6, policy=same_tu(opaque=('fastcgi_reset', 'fastcgi_check_put')), purecalls=LOGS, keepfields=KEEP)
        ctx.take(ai, 'fcgi')
        ctx.ok('fcgi', '%s [%s]' % (cbs[0].loc(), aspect))
        n += r.nfwd
        e += r.nend
        ctx.floor('fcgi_path_ends[%s]' % aspect, r.nret, 1)
    ctx.floor('fcgi_transfers', n, 1)
    ctx.floor('fcgi_completions', e, 1)
    ctx.rule('join', 'the response of a backend is connected to the client only while the backend is connected or after it ended regularly')
    n = 0
    for fn in sorted({f.key for f, i in callers_of(p, 'li_stream_connect') if any(j.op == 'load' and static_field(f, j.a[0]) == ('liVRequest', 'backend_source') for j in f.instrs())}):
        r = Join(p)
        ai = analyse(p, p.fns[fn], r, K=6, purecalls=LOGS)
        ctx.take(ai, 'join')
        n += r.n
        if r.n:
            ctx.ok('join', p.fns[fn].loc())
    ctx.floor('connections', n, 1)
