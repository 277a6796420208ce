"""C02 only unambiguously framed requests are accepted"""
from common import *

EXPLAIN = ('Path-sensitive abstract interpretation of the request head validator (helpers inlined): every path that accepts the request must '
           'carry the facts that make its framing and target unambiguous.')

MAX = (1 << 63) - 1
ERANGE = 34


def bytes_in(v, d=0):
    """strings whose first byte the value v depends on"""
    if not isinstance(v, V) or d > 8:
        return
    if v.k == 'init' and isinstance(v.a[0], V) and fkey(v.a[0]) is None:
        a = v.a[0]
        if a.k == 'idx' and a.a[1] == 0:
            a = a.a[0]
        yield a
    for x in v.a:
        yield from bytes_in(x, d + 1)


class Val(Rule):
    def __init__(self, p, aspect):
        self.p = p
        self.aspect = aspect       # one aspect per run keeps the property state small
        self.V10 = p.enum('LI_HTTP_VERSION_1_0')
        self.V11 = p.enum('LI_HTTP_VERSION_1_1')
        self.GET = p.enum('LI_HTTP_METHOD_GET')
        self.HEAD = p.enum('LI_HTTP_METHOD_HEAD')
        self.naccept = 0
        self.nparse = 0
        self.seen = set()

    def start(self, st, fn, ai):
        set_ps(st)

    # -- multi-valued headers: every value must have been recognised
    ALLOWED = {'transfer-encoding': {'identity', 'chunked'}, 'expect': {'100-continue'}}

    def cur_ok(self, st, ins, h, ai):
        """the header value looked at last must be absent or recognised"""
        cur = get_ps(st, 'cur:' + h)
        if cur is None or st.const(cur) == 0:
            return
        for val, sym in get_ps(st, 'cmp:' + h, ()):
            if val in self.ALLOWED[h] and st.const(sym) == 0:
                if val == 'chunked':
                    n = get_ps(st, 'chunked', 0)
                    set_ps(st, chunked=min(n + 1, 2))
                return
        ai.report(st, ins, 'a request with an unsupported %s value is accepted' % h)

    def call(self, st, ins, name, args, ai):
        if name in ('li_http_header_find_next', 'li_http_header_find_first'):
            h = const_arg_str(args[1])
            if h in self.ALLOWED and self.aspect in (h, 'length'):
                self.cur_ok(st, ins, h, ai)
                set_ps(st, **{'cur:' + h: None, 'cmp:' + h: ()})

    def post_call(self, st, ins, name, args, res, ai):
        if name in ('li_http_header_find_first', 'li_http_header_find_next', 'li_http_header_lookup', 'li_http_header_find_last'):
            h = const_arg_str(args[1])
            if h is None:
                return
            self.seen.add(h)
            if h in self.ALLOWED and (self.aspect == h or self.aspect == 'length' and h == 'transfer-encoding'):
                track(st, res)
                set_ps(st, **{'cur:' + h: res, 'cmp:' + h: (), 'last': h})
            if self.aspect == 'dup:' + h and name == 'li_http_header_find_next':
                track(st, res)
                set_ps(st, dup=res)
            elif name != 'li_http_header_find_next' and (self.aspect == 'dup:' + h or self.aspect == 'length' and h == 'content-length'):
                track(st, res)
                set_ps(st, has=res)
        elif name in ('g_ascii_strcasecmp', 'strcmp', 'strcasecmp'):
            s = const_arg_str(args[1]) or const_arg_str(args[0])
            h = get_ps(st, 'last')
            if s and h and (self.aspect == h or self.aspect == 'length') and s in self.ALLOWED[h]:
                track(st, res)
                set_ps(st, **{'cmp:' + h: tuple(x for x in get_ps(st, 'cmp:' + h, ()) if x[0] != s) + ((s, res),)})
        elif name in ('g_ascii_strtoll', 'g_ascii_strtoull', 'strtoll', 'strtoull', 'strtol'):
            self.nparse += 1
            st.setr(res, -(1 << 63), MAX, frozenset())
            if self.aspect in ('number', 'length'):
                track(st, res)
                set_ps(st, num=res, numend=args[1], numstr=args[0])
        elif name == 'li_parse_raw_url' and self.aspect == 'target':
            track(st, res)
            set_ps(st, url=res)
        elif name == 'li_parse_hostname' and self.aspect == 'target':
            track(st, res)
            set_ps(st, hostok=res)

    def store(self, st, ins, addr, val, ai):
        if self.aspect == 'number' and fkey(addr) == ('liRequest', 'content_length'):
            num = get_ps(st, 'num')
            if num is not None and val is num:
                lo, hi, ne = st.rng(val)
                if lo < 0:
                    ai.report(st, ins, 'a negative Content-Length is accepted')
                e = get_ps(st, 'numend')
                end = st.mem.get(e) if isinstance(e, V) else None
                ch = st.mem.get(end) if isinstance(end, V) else None
                if ch is None or st.const(ch) != 0:
                    ai.report(st, ins, 'a Content-Length with trailing garbage is accepted')
                if ('examined', get_ps(st, 'numstr')) not in st.marks:
                    ai.report(st, ins, 'a Content-Length that does not start with a digit is accepted')
                if hi >= MAX and not self.errno_checked(st):
                    ai.report(st, ins, 'an overflowing Content-Length is accepted')

    def load(self, st, ins, addr, val, ai):
        if fkey(addr) == ('liRequest', 'content_length') and isinstance(val, V) and val.k == 'init':
            st.setr(val, -1, -1, frozenset())     # the value every request starts with (checked separately)

    def errno_checked(self, st):
        return get_ps(st, 'errno')

    def branch(self, st, ins, cond, truth, ai):
        if self.aspect == 'number' and isinstance(cond, V):
            for x in bytes_in(cond):
                st.mark('examined', x)
        if self.aspect == 'number' and isinstance(cond, V) and cond.k == 'cmp' and cond.a[2] == ERANGE and get_ps(st, 'num') is not None:
            if (cond.a[0] == 'ne') == truth:
                set_ps(st, errno=True)
        if self.aspect != 'target':
            return
        for a, x in mem_of(st, '_GString', 'len'):
            b = a.a[0]
            if loaded_from(st, b, 'liRequestUri', 'authority'):
                if st.nonzero(x) and not get_ps(st, 'url'):
                    set_ps(st, auth=True)
                if st.const(x) == 0 and get_ps(st, 'url'):
                    set_ps(st, noauth=True)
            elif loaded_from(st, b, 'liRequestUri', 'host') and get_ps(st, 'url') and st.nonzero(x):
                set_ps(st, host=True)
            elif loaded_from(st, b, 'liRequestUri', 'raw') and st.nonzero(x):
                set_ps(st, raw=True)

    def ret(self, st, ins, val, ai):
        if st.const(val) == 0:
            return
        self.naccept += 1
        R = lambda m: ai.report(st, ins, m)
        A = self.aspect
        if A == 'target':
            vs = set()
            ver = [x for a, x in mem_of(st, 'liRequest', 'http_version')]
            for x in ver:
                lo, hi, ne = st.rng(x)
                vs |= {k for k in range(max(lo, -1) if lo > -1e9 else -1, (min(hi, 10) if hi < 1e9 else 10) + 1) if k not in ne}
            if not ver or not vs <= {self.V10, self.V11}:
                R('a request with an unknown HTTP version is accepted')
            if not get_ps(st, 'raw'):
                R('a request with an empty URI is accepted')
            if not get_ps(st, 'auth') and self.V11 in vs:
                R('an HTTP/1.1 request without host is accepted')
            u = get_ps(st, 'url')
            if u is None or not st.nonzero(u):
                R('a request whose URL does not parse is accepted')
            ho = get_ps(st, 'hostok')
            if ho is not None and not st.nonzero(ho):
                R('a request whose host name does not parse is accepted')
            if ho is None and not get_ps(st, 'host') and not get_ps(st, 'noauth'):
                R('a request is accepted without its host name being parsed')
        if A.startswith('dup:'):
            h = A[4:]
            has, dup = get_ps(st, 'has'), get_ps(st, 'dup')
            if not (has is not None and st.const(has) == 0) and (dup is None or st.const(dup) != 0):
                R('a request with more than one %s header is accepted' % h)
        if A in self.ALLOWED:
            if get_ps(st, 'cur:' + A) is None:
                R('the %s header is not examined' % A)
            self.cur_ok(st, ins, A, ai)
            if get_ps(st, 'chunked', 0) > 1:
                R('a request with chunked applied more than once is accepted')
        if A == 'length':
            self.cur_ok(st, ins, 'transfer-encoding', ai)
            ch = get_ps(st, 'chunked', 0)
            cl = [x for a, x in mem_of(st, 'liRequest', 'content_length')]
            meth = [x for a, x in mem_of(st, 'liRequest', 'http_method')]
            maybe_bodyless = not meth or any(st.rng(x)[0] <= m <= st.rng(x)[1] and m not in st.rng(x)[2] for x in meth for m in (self.GET, self.HEAD))
            num = get_ps(st, 'num')
            hascl = get_ps(st, 'has')
            if not cl:
                R('the body length of an accepted request is not known')
            for x in cl:
                c = st.const(x)
                if ch >= 1:
                    if maybe_bodyless:
                        R('a GET/HEAD request with a chunked body is accepted')
                    elif c != -1:
                        R('a chunked request is accepted with a fixed body length')
                    continue
                if maybe_bodyless and num is not None and (num is x or c == 0) and st.rng(num)[1] > 0 and not (hascl is not None and st.const(hascl) == 0):
                    R('a GET/HEAD request announcing a body is accepted')
                if num is not None and x is num:
                    continue
                if c == 0 and num is None and hascl is not None and st.const(hascl) == 0:
                    continue
                if c == 0 and num is not None and st.rng(num)[1] <= 0:
                    continue
                R('the body length of an accepted request does not follow its Content-Length header')


def check(ctx):
    p = prog()
    ctx.rule('accept', 'every accepting path of the validator: known HTTP version, non-empty URI, at most one Host and one Content-Length header, host present for '
             'HTTP/1.1, URL and host parsed, every Transfer-Encoding/Expect value recognised, chunked at most once, Content-Length completely '
             'numeric, non-negative, not overflowed, GET/HEAD without body, resulting body length equal to what the headers announce')
    f = p.fn('li_request_validate_header')
    keep = unwritten(p, f, {('liRequest', 'http_version'), ('liRequest', 'http_method'), ('liRequest', 'content_length'), ('liVRequest', 'request')})
    seen = set()
    np = 0
    for aspect in ('target', 'dup:host', 'dup:content-length', 'transfer-encoding', 'expect', 'number', 'length'):
        r = Val(p, aspect)
        ai = analyse(p, f, r, K=8, purecalls=LOGS, keepfields=keep)
        ctx.take(ai, 'accept')
        ctx.floor('accepting_path_ends[%s]' % aspect, r.naccept, 1)
        seen |= r.seen
        np += r.nparse
        ctx.ok('accept', '%s [%s]' % (f.loc(), aspect))
    for h in ('host', 'content-length', 'transfer-encoding', 'expect'):
        ctx.check('accept', f.loc() + ' ' + h, h in seen, 'the %s header is never looked up during validation' % h, key='accept|lookup|' + h)
    ctx.floor('numeric_parses', np, 1)
