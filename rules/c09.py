"""C09 requests are passed to backends correctly delimited"""
import re
from common import *

EXPLAIN = ('Abstract interpretation of the code that encodes a request for a backend: the text of the HTTP proxy request head, the SCGI netstring, the FastCGI records '
           'and the CGI variables are followed piece by piece along every path.')

GSTRF = {('liRequest', 'http_method_str'): 'METHOD', ('liRequestUri', 'raw_path'): 'RAWPATH', ('liConInfo', 'remote_addr_str'): 'REMOTE', ('liHttpHeader', 'data'): 'HEADER',
         ('liConInfo', 'local_addr_str'): 'LOCAL', ('liRequestUri', 'host'): 'HOST', ('liRequestUri', 'path'): 'PATH', ('liRequestUri', 'query'): 'QUERY',
         ('liRequestUri', 'raw_orig_path'): 'ORIGPATH', ('liPhysical', 'pathinfo'): 'PATHINFO', ('liPhysical', 'path'): 'PHYS', ('liPhysical', 'doc_root'): 'DOCROOT',
         ('liRequestUri', 'raw'): 'RAW', ('liRequestUri', 'authority'): 'AUTHORITY', ('liRequestUri', 'scheme'): 'SCHEME'}
# what a client must not be able to pass on
DROP = ('content-length', 'transfer-encoding', 'te', 'connection', 'proxy-connection', 'x-forwarded-proto', 'x-forwarded-for')
OPAQUE = ('li_g_string_append_len', 'li_http_header_key_is', 'li_strncase_equal', 'li_http_header_tokenizer_next', 'li_http_header_tokenizer_start', 'li_const_gstring')


def ph(x):
    return '\x01%s\x02' % x


def strip(st, v):
    """v without casts that do not change its value"""
    while isinstance(v, V) and v.k in ('u', 'trunc'):
        w = v.a[1]
        x = v.a[0]
        if v.k == 'u' and isinstance(x, V) and x.k == 'trunc' and x.a[1] == w:
            x = x.a[0]
        lo, hi, ne = st.rng(x)
        if lo >= 0 and hi < (1 << w):
            v = x
        else:
            break
    c = st.const(v)
    return c if c is not None else v


def eqv(st, a, b):
    a, b = strip(st, a), strip(st, b)
    if isinstance(a, V) and a.k == 'u' and isinstance(a.a[0], V) and a.a[0].k == 'trunc' and a.a[0].a[1] == a.a[1]:
        a = a.a[0]
    if isinstance(b, V) and b.k == 'u' and isinstance(b.a[0], V) and b.a[0].k == 'trunc' and b.a[0].a[1] == b.a[1]:
        b = b.a[0]
    return a is b or isconst(a) and isconst(b) and a == b


class Text(Rule):
    """pieces of text appended to GStrings"""
    def nonnull(self, st, addr, val):
        if isinstance(addr, V) and addr.k == 'fld' and isinstance(val, V) and ((addr.a[1], addr.a[2]) in GSTRF or (addr.a[1], addr.a[2]) == ('liWorker', 'tmp_str')):
            st.setr(val, 1, INF, frozenset())

    def gname(self, st, g):
        """placeholder for the GString object g"""
        if not isinstance(g, V):
            return None
        for (S, f), n in GSTRF.items():
            b = base_of(st, g, S, f)
            if b is not None:
                return (n, b)
        return None

    def piece(self, st, ptr, ln):
        """text of the piece (ptr, ln), or None"""
        s = const_arg_str(ptr)
        n = st.const(ln)
        if s is not None:
            if n is None:
                return None
            return s if n == -1 else s[:n]
        if n == 0:
            return ''
        g = base_of(st, ptr, '_GString', 'str')
        if g is not None and base_of(st, ln, '_GString', 'len') is g:
            return self.gtext(st, g)
        return None

    def gtext(self, st, g):
        n = self.gname(st, g)
        if n is None:
            return None
        if n[0] == 'HEADER':
            return self.header(st, n[1])
        return ph(n[0])

    def header(self, st, h):
        return ph('HEADER')

    def number(self, st, v):
        v = strip(st, v)
        if isconst(v):
            return str(v)
        if loaded_from(st, v, 'liRequest', 'content_length'):
            return ph('LENGTH')
        b = base_of(st, v, '_GByteArray', 'len')
        if b is not None:
            return self.balen(st, b)
        return ph('?')

    def balen(self, st, b):
        return ph('?')

    def fmt(self, st, f, args):
        s = const_arg_str(f)
        if s is None:
            return None
        out = ''
        i = 0
        for m in re.finditer(r'%(%|[-0-9.*]*(?:hh|h|ll|l|z|j|t)?[diuxscp])|([^%]+)', s):
            if m.group(2) is not None:
                out += m.group(2)
            elif m.group(1) == '%':
                out += '%'
            elif i >= len(args):
                return None
            else:
                a = args[i]
                i += 1
                c = m.group(1)
                if c[-1] == 's':
                    t = const_arg_str(a)
                    if t is None:
                        g = base_of(st, a, '_GString', 'str')
                        t = self.gtext(st, g) if g is not None and c == 's' else None
                    out += t if t is not None else ph('?')
                elif c[-1] in 'diu' and not c[0].isdigit():
                    out += self.number(st, a)
                else:
                    out += ph('?')
        return out

    def load(self, st, ins, addr, val, ai):
        self.nonnull(st, addr, val)

    def text_call(self, st, name, args):
        """(string object, 'set'|'add', text) of a call that builds text"""
        if name in ('li_g_string_append_len', 'g_string_append_len'):
            return args[0], 'add', self.piece(st, args[1], args[2])
        if name == 'g_string_append':
            s = const_arg_str(args[1])
            if s is None:
                g = base_of(st, args[1], '_GString', 'str')
                s = self.gtext(st, g) if g is not None else None
            return args[0], 'add', s
        if name == 'g_string_append_c':
            c = st.const(args[1])
            return args[0], 'add', chr(c) if c is not None else None
        if name == 'g_string_append_printf':
            return args[0], 'add', self.fmt(st, args[1], args[2:])
        if name == 'g_string_printf':
            return args[0], 'set', self.fmt(st, args[1], args[2:])
        if name in ('g_string_truncate', 'g_string_set_size', 'li_g_string_clear'):
            return args[0], 'set', '' if name == 'li_g_string_clear' or st.const(args[1]) == 0 else None
        if name == 'g_string_assign':
            return args[0], 'set', const_arg_str(args[1])
        if name == 'li_string_append_int':
            return args[0], 'add', self.number(st, args[1])
        return None


class Proxy(Text):
    """request head sent to HTTP backends"""
    def __init__(self, p, aspect):
        self.p = p
        self.aspect = aspect
        self.n = self.nh = 0
        self.GET, self.HEAD = p.enum('LI_HTTP_METHOD_GET'), p.enum('LI_HTTP_METHOD_HEAD')
        self.V11 = p.enum('LI_HTTP_VERSION_1_1')

    def start(self, st, fn, ai):
        set_ps(st, buf=None, line='', first=True, have=frozenset(), end=False, nobody=False)

    def look(self, st):
        if not get_ps(st, 'nobody'):
            for a, x in mem_of(st, 'liRequest', 'http_method'):
                if st.const(x) in (self.GET, self.HEAD):
                    set_ps(st, nobody=True)

    def branch(self, st, ins, cond, truth, ai):
        self.look(st)
        for m in [m for m in st.marks if m[0] == 'key']:
            if st.const(m[1]) == 0:
                st.mark('nokey', m[2], m[3])
            if st.const(m[1]) == 0 or st.nonzero(m[1]):
                st.unmark(*m)

    def load(self, st, ins, addr, val, ai):
        self.nonnull(st, addr, val)
        if is_fld(addr, '_GList', 'data') and isinstance(val, V):
            for m in [m for m in st.marks if m[0] == 'key' and m[2] is val or m[0] == 'nokey' and m[1] is val]:
                st.unmark(*m)
        if isinstance(addr, V) and isinstance(val, V):
            for t in table_strings(self.p, ins.owner.tu, addr):
                st.mark('tab', val, t.lower())
        if is_fld(addr, 'liConInfo', 'is_ssl') and isinstance(val, V):
            for m in [m for m in st.marks if m[0] == 'ssl']:
                st.unmark(*m)
            st.mark('ssl', val)

    def post_call(self, st, ins, name, args, res, ai):
        if name in ('li_http_header_key_is',) and isinstance(res, V):
            s = const_arg_str(args[1])
            if s is not None and st.const(args[2]) == len(s):
                st.mark('key', res, args[0], s.lower())
            for m in [m for m in st.marks if m[0] == 'tab' and m[1] is args[1]]:
                st.mark('key', res, args[0], m[2])
        elif name in ('g_string_new', 'g_string_sized_new', 'g_string_new_len') and get_ps(st, 'buf') is None:
            set_ps(st, buf=res)
            track(st, res)

    def header(self, st, h):
        c = {m[2] for m in st.marks if m[0] == 'nokey' and m[1] is h}
        miss = [d for d in DROP if d not in c]
        return ph('HEADER') if not miss else ph('HEADER:' + ','.join(miss))

    def put(self, st, ins, t, ai):
        line = get_ps(st, 'line')
        if t is None:
            t = ph('?')
        line += t
        while '\r\n' in line:
            l, line = line.split('\r\n', 1)
            self.line(st, ins, l, ai)
        set_ps(st, line=line)

    def line(self, st, ins, l, ai):
        first, have = get_ps(st, 'first'), get_ps(st, 'have')
        rep = lambda m: ai.report(st, ins, m)
        if get_ps(st, 'end'):
            if self.aspect == 'shape':
                rep('the request head sent to the backend continues after its end')
            return
        if first:
            set_ps(st, first=False)
            if self.aspect == 'shape' and not re.fullmatch(re.escape(ph('METHOD') + ' ' + ph('RAWPATH')) + r' HTTP/1\.[01]', l):
                rep('the request line sent to the backend is not method, path and version')
            return
        if l == '':
            set_ps(st, end=True)
            return
        if '\r' in l or '\n' in l:
            if self.aspect == 'shape':
                rep('a header line sent to the backend contains a line break')
            return
        if l.startswith(ph('HEADER')[:-1]):
            self.nh += 1
            if self.aspect == 'drop' and l.startswith(ph('HEADER')[:-1] + ':'):
                rep('header of the client is passed to the backend although it may be ' + l[len(ph('HEADER')):l.index('\x02')])
            if self.aspect == 'shape' and not l.endswith('\x02') or l.count('\x01') != 1:
                rep('headers of the client are not passed on as separate lines')
            return
        k, _, v = l.partition(': ')
        k = k.lower()
        if self.aspect == 'shape' and k in have and k in ('content-length', 'x-forwarded-for', 'x-forwarded-proto', 'host'):
            rep('%s is sent to the backend twice' % k)
        if self.aspect != 'own':
            set_ps(st, have=have)
        else:
            set_ps(st, have=have | {k})
        if self.aspect != 'own':
            return
        if k == 'content-length' and v != ph('LENGTH'):
            rep('the Content-Length sent to the backend is not the length of the request body')
        elif k == 'transfer-encoding':
            rep('a Transfer-Encoding the body does not have is announced to the backend')
        elif k == 'x-forwarded-for' and v != ph('REMOTE'):
            rep('X-Forwarded-For is not the address of the client')
        elif k == 'x-forwarded-proto':
            ssl = [m[1] for m in st.marks if m[0] == 'ssl']
            on = any(st.nonzero(x) for x in ssl)
            off = any(st.const(x) == 0 for x in ssl)
            if not (v == 'https' and on or v == 'http' and off):
                rep('X-Forwarded-Proto does not follow the protocol of the connection')
        elif '\x01' in k or k not in ('content-length', 'x-forwarded-for') and '\x01' in v:
            rep('header %s sent to the backend contains data of unknown content' % (k.replace('\x01', '<').replace('\x02', '>')))

    def call(self, st, ins, name, args, ai):
        if name is None:
            return
        b = get_ps(st, 'buf')
        if b is None:
            return
        self.look(st)
        t = self.text_call(st, name, args)
        if t:
            if t[0] is b:
                if t[1] == 'set':
                    set_ps(st, line='', first=True, have=frozenset(), end=False)
                self.put(st, ins, t[2], ai)
            return
        if any(a is b for a in args) and name.startswith('g_string'):
            self.put(st, ins, None, ai)
            return
        if name in ('li_chunkqueue_append_string', 'li_chunkqueue_append_mem', 'li_chunkqueue_append_string_'):
            if not any(a is b or base_of(st, a, '_GString', 'str') is b for a in args[1:]):
                if self.aspect == 'shape':
                    ai.report(st, ins, 'something other than the request head is sent to the backend')
                return
            self.n += 1
            have = get_ps(st, 'have')
            if self.aspect == 'shape':
                if not get_ps(st, 'end') or get_ps(st, 'line'):
                    ai.report(st, ins, 'the request head sent to the backend does not end with exactly one empty line')
            elif self.aspect == 'own':
                if 'content-length' not in have and not get_ps(st, 'nobody'):
                    ai.report(st, ins, 'a request with a body is sent to the backend without its length')
                if 'x-forwarded-for' not in have or 'x-forwarded-proto' not in have:
                    ai.report(st, ins, 'the backend is not told the address and protocol of the client')
                xs = [x for a, x in mem_of(st, 'liRequest', 'content_length')]
                if not xs or not all(st.rng(x)[0] >= 0 for x in xs):
                    ai.report(st, ins, 'a request body of unknown length is sent to the backend')


SWAPS = {'htons': 2, 'htonl': 4, '__bswap_16': 2, '__bswap_32': 4, 'llvm.bswap.i16': 2, 'llvm.bswap.i32': 4, 'ntohs': 2, 'ntohl': 4}


class Bytes(Rule):
    """pieces of data appended to byte arrays; a piece is ('b', value), ('n', width, value in network order), ('d', ptr, len) or ('pre',) for what was there before"""
    def call_value(self, st, ins, name, args, ai):
        if name in SWAPS:
            return mk('swap', SWAPS[name], args[0])
        return None

    def fx(self, st, name):
        if name == 'g_byte_array_append':       # does not change the appended data
            st.kill_keys((), {'_GByteArray'})
            return 'noeffect'
        return None

    def get(self, st, b):
        for k, x in get_ps(st, 'bufs') or ():
            if k is b:
                return x
        return None

    def put(self, st, b, x):
        d = [(k, v) for k, v in get_ps(st, 'bufs') or () if k is not b]
        if x is not None:
            d.append((b, x))
            track(st, b)
            for t in x:
                for v in t:
                    track(st, v)
        set_ps(st, bufs=tuple(sorted(d, key=lambda e: e[0].n)))

    def content(self, st, ptr, n):
        c = st.const(n)
        if c is not None and isinstance(ptr, V) and ptr.k == 'alloca':
            v = st.mem.get(ptr)
            if v is None:
                v = mk('sym', ('unknown', ptr.n))
            if c == 1:
                return ('b', v)
            if isinstance(v, V) and v.k == 'swap' and v.a[0] == c:
                return ('n', c, v.a[1])
        return ('d', ptr, n)

    def byte_call(self, st, name, args):
        """True when the call builds a byte array"""
        if name in ('g_byte_array_sized_new', 'g_byte_array_new'):
            return True
        if name == 'g_byte_array_append':
            b = args[0]
            x = self.get(st, b)
            if x is None:
                x = (('pre',),)
            n = st.const(args[2])
            if n != 0:
                if len(x) < 24:
                    x = x + (self.content(st, args[1], args[2]),)
            self.put(st, b, x)
            return True
        if name == 'g_byte_array_set_size':
            self.put(st, args[0], () if st.const(args[1]) == 0 else (('?',),))
            return True
        if name in ('g_byte_array_free', 'g_byte_array_unref'):
            self.put(st, args[0], None)
            return True
        if isinstance(name, str) and name.startswith('g_byte_array'):
            self.put(st, args[0], (('?',),))
            return True
        return False

    def post_call(self, st, ins, name, args, res, ai):
        if name in ('g_byte_array_sized_new', 'g_byte_array_new'):
            self.put(st, res, ())


class Pair(Bytes):
    """callback that adds one variable"""
    def __init__(self, proto):
        self.proto = proto
        self.n = 0

    def start(self, st, fn, ai):
        set_ps(st, bufs=((mk('arg', 0), ()),), fits=None)
        for i in (2, 4):
            st.setr(mk('arg', i), 0, INF, frozenset())

    def branch(self, st, ins, cond, truth, ai):
        # lengths that the protocol cannot carry
        if any(st.rng(mk('arg', i))[0] > 0x7fffffff for i in (2, 4)):
            set_ps(st, fits=False)

    def call(self, st, ins, name, args, ai):
        if self.byte_call(st, name, args):
            x = self.get(st, args[0])
            if name == 'g_byte_array_append' and self.proto == 'fcgi' and x and x[-1][0] in 'bn':
                # decide the form of a length while the facts about it are at hand
                x = x[:-1] + (self.length(st, x[-1]),)
                self.put(st, args[0], x)
            return self.fx(st, name)

    def length(self, st, t):
        if t[0] == 'b':
            for i in (2, 4):
                a = mk('arg', i)
                v = t[1]
                while isinstance(v, V) and v.k in ('trunc', 'u'):
                    v = v.a[0]
                if v is a and st.rng(a)[0] >= 0 and st.rng(a)[1] <= 127:
                    return ('len', i)
        elif t[1] == 4:
            for i in (2, 4):
                a = mk('arg', i)
                v = t[2]
                while isinstance(v, V) and v.k in ('trunc', 'u'):
                    v = v.a[0]
                if isinstance(v, V) and v.k == 'or' and any(x is a for x in v.a) and any(isconst(x) and x & 0xffffffff == 0x80000000 for x in v.a) \
                        and st.rng(a)[0] >= 0 and st.rng(a)[1] <= 0x7fffffff:
                    return ('len', i)
        return ('?',)

    def ret(self, st, ins, val, ai):
        self.n += 1
        x = self.get(st, mk('arg', 0)) or ()
        A = [mk('arg', i) for i in range(5)]

        def sym(t):
            if t[0] == 'b' and st.const(t[1]) == 0:
                return 'NUL'
            if t[0] == 'd' and t[1] is A[1] and t[2] is A[2]:
                return 'KEY'
            if t[0] == 'd' and t[1] is A[3] and t[2] is A[4]:
                return 'VALUE'
            if t[0] == 'len':
                return 'KEYLEN' if t[1] == 2 else 'VALUELEN'
            return '?'
        seq = [sym(t) for t in x]
        want = ['KEY', 'NUL', 'VALUE', 'NUL'] if self.proto == 'scgi' else ['KEYLEN', 'VALUELEN', 'KEY', 'VALUE']
        if self.proto == 'fcgi' and get_ps(st, 'fits') is False:
            return
        if seq != want:
            ai.report(st, ins, 'a variable is passed to the backend as %s instead of %s' % (' '.join(seq) or 'nothing', ' '.join(want)))


class Scgi(Text, Bytes):
    """netstring of an SCGI request"""
    def __init__(self, p):
        self.n = 0

    def start(self, st, fn, ai):
        set_ps(st, bufs=(), tmp=None, sent=None, scgi=False, env=None)

    def load(self, st, ins, addr, val, ai):
        Text.load(self, st, ins, addr, val, ai)

    call_value = Bytes.call_value

    def balen(self, st, b):
        return ph('BALEN')

    def call(self, st, ins, name, args, ai):
        if name is None:
            return
        if self.byte_call(st, name, args):
            x = self.get(st, args[0]) if args else None
            if name == 'g_byte_array_append' and x and x[-1][0] == 'd' and const_arg_str(x[-1][1]) == 'SCGI' and st.const(x[-1][2]) == 4:
                set_ps(st, scgi=True)
            if name == 'g_byte_array_append' and get_ps(st, 'env') is args[0]:
                # only what follows the announced length matters
                self.put(st, args[0], x if x[0] == ('counted',) else (('env',),))
            return self.fx(st, name)
        t = self.text_call(st, name, args)
        if t:
            if t[1] == 'set' and isinstance(t[0], V):
                set_ps(st, tmp=(t[0], t[2]))
            elif get_ps(st, 'tmp') and get_ps(st, 'tmp')[0] is t[0]:
                set_ps(st, tmp=(t[0], get_ps(st, 'tmp')[1] + t[2] if t[2] is not None and get_ps(st, 'tmp')[1] is not None else None))
            if t[2] is not None and ph('BALEN') in t[2] and get_ps(st, 'env') is not None:
                b = [base_of(st, strip(st, a), '_GByteArray', 'len') for a in args[1:] if isinstance(a, V)]
                if any(x is get_ps(st, 'env') for x in b):
                    self.put(st, get_ps(st, 'env'), (('counted',),))
            return
        if name == 'li_environment_dup2cgi':
            b = args[3]
            if self.get(st, b) != ():
                ai.report(st, ins, 'CONTENT_LENGTH is not the first variable of an SCGI request')
            xs = [x for a, x in mem_of(st, 'liRequest', 'content_length')]
            if not xs or not all(st.rng(x)[0] >= 0 for x in xs):
                ai.report(st, ins, 'an SCGI request body of unknown length is sent to the backend')
            set_ps(st, env=b)
            track(st, b)
            self.put(st, b, (('env',),))
        elif name.startswith('li_chunkqueue_append'):
            if name == 'li_chunkqueue_append_bytearr' and args[1] is get_ps(st, 'env'):
                self.n += 1
                x = self.get(st, args[1])
                if get_ps(st, 'sent') is not True:
                    ai.report(st, ins, 'the variables of an SCGI request are sent without their length')
                elif x is None or len(x) != 2 or x[0] != ('counted',) or not (x[1][0] == 'b' and st.const(x[1][1]) == 44 or x[1][0] == 'd' and const_arg_str(x[1][1]) == ',' and st.const(x[1][2]) == 1):
                    ai.report(st, ins, 'the variables of an SCGI request do not have the announced length followed by a comma')
                if not get_ps(st, 'scgi'):
                    ai.report(st, ins, 'the SCGI variable is missing')
                set_ps(st, sent=False)
            else:
                ok = False
                if get_ps(st, 'tmp') and name == 'li_chunkqueue_append_mem':
                    g, t = get_ps(st, 'tmp')
                    ok = t == ph('BALEN') + ':' and base_of(st, args[1], '_GString', 'str') is g and base_of(st, args[2], '_GString', 'len') is g
                elif get_ps(st, 'tmp') and name == 'li_chunkqueue_append_string':
                    ok = get_ps(st, 'tmp')[0] is args[1] and get_ps(st, 'tmp')[1] == ph('BALEN') + ':'
                if not ok or get_ps(st, 'sent') is not None:
                    ai.report(st, ins, 'an SCGI request does not start with the length of its variables')
                set_ps(st, sent=True)


class Records(Bytes):
    """FastCGI records on the way to the backend"""
    joins = True
    C = 'liFastCGIBackendContext'
    BEGIN, PARAMS, STDIN = 1, 4, 5

    def __init__(self, p, what, ev=None):
        self.p = p
        self.what = what
        self.ev = ev
        self.n = self.nend = self.nret = 0

    def start(self, st, fn, ai):
        if self.ev is not None:
            st.setr(mk('arg', 1), self.ev, self.ev, frozenset())
        # h: bytes of a record header so far; need: what the current record still lacks; last: (type, empty) of the last record
        set_ps(st, bufs=(), h=(), need=None, last=None, fin=False, shut=None, reset=False, put=False, src=None, all=None, disc=False, part=False)

    def load(self, st, ins, addr, val, ai):
        if not isinstance(val, V):
            return
        if is_fld(addr, '_GByteArray', 'len'):
            st.setr(val, 0, (1 << 32) - 1, frozenset())
            x = self.get(st, addr.a[0])
            if x is None or len(x) == 1 and x[0][0] == 'pre':
                self.put(st, addr.a[0], (('pre', val),))
            for a, x in mem_of(st, '_GByteArray', 'data'):
                if a.a[0] is addr.a[0] and isinstance(x, V):
                    st.mark('left', x, val)
        elif is_fld(addr, 'liChunkQueue', 'length'):
            st.setr(val, 0, INF, frozenset())
        elif is_fld(addr, '_GByteArray', 'data'):
            for a, x in mem_of(st, '_GByteArray', 'len'):
                if a.a[0] is addr.a[0]:
                    st.mark('left', val, x)
        self.look(st)

    @staticmethod
    def flat(v):
        """linear form of v, casts ignored"""
        if not isinstance(v, V):
            return v
        if v.k == 'idx' and v.a[2] == 1:
            return add(Records.flat(v.a[0]), Records.flat(Records.unu(v.a[1])))
        if v.k == 'sum':
            c, d = lin(v)
            r = c
            for x, k in d.items():
                c2, d2 = lin(Records.flat(Records.unu(x)) if Records.unu(x) is not v else v)
                r = add(r, mklin(c2 * k, {a: b * k for a, b in d2.items()}))
            return r
        return v

    @staticmethod
    def unu(v):
        while isinstance(v, V) and v.k in ('u', 'trunc'):
            v = v.a[0]
        return v

    def join(self, st, s, va, a, vb, b):
        for m in [m for m in st.marks if m[0] == 'left' and any(isinstance(x, V) and s in x.syms for x in m[1:])]:
            st.unmark(*m)

    def renamed(self, st, old, pairs):
        """(ptr, n) marked 'left': n bytes starting at ptr have not been sent yet"""
        new = {s for s, v in pairs}
        for m in [m for m in st.marks if m[0] == 'left' and any(isinstance(x, V) and x.syms & new for x in m[1:])]:
            st.unmark(*m)
        for m in old.marks:
            if m[0] == 'left':
                for s, v in pairs:
                    if self.flat(v) is m[1]:
                        for t, w in pairs:
                            if self.same(self.flat(w), m[2]):
                                st.mark('left', s, t)

    @staticmethod
    def same(a, b):
        return a is b or isconst(a) and isconst(b) and a == b

    def tri(self, st, xs):
        if xs and all(st.nonzero(x) for x in xs):
            return True
        if xs and all(st.const(x) == 0 for x in xs):
            return False
        return None

    def issrc(self, st, q):
        b = base_of(st, q, 'liStream', 'out')
        return b is not None and loaded_from(st, b, 'liStream', 'source')

    def look(self, st):
        if self.what != 'stdin':
            return
        kw = {}
        t = self.tri(st, [x for a, x in mem_of(st, self.C, 'stdin_closed')])
        if t is not None and get_ps(st, 'shut') is None:
            kw['shut'] = t
        t = self.tri(st, [x for a, x in mem_of(st, 'liChunkQueue', 'is_closed') if self.issrc(st, a.a[0])])
        if t is not None and t != get_ps(st, 'src'):
            kw['src'] = t
        t = self.tri(st, [x for a, x in mem_of(st, 'liChunkQueue', 'length') if self.issrc(st, a.a[0])])
        if t is not None and t != get_ps(st, 'all'):
            kw['all'] = t
        if kw:
            set_ps(st, **kw)

    def branch(self, st, ins, cond, truth, ai):
        self.look(st)
        self.settle(st)

    def settle(self, st):
        n = get_ps(st, 'need')
        if n and n[0] == 'p' and strip(st, n[2]) == 0:
            set_ps(st, need=None)

    def size(self, t):
        return {'b': lambda: 1, 'n': lambda: t[1], 'd': lambda: t[2], 'pre': lambda: t[1] if len(t) > 1 else None}.get(t[0], lambda: None)()

    def header(self, st, ins, h, ai):
        self.n += 1
        if [t[0] if t[0] == 'b' else t[:2] for t in h] != ['b', 'b', ('n', 2), ('n', 2), 'b', 'b']:
            ai.report(st, ins, 'a FastCGI record does not start with a well-formed header')
            return
        ver, ty, rid, ln, pad = h[0][1], st.const(h[1][1]), strip(st, h[2][2]), strip(st, h[3][2]), h[4][1]
        if st.const(ver) != 1 or rid != 1 or ty is None:
            ai.report(st, ins, 'version, type or request id of a FastCGI record is wrong')
        if isconst(ln):
            ln &= 0xffff
        elif st.rng(ln)[0] < 0 or st.rng(ln)[1] > 65535:
            ai.report(st, ins, 'the length of a FastCGI record may not fit into its header')
        empty = ln == 0
        if not empty and not (isconst(ln) or st.nonzero(ln)) and ty in (self.PARAMS, self.STDIN):
            ai.report(st, ins, 'a data record may be empty, which ends the data early')
        self.kind(st, ins, ty, empty, ai)
        if empty:
            set_ps(st, need=('p', 0, pad, ty), h=())
            self.settle(st)
        else:
            set_ps(st, need=('c', ln, pad, ty), h=())

    def kind(self, st, ins, ty, empty, ai):
        last = get_ps(st, 'last')
        if self.what == 'begin':
            ok = last is None if ty == self.BEGIN else (last is not None and last[0] in (self.BEGIN, self.PARAMS) and not last[1]) if ty == self.PARAMS else False
            if not ok:
                ai.report(st, ins, 'the records that start a FastCGI request are out of order')
            if get_ps(st, 'part') and empty and not any(m[0] == 'left' and st.const(m[2]) == 0 for m in st.marks):
                ai.report(st, ins, 'the variables of a FastCGI request are not sent completely')
        else:
            self.look(st)
            if ty != self.STDIN:
                ai.report(st, ins, 'the request body is not sent as FastCGI stdin')
            if last is not None and last[1]:
                ai.report(st, ins, 'a FastCGI record follows the end of the request body')
            if get_ps(st, 'shut') is not False:
                ai.report(st, ins, 'request body data may be sent after its end was sent')
            if empty:
                self.nend += 1
                if get_ps(st, 'src') is not True or get_ps(st, 'all') is not False:
                    ai.report(st, ins, 'the end of the request body is sent before the body is complete')
        set_ps(st, last=(ty, empty))

    def emit(self, st, ins, t, ai):
        self.settle(st)
        need = get_ps(st, 'need')
        if need is None:
            h = get_ps(st, 'h') + (t,)
            n = 0
            for x in h:
                k = self.size(x)
                if not isconst(k) or x[0] not in 'bn':
                    n = None
                    break
                n += k
            if n is None or n > 8:
                ai.report(st, ins, 'data are sent to a FastCGI backend outside of a record')
                set_ps(st, h=())
            elif n == 8:
                self.header(st, ins, h, ai)
            else:
                set_ps(st, h=h)
            return
        k = self.size(t)
        if need[0] == 'c':
            if k is None:
                ai.report(st, ins, 'the amount of data in a FastCGI record is unknown')
                set_ps(st, need=None)
                return
            rem = add(need[1], strip(st, k), -1)
            if isconst(rem) and rem > 0:
                set_ps(st, need=('c', rem) + need[2:])
            elif isconst(rem) and rem == 0:
                set_ps(st, need=('p', 0) + need[2:])
                self.settle(st)
            else:
                ai.report(st, ins, 'the data in a FastCGI record do not have the announced length')
                set_ps(st, need=None)
            if t[0] == 'd' and isinstance(t[1], V) and t[1].k != 'g' and need[3] in (self.PARAMS, self.STDIN):
                ptr = self.flat(t[1])
                n = strip(st, t[2])
                left = [m[2] for m in st.marks if m[0] == 'left' and (m[1] is ptr or m[1] is t[1])]
                if not left:
                    ai.report(st, ins, 'the data of consecutive FastCGI records are not consecutive')
                elif not any(self.same(n, d) or st.evalcmp('sle', n, d) is True for d in left):
                    ai.report(st, ins, 'a FastCGI record contains more than there is left to send')
                for d in left:
                    st.mark('left', add(ptr, self.unu(n)), self.flat(add(d, n, -1)))
                set_ps(st, part=True)
            return
        # padding
        if t[0] == 'd' and eqv(st, k, need[2]):
            lo, hi, ne = st.rng(k) if isinstance(k, V) else (k, k, ())
            set_ps(st, need=None)
        else:
            ai.report(st, ins, 'the padding of a FastCGI record does not have the announced length')
            set_ps(st, need=None)

    def call(self, st, ins, name, args, ai):
        if name is None:
            return
        if self.byte_call(st, name, args):
            return self.fx(st, name)
        if name == 'li_environment_dup2cgi':
            self.put(st, args[3], (('pre',),))
        elif name == 'li_chunkqueue_append_bytearr':
            x = self.get(st, args[1])
            if x is None:
                x = (('pre',),)
            for t in x:
                self.emit(st, ins, t, ai)
            self.put(st, args[1], None)
        elif name == 'li_chunkqueue_append_mem':
            if st.const(args[2]) != 0:
                self.emit(st, ins, ('d', args[1], args[2]), ai)
        elif name == 'li_chunkqueue_steal_len' and not self.issrc(st, args[0]):
            self.emit(st, ins, ('d', None, args[2]), ai)
            set_ps(st, all=None)
        elif name.startswith(('li_chunkqueue_append', 'li_chunkqueue_steal')):
            ai.report(st, ins, 'data are sent to a FastCGI backend outside of a record')
        elif name == 'fastcgi_reset':
            set_ps(st, reset=True)
        elif name == 'li_stream_disconnect':
            set_ps(st, disc=True)

    def post_call(self, st, ins, name, args, res, ai):
        Bytes.post_call(self, st, ins, name, args, res, ai)

    def store(self, st, ins, addr, val, ai):
        if self.what == 'stdin' and is_fld(addr, self.C, 'stdin_closed'):
            if st.const(val) != 0:
                set_ps(st, fin=True)

    def ret(self, st, ins, val, ai):
        self.nret += 1
        self.settle(st)
        self.look(st)
        if get_ps(st, 'need') or get_ps(st, 'h'):
            ai.report(st, ins, 'a FastCGI record is left incomplete')
        last = get_ps(st, 'last')
        if self.what == 'begin':
            if last is not None and last != (self.PARAMS, True):
                ai.report(st, ins, 'the variables of a FastCGI request are not terminated')
        elif self.ev == self.p.enum('LI_STREAM_NEW_DATA'):
            if (last is not None and last[1]) != get_ps(st, 'fin'):
                ai.report(st, ins, 'the end of the request body is not recorded exactly when it is sent')
            if get_ps(st, 'src') is True and get_ps(st, 'shut') is False and not get_ps(st, 'fin') and not get_ps(st, 'reset'):
                ai.report(st, ins, 'the backend is not told the end of the request body')
        elif self.ev == self.p.enum('LI_STREAM_DISCONNECTED_SOURCE'):
            if get_ps(st, 'shut') is not True and not get_ps(st, 'reset'):
                ai.report(st, ins, 'the backend request is not aborted when its client is lost before the body was sent')


VARS = {'SERVER_NAME': 'HOST', 'SERVER_ADDR': 'LOCAL', 'REMOTE_ADDR': 'REMOTE', 'SCRIPT_NAME': 'PATH', 'PATH_INFO': 'PATHINFO', 'SCRIPT_FILENAME': 'PHYS', 'DOCUMENT_ROOT': 'DOCROOT',
        'REQUEST_URI': 'ORIGPATH', 'QUERY_STRING': 'QUERY', 'REQUEST_METHOD': 'METHOD', 'REDIRECT_URI': 'RAWPATH', 'CONTENT_LENGTH': 'LENGTH'}
REQUIRED = ['SERVER_NAME', 'SERVER_ADDR', 'REMOTE_ADDR', 'SCRIPT_NAME', 'PATH_INFO', 'SCRIPT_FILENAME', 'DOCUMENT_ROOT', 'REQUEST_URI', 'QUERY_STRING', 'REQUEST_METHOD', 'SERVER_PROTOCOL',
            'GATEWAY_INTERFACE', 'REQUEST_SCHEME']


class Env(Text):
    """CGI variables of a request"""
    def __init__(self, p, aspect):
        self.p = p
        self.aspect = aspect
        self.n = self.nh = self.nret = 0
        self.V11 = p.enum('LI_HTTP_VERSION_1_1')

    def start(self, st, fn, ai):
        set_ps(st, tmp=None, have=frozenset(), neg=False, ct=False)

    def istmp(self, st, g):
        return base_of(st, g, 'liWorker', 'tmp_str') is not None

    def gtext(self, st, g):
        if ('pop', g) in st.marks:
            return ph('ENV')
        if self.istmp(st, g):
            return get_ps(st, 'tmp')
        n = self.gname(st, g)
        if n is None and isinstance(g, V) and (g.k == 'init' and g.a[0].k == 'alloca' or g.k == 'sym'):
            return ph('LOCAL-VARIABLE')
        if n is None:
            return None
        return ph(n[0])

    def hdr(self, st, ptr):
        g = base_of(st, ptr, '_GString', 'str')
        return base_of(st, g, 'liHttpHeader', 'data') if g is not None else None

    def parts(self, st, ptr):
        """(string pointer, offset)"""
        v = Records.flat(ptr)
        c, d = lin(v)
        for x, k in d.items():
            if k == 1 and self.hdr(st, x) is not None:
                return self.hdr(st, x), add(v, x, -1)
        return None, None

    joins = True

    def join(self, st, s, va, a, vb, b):
        for m in [m for m in st.marks if m[0] == 'kind' and m[1] is s]:
            st.unmark(*m)
        for f in (self.pkind, self.lkind):
            x, y = f(a, va), f(b, vb)
            if x is not None and x == y:
                st.mark('kind', s, x)

    def marked(self, st, v, ks):
        for m in st.marks:
            if m[0] == 'kind' and m[1] is v and m[2][0] in ks:
                return m[2]
        return None

    def pkind(self, st, ptr):
        """what part of a header ptr points to"""
        if not isinstance(ptr, V) or ptr.k == 's':
            return None
        m = self.marked(st, ptr, ('line', 'value', 'part'))
        if m:
            return m
        h, off = self.parts(st, ptr)
        if h is None:
            return None
        if off == 0:
            return ('line',)
        if any(Records.same(off, add(x, 2)) for a, x in mem_of(st, 'liHttpHeader', 'keylen') if a.a[0] is h):
            return ('value',)
        return ('part',)

    def lkind(self, st, n):
        n = strip(st, n)
        if not isinstance(n, V):
            return None
        m = self.marked(st, n, ('linelen', 'valuelen', 'namelen'))
        if m:
            return m
        n = Records.flat(Records.unu(n))
        h = base_of(st, n, 'liHttpHeader', 'keylen')
        if h is not None:
            return ('namelen',)
        for a, k in mem_of(st, 'liHttpHeader', 'keylen'):
            for a2, d in mem_of(st, '_GString', 'len'):
                if base_of(st, a2.a[0], 'liHttpHeader', 'data') is a.a[0] and Records.same(n, add(add(d, k, -1), -2)):
                    return ('valuelen',)
        return None

    def piece(self, st, ptr, ln):
        p = self.pkind(st, ptr)
        if p is not None:
            n = self.lkind(st, ln)
            if n == ('namelen',) and p[0] == 'line':
                return ph('NAME')
            if n == ('valuelen',) and p[0] == 'value':
                return ph('VALUE')
            return ph('part of a header')
        return Text.piece(self, st, ptr, ln)

    def number(self, st, v):
        return Text.number(self, st, v)

    def post_call(self, st, ins, name, args, res, ai):
        if name in ('g_hash_table_lookup', 'li_environment_dup_pop') and isinstance(res, V):
            st.mark('pop', res)
        elif name == 'li_strncase_equal' and isinstance(res, V):
            if ('cg', args[0]) in st.marks and (const_arg_str(args[1]) or '').lower() == 'content-type' and st.const(args[2]) == 12:
                st.mark('ct', res)
        elif name == 'li_http_header_key_is' and (const_arg_str(args[1]) or '').lower() == 'content-type' and st.const(args[2]) == 12:
            st.mark('ct', res)

    def branch(self, st, ins, cond, truth, ai):
        if not get_ps(st, 'neg'):
            if any(st.rng(x)[1] < 0 for a, x in mem_of(st, 'liRequest', 'content_length')):
                set_ps(st, neg=True)
        for m in [m for m in st.marks if m[0] == 'ct']:
            if st.nonzero(m[1]):
                set_ps(st, ct=True)

    def load(self, st, ins, addr, val, ai):
        self.nonnull(st, addr, val)
        if is_fld(addr, '_GList', 'data') and isinstance(val, V):
            for m in [m for m in st.marks if m[0] in ('ct', 'cg')]:
                st.unmark(*m)
            set_ps(st, ct=False)
        if is_fld(addr, 'liConInfo', 'is_ssl') and isinstance(val, V):
            st.mark('ssl', val)

    def call(self, st, ins, name, args, ai):
        if name is None:
            if ai.val(st, ins.fn, ins) is mk('arg', 2):
                self.add(st, ins, args, ai)
                return 'noeffect'       # the callbacks only append to their own byte array (rule pair)
            return
        if name in ('g_hash_table_lookup', 'g_hash_table_remove', 'cgi_fix_header_name'):
            return 'noeffect'           # the duplicate of the environment does not own its strings
        if name == 'li_const_gstring':
            if len(args) == 3 and self.piece(st, args[1], args[2]) == ph('NAME'):
                st.mark('cg', args[0])
            return 'noeffect'
        t = self.text_call(st, name, args)
        if t and isinstance(t[0], V) and self.istmp(st, t[0]):
            if t[1] == 'set':
                set_ps(st, tmp=t[2])
            else:
                o = get_ps(st, 'tmp')
                set_ps(st, tmp=o + t[2] if o is not None and t[2] is not None else None)

    def add(self, st, ins, a, ai):
        self.n += 1
        k, v = self.piece(st, a[1], a[2]), self.piece(st, a[3], a[4])
        rep = lambda m: ai.report(st, ins, m)
        nice = lambda x: 'unknown data' if x is None else x.replace('\x01', '<').replace('\x02', '>')
        have = get_ps(st, 'have')
        if k is not None and '\x01' not in k:
            if not have and k != 'CONTENT_LENGTH' and not get_ps(st, 'neg') and self.aspect == 'vars':
                rep('CONTENT_LENGTH is not passed first to the backend')
            if self.aspect == 'vars':
                if k in have and k not in ('HTTPS',):
                    rep('variable %s is passed to the backend twice' % k)
                set_ps(st, have=have | {k})
                if v == ph('ENV'):
                    return
                if k in VARS and v != ph(VARS[k]):
                    rep('variable %s is passed to the backend as %s' % (k, nice(v)))
                elif k == 'SERVER_PROTOCOL':
                    on = [x for b, x in mem_of(st, 'liRequest', 'http_version')]
                    is11 = bool(on) and all(st.const(x) == self.V11 for x in on)
                    not11 = bool(on) and all(st.evalcmp('ne', x, self.V11) for x in on)
                    if not (v == 'HTTP/1.1' and is11 or v == 'HTTP/1.0' and not11):
                        rep('SERVER_PROTOCOL does not follow the version of the request')
                elif k in ('HTTPS', 'REQUEST_SCHEME'):
                    ssl = [m[1] for m in st.marks if m[0] == 'ssl']
                    on = any(st.nonzero(x) for x in ssl)
                    off = any(st.const(x) == 0 for x in ssl)
                    if k == 'HTTPS' and not (on and v == 'on') or k == 'REQUEST_SCHEME' and not (on and v == 'https' or off and v == 'http'):
                        rep('%s does not follow the protocol of the connection' % k)
            return
        if self.aspect == 'headers':
            if k is not None and 'NAME' in k:
                self.nh += 1
                if not (k == 'HTTP_' + ph('NAME') or k == ph('NAME') and get_ps(st, 'ct')):
                    rep('a header of the client can set variable %s of the backend' % nice(k))
                if v not in (ph('VALUE'), ph('ENV')):
                    rep('the value of a header is passed to the backend as %s' % nice(v))
            elif k != ph('LOCAL-VARIABLE') or v != ph('LOCAL-VARIABLE'):
                rep('variable %s is passed to the backend as %s' % (nice(k), nice(v)))

    def ret(self, st, ins, val, ai):
        self.nret += 1
        if self.aspect == 'vars':
            have = get_ps(st, 'have')
            miss = [k for k in REQUIRED if k not in have]
            if 'CONTENT_LENGTH' not in have and not get_ps(st, 'neg'):
                miss.append('CONTENT_LENGTH')
            if miss:
                ai.report(st, ins, 'not passed to the backend: ' + ', '.join(miss))


class Names(Rule):
    """bytes of header names as they become variable names"""
    OK = {ord(c) for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_'}

    def __init__(self):
        self.n = 0

    def start(self, st, fn, ai):
        set_ps(st, cur=None, stored=False)

    def isbyte(self, st, addr):
        v = Records.flat(addr)
        c, d = lin(v)
        return any(k == 1 and base_of(st, x, '_GString', 'str') is not None for x, k in d.items())

    def settle(self, st, ins, ai):
        if get_ps(st, 'cur') is not None and not get_ps(st, 'stored'):
            self.n += 1
            if not byte_values(st, get_ps(st, 'cur')) <= self.OK:
                ai.report(st, ins, 'other characters than letters, digits and _ remain in the name of a variable')

    def load(self, st, ins, addr, val, ai):
        if ins.ty == 'i8' and isinstance(val, V) and self.isbyte(st, addr):
            if val is not get_ps(st, 'cur'):
                self.settle(st, ins, ai)
                set_ps(st, cur=val, stored=False)

    def store(self, st, ins, addr, val, ai):
        if self.isbyte(st, addr) and isinstance(val, (int, V)):
            self.n += 1
            if not (isinstance(val, V) and ('up', val) in st.marks) and not byte_values(st, val) <= self.OK:
                ai.report(st, ins, 'other characters than letters, digits and _ become part of the name of a variable')
            set_ps(st, stored=True)

    def post_call(self, st, ins, name, args, res, ai):
        if name == 'g_ascii_toupper' and byte_values(st, args[0]) <= {ord(c) for c in 'abcdefghijklmnopqrstuvwxyz'} | self.OK:
            st.mark('up', res)

    def branch(self, st, ins, cond, truth, ai):
        c = get_ps(st, 'cur')
        if c is not None and not get_ps(st, 'stored') and byte_values(st, c) <= self.OK:
            set_ps(st, stored=True)

    def ret(self, st, ins, val, ai):
        self.settle(st, ins, ai)


def check(ctx):
    p = prog()
    ctx.rule('proxy', 'request head for HTTP backends: request line of method, path, version; no client header that frames the message or claims the client address; own Content-Length = length of the body (known, unless GET/HEAD), address and protocol of the client; one blank line at the end')
    tu = 'src/modules/mod_proxy.c'
    send = [f for f in p.fns.values() if f.tu == tu and any((callee_name(i) or '').startswith('li_chunkqueue_append') for i in f.calls())]
    ctx.need(send, 'mod_proxy does not send a request head')
    roots = {r.key for f in send for r in roots_calling(p, f)}
    for k in sorted(roots):
        f = p.fns[k]
        keep = unwritten(p, f, {('liRequest', 'content_length'), ('liRequest', 'http_method')})
        for aspect in ('shape', 'drop', 'own'):
            r = Proxy(p, aspect)
            ai = analyse(p, f, r, K=6, policy=same_tu(opaque=OPAQUE), purecalls=LOGS, keepfields=keep)
            ctx.take(ai, 'proxy')
            ctx.ok('proxy', '%s [%s]' % (f.loc(), aspect))
            ctx.floor('heads[%s]' % aspect, r.n, 1)
            ctx.floor('forwarded_headers[%s]' % aspect, r.nh, 1)
    ctx.rule('pair', 'a variable is encoded as key NUL value NUL (SCGI), or as both lengths in the form for their size, key, value (FastCGI)')
    ctx.rule('scgi', 'SCGI request: length of the variables, colon, exactly these bytes, comma; CONTENT_LENGTH first, length of the body known, SCGI variable present')
    n = {'scgi': 0, 'fcgi': 0}
    for fn, i in callers_of(p, 'li_environment_dup2cgi'):
        proto = {'src/modules/mod_scgi.c': 'scgi', 'src/modules/fastcgi_stream.c': 'fcgi'}.get(fn.tu)
        t = fn_values(p, i.a[2], fn.tu)
        ctx.need(t is not None, 'callback that encodes variables not found in ' + fn.name)
        if proto is None:
            continue
        r = Pair(proto)
        ai = analyse(p, t, r, K=8)
        ctx.take(ai, 'pair')
        ctx.ok('pair', t.loc())
        n[proto] += r.n
        if proto == 'scgi':
            for f in roots_calling(p, fn):
                keep = unwritten(p, f, {('liRequest', 'content_length')})
                r = Scgi(p)
                ai = analyse(p, f, r, K=8, policy=same_tu(opaque=OPAQUE), purecalls=LOGS, keepfields=keep)
                ctx.take(ai, 'scgi')
                ctx.ok('scgi', f.loc())
                ctx.floor('scgi_requests', r.n, 1)
    for k in n:
        ctx.floor('pair_ends[%s]' % k, n[k], 1)
    ctx.rule('fcgi', 'FastCGI encoder: every record has a well-formed header, exactly the announced data and padding; begin, variables, one empty record; body as consecutive non-empty records while open, one empty record exactly at its end; a client lost before aborts the request')
    cbs = stream_callbacks(p, Records.C, 'fcgi_out')
    ctx.need(len(cbs) == 1, 'callback of the FastCGI request stream not found')
    nr = ne = 0
    keep = unwritten(p, cbs[0], {(Records.C, 'stdin_closed')})
    for ev in ('LI_STREAM_NEW_DATA', 'LI_STREAM_DISCONNECTED_SOURCE'):
        r = Records(p, 'stdin', p.enum(ev))
        ai = analyse(p, cbs[0], r, K=24, policy=same_tu(opaque=('fastcgi_reset', 'fastcgi_check_put')), purecalls=LOGS, keepfields=keep)
        ctx.take(ai, 'fcgi')
        ctx.ok('fcgi', '%s [%s]' % (cbs[0].loc(), ev))
        nr += r.n
        ne += r.nend
        ctx.floor('path_ends[%s]' % ev, r.nret, 1)
    ctx.floor('body_records', nr, 2)
    ctx.floor('body_ends', ne, 1)
    for fn, i in callers_of(p, 'li_environment_dup2cgi'):
        if fn.tu != 'src/modules/fastcgi_stream.c':
            continue
        for f in roots_calling(p, fn):
            r = Records(p, 'begin')
            ai = analyse(p, f, r, K=24, policy=same_tu(opaque=('fastcgi_reset', 'fastcgi_check_put')), purecalls=LOGS)
            ctx.take(ai, 'fcgi')
            ctx.ok('fcgi', f.loc())
            ctx.floor('begin_records', r.n, 4)
    ctx.rule('env', 'CGI variables: CONTENT_LENGTH first, each variable from its source, no variable twice; headers of the client only as HTTP_<name> (and CONTENT_TYPE) with their value')
    f = p.fn('li_environment_dup2cgi')
    ctx.need(f is not None, 'li_environment_dup2cgi not found')
    for aspect in ('vars', 'headers'):
        r = Env(p, aspect)
        ai = analyse(p, f, r, K=2, policy=same_tu(opaque=OPAQUE + ('cgi_fix_header_name',)), purecalls=LOGS)
        ctx.take(ai, 'env')
        ctx.ok('env', '%s [%s]' % (f.loc(), aspect))
        ctx.floor('variables', r.n, 15)
        ctx.floor('env_ends', r.nret, 1)
    ctx.floor('header_variables', r.nh, 1)
    ctx.rule('names', 'names of header variables consist of upper case letters, digits and _ only')
    n = 0
    for g in sorted(p.fns.values(), key=lambda x: x.key):
        if g.tu == f.tu and any(i.op == 'load' and i.ty == 'i8' for i in g.instrs()):
            r = Names()
            ai = analyse(p, g, r, K=8, policy=same_tu(opaque=OPAQUE), purecalls=LOGS)
            ctx.take(ai, 'names')
            ctx.ok('names', g.loc())
            n += r.n
    ctx.floor('name_bytes', n, 2)
