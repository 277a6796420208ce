"""C13: text from clients and file names cannot become markup, log entries or control characters"""
import re
from common import *
from c10 import mentions, action_table
from c11 import bare

SRC = {('liRequestUri', f) for f in ('raw', 'raw_path', 'raw_orig_path', 'path', 'query', 'authority', 'host')} | \
      {('liHttpHeader', 'data'), ('liPhysical', 'path'), ('liPhysical', 'pathinfo'), ('liStatCacheEntryData', 'path')}
PAGE = re.compile(r'<(td|tr|html|pre|span|title|h1|h2|p|a)[ >]')
MARKUP = re.compile(r'</?[a-zA-Z!]')
ENC = ('li_string_encode', 'li_string_encode_append')
# destination 0, text argument
APP = {'g_string_append': 1, 'g_string_append_len': 1, 'li_g_string_append_len': 1, 'g_string_prepend': 1, 'g_string_assign': 1, 'g_string_insert': 2, 'g_string_prepend_len': 1, 'g_string_insert_len': 2}
FMT = ('g_string_append_printf', 'g_string_printf')
COPY = {'g_string_new_len': 0, 'g_string_new': 0, 'g_strdup': 0, 'g_strndup': 0, 'g_string_dup': 0, 'g_string_new_take': 0}
SKIPFN = {'g_free', 'g_string_free', 'free'}


class Taint(Rule):
    """text of unknown origin in pages"""
    joins = True

    def __init__(self, p, src, tables):
        self.p, self.src, self.tables = p, src, tables
        self.found = set()
        self.ns = self.ne = self.nt = 0
        self.encs = {p.enum('LI_ENCODING_' + k): k for k in ('HTML', 'URI', 'HEX')}

    def start(self, st, fn, ai):
        set_ps(st, href=False)

    def join(self, r, s, va, a, vb, b):
        for k in ('taint', 'tstr', 'html'):
            if (k, va) in a.marks or (k, vb) in b.marks:
                r.mark(k, s)

    def renamed(self, st, old, pairs):
        for s, v in pairs:
            for k in ('taint', 'tstr', 'html'):
                if (k, v) in old.marks:
                    st.mark(k, s)

    def dirty(self, st, v):
        v = bare(v)
        if not isinstance(v, V):
            return False
        if ('taint', v) in st.marks:
            return True
        if v.k == 'sum':
            return any(isinstance(x, V) and self.dirty(st, x) for x in v.a)
        if v.k in ('idx', 'off', 'fld'):
            return self.dirty(st, v.a[0])
        return False

    def load(self, st, ins, addr, val, ai):
        if not isinstance(val, V) or not isinstance(addr, V):
            return
        if addr.k == 'fld':
            S, f = addr.a[1], addr.a[2]
            if f == 'str' and ('hstr', addr.a[0]) in st.marks:
                st.mark('henc', val)
            if (S, f) in self.src or (S.split('.')[-1], f) in self.src:
                st.mark('taint', val)
                self.nt += 1
            elif self.dirty(st, addr.a[0]) and f in ('str', 'data', 'keylen') and f != 'keylen':
                st.mark('taint', val)
            elif f == 'str' and ('tstr', addr.a[0]) in st.marks:
                st.mark('taint', val)
            elif f == 'str' and ('html', addr.a[0]) in st.marks:
                st.mark('htmlstr', val)
        elif ('tptr', addr) in st.marks:
            st.mark('taint', val)

    def store(self, st, ins, addr, val, ai):
        if addr.k == 'fld' and (self.dirty(st, val) or ('tstr', val) in st.marks):
            k = (addr.a[1], addr.a[2])
            if k not in self.src and k[1] not in ('str', 'data') and k[0] not in ('GString', '_GString'):
                self.found.add(k)

    def text(self, st, a):
        s = const_arg_str(a)
        if s is not None:
            return s
        v = bare(a)
        if isinstance(v, V) and v.k in ('g',):
            return self.tables.get(str(v.a[0]).lstrip('@'))
        return None

    def add(self, st, ins, dst, t, txt, dirty, ai):
        if get_ps(st, 'href') and txt is None and isinstance(bare(t), V) and ('henc', bare(t)) in st.marks:
            ai.report(st, ins, 'a link is built from text that was not encoded for URIs')
        if txt is not None:
            set_ps(st, href=bool(re.search(r'(href|src)="$', txt)))
        if txt is not None and MARKUP.search(txt) and isinstance(dst, V):
            if ('tstr', dst) in st.marks:
                ai.report(st, ins, 'text that was not encoded becomes part of a page')
            st.mark('html', dst)
        if dirty:
            if ('html', dst) in st.marks:
                ai.report(st, ins, 'text that was not encoded becomes part of a page')
            elif isinstance(dst, V):
                st.mark('tstr', dst)

    def call(self, st, ins, name, args, ai):
        if name in APP and len(args) > APP[name]:
            if name == 'g_string_assign':
                st.unmark('tstr', args[0])
            t = args[APP[name]]
            if ('html', args[0]) in st.marks:
                self.ns += 1
            self.add(st, ins, args[0], t, self.text(st, t), self.dirty(st, t), ai)
        elif name in FMT:
            if name == 'g_string_printf':
                st.unmark('tstr', args[0])
            f = self.text(st, args[1])
            if f is None and isinstance(args[1], V):
                for m in st.marks:
                    if m[0] == 'fmt' and m[1] is args[1]:
                        f = m[2]
            if ('html', args[0]) in st.marks:
                self.ns += 1
            self.add(st, ins, args[0], None, f, False, ai)
            for x in args[2:]:
                self.add(st, ins, args[0], x, None, self.dirty(st, x), ai)
        elif name in ('g_string_truncate',):
            if isconst(args[1]) and args[1] == 0:
                st.unmark('tstr', args[0])
        elif name in ENC:
            self.ne += self.dirty(st, args[0])
            e = self.encs.get(args[2]) if isconst(args[2]) else None
            if name == 'li_string_encode':
                st.unmark('tstr', args[1])
                for m in [m for m in st.marks if m[0] == 'henc' or m == ('hstr', args[1])]:
                    st.unmark(*m)
                if e == 'HTML':
                    st.mark('hstr', args[1])
            elif get_ps(st, 'href') and e == 'HTML':
                ai.report(st, ins, 'a link is built from text that was not encoded for URIs')
            if e is None:
                ai.report(st, ins, 'unknown encoding')
        elif name == 'li_querystring_find':
            st.mark('tptr', args[3])
        elif name == 'g_file_get_contents':
            st.mark('tptr', args[1])
        elif name == 'li_http_header_get_all':
            st.mark('tstr', args[0])

    def post_call(self, st, ins, name, args, res, ai):
        if not isinstance(res, V):
            return
        if name in COPY and (self.dirty(st, args[0]) or ('tstr', args[0]) in st.marks):
            st.mark('taint', res)
        elif name in ENC:
            for k in ('html', 'tstr'):
                if (k, args[1]) in st.marks:
                    st.mark(k, res)
        elif name == 'li_environment_get':
            st.mark('taint', res)


class Log(Taint):
    """the access log: everything from the client goes through the escaping function"""
    def __init__(self, p, src, tables, esc):
        super().__init__(p, src, tables)
        self.esc = esc
        self.nesc = self.nraw = 0

    def ours(self, st, v):
        v = bare(v)
        return isinstance(v, V) and ('line', v) in st.marks

    def call(self, st, ins, name, args, ai):
        if name in self.esc:
            self.nesc += 1
        elif (name in APP or name in FMT) and self.ours(st, args[0]):
            self.nraw += 1
            for x in args[1:]:
                if self.dirty(st, x):
                    ai.report(st, ins, 'text from the client is written to the access log without escaping')
        else:
            return super().call(st, ins, name, args, ai)

    def post_call(self, st, ins, name, args, res, ai):
        if name in ('g_string_sized_new', 'g_string_new') and isinstance(res, V):
            st.mark('line', res)
        else:
            super().post_call(st, ins, name, args, res, ai)

    def join(self, r, s, va, a, vb, b):
        super().join(r, s, va, a, vb, b)
        if ('line', va) in a.marks or ('line', vb) in b.marks:
            r.mark('line', s)

    def renamed(self, st, old, pairs):
        super().renamed(st, old, pairs)
        for s, v in pairs:
            if ('line', v) in old.marks:
                st.mark('line', s)


class Escape(Rule):
    """which bytes of the input are copied to the output as they are"""
    def __init__(self, p, forbidden, sinks, fix=(), signed=True):
        self.p, self.forbidden, self.sinks, self.fix = p, forbidden, sinks, fix
        self.n = self.nh = 0
        self.hexbuf = False

    def start(self, st, fn, ai):
        for i, c in self.fix:
            a = ai.val(st, '$%d' % i)
            st.assume(mk('cmp', 'eq', a, c), True)

    joins = True

    def join(self, r, s, va, a, vb, b):
        if isinstance(s, V) and self.hexdigit(a, va) and self.hexdigit(b, vb):
            r.mark('hex', s)

    def hexdigit(self, st, v):
        if isinstance(v, V) and ('hex', v) in st.marks:
            return True
        lo, hi, ne = st.rng(v)
        return any(a <= lo and hi <= b for a, b in ((48, 57), (65, 70), (97, 102)))

    def renamed(self, st, old, pairs):
        bs = [m[1] for m in old.marks if m[0] == 'byte']
        for v in [v for v in st.facts if isinstance(v, V) and any(contains(v, b) for b in bs)]:
            del st.facts[v]     # the next byte does not depend on the last one
        for b in bs:
            st.unmark('byte', b)

    def load(self, st, ins, addr, val, ai):
        if ins.ty == 'i8' and isinstance(val, V):
            st.mark('byte', val)

    def origin(self, v):
        """the byte behind extensions"""
        while isinstance(v, V) and (v.k in ('u', 'sext', 'zext') or v.k == 'and' and v.a[1] == 255) and isinstance(v.a[0], V):
            v = v.a[0]
        return v

    def branch(self, st, ins, cond, truth, ai):
        c = cond
        while isinstance(c, V) and c.k in ('cmp', 'bool'):
            if c.k == 'cmp' and not isconst(c.a[2]):
                return
            c = c.a[1]
        if isinstance(c, V) and st.const(c) == 0:
            t = tabref(self.p, ai.fn.tu, c)
            if t:
                st.mark('plain', self.origin(t[1]), t[0])

    def copied(self, st, ins, val, ai):
        o = self.origin(val)
        if not isinstance(val, V) or not isinstance(o, V):
            return
        t = tabref(self.p, ai.fn.tu, o)
        if t:
            tab = table(self.p, ai.fn.tu, t[0])
            lo, hi, ne = st.rng(t[1])
            bad = [b for b in self.forbidden if b in tab[max(lo, 0):hi + 1]]
        else:
            self.n += o.k in ('init', 'ld', 'trunc')
            bad = []
            same = {val, o} | {v for v in st.facts if isinstance(v, V) and self.origin(v) is o}
            wide = o.a[0] if o.k == 'trunc' and isinstance(o.a[0], V) and 0 <= st.rng(o.a[0])[0] and st.rng(o.a[0])[1] <= 255 else None
            for b in self.forbidden:
                if any(m[0] == 'plain' and m[1] is o and table(self.p, ai.fn.tu, m[2])[b] for m in st.marks):
                    continue
                if wide is not None and excluded(st, wide, b):
                    continue
                if any(excluded(st, x, b) if self.unsigned(x) else excluded(st, x, b - 256 if b > 127 else b) for x in same):
                    continue
                bad.append(b)
        if bad:
            ai.report(st, ins, 'bytes (%s) are copied without being encoded' % ', '.join('0x%02x' % b for b in bad[:6]))

    def unsigned(self, x):
        return x.k == 'u' or x.k == 'zext' or x.k == 'and' or x.k in ('init', 'ld', 'join') and False

    def store(self, st, ins, addr, val, ai):
        if not isinstance(val, V) or addr.k == 'fld':
            return
        if local(addr):
            if self.hexbuf:
                self.nh += 1
                t = tabref(self.p, ai.fn.tu, val)
                if t:
                    l2, h2, _ = st.rng(t[1])
                    tab = table(self.p, ai.fn.tu, t[0])
                    if 0 <= l2 and h2 < len(tab) and all(chr(x) in '0123456789abcdefABCDEF' for x in tab[int(l2):int(h2) + 1]):
                        return
                if not self.hexdigit(st, val):
                    ai.report(st, ins, 'an escape sequence may contain other characters than hexadecimal digits')
        elif 'store' in self.sinks:
            self.copied(st, ins, val, ai)

    def call(self, st, ins, name, args, ai):
        if name in self.sinks and len(args) > 1:
            self.copied(st, ins, args[1], ai)


def local(a):
    while isinstance(a, V) and a.k in ('idx', 'off', 'fld', 'sum') and a.a and isinstance(a.a[0], V):
        a = a.a[0]
    return isinstance(a, V) and a.k == 'alloca'


def excluded(st, v, b):
    lo, hi, ne = st.rng(v)
    return b < lo or b > hi or b in ne


def tabref(p, tu, v):
    """(table, index) of a value loaded from a constant table"""
    if v.k == 'init':
        a = v.a[0]
        if isinstance(a, V) and a.k == 'idx' and isinstance(a.a[0], V) and a.a[0].k in ('g', 's'):
            return a.a[0], a.a[1]
    return None


def table(p, tu, t):
    if t.k == 's':
        return [ord(c) & 255 for c in t.a[0]] + [0] * 256
    g = p.globals.get((tu, str(t.a[0]).lstrip('@')))
    out = []

    def walk(x):
        if isinstance(x, dict):
            if 'str' in x:
                out.extend(ord(c) & 255 for c in x['str'])
            for k in ('st', 'arr'):
                for y in x.get(k, ()):
                    walk(y[1] if isinstance(y, (list, tuple)) else y)
        elif isinstance(x, int):
            out.append(x)
    if g and 'init' in g and g.get('const'):
        walk(g['init'])
    return out + [0] * 256


class Listing(Rule):
    """entries of a directory listing"""
    OPTS = ('hide_dotfiles', 'hide_tildefiles', 'hide_directories', 'hide_header', 'hide_readme')

    def __init__(self, p):
        self.n = self.ni = 0

    def start(self, st, fn, ai):
        self.reset(st)

    def reset(self, st):
        set_ps(st, failed=False, hit=None, dir=None, first=None, last=None, hdr=None, ne=(), opt=())
        for m in [m for m in st.marks if m[0] in ('opt', 'failed', 'suffix', 'mode', 'first', 'last', 'eq')]:
            st.unmark(*m)
            v = [x for x in m[1:] if isinstance(x, V)][0]
            st.tracked = st.tracked - v.syms

    def load(self, st, ins, addr, val, ai):
        if not isinstance(addr, V) or not isinstance(val, V):
            return
        if addr.k == 'fld':
            f = addr.a[2]
            if f == 'dirlist' or f == 'data' and 'GArray' in addr.a[1]:
                self.reset(st)
            elif f in self.OPTS or f in ('include_header', 'include_readme'):
                st.mark('opt', f, val)
                track(st, val)
            elif f == 'failed':
                st.mark('failed', val)
                track(st, val)
            elif f == 'st_mode':
                st.mark('mode', val)
                track(st, val)
            elif f == 'len':
                st.mark('len', val)
        elif ins.ty == 'i8':
            if any(m[0] == 'len' and contains(addr, m[1]) for m in st.marks):
                st.mark('last', val)
            else:
                st.mark('first', val)
            track(st, val)

    def branch(self, st, ins, cond, truth, ai):
        o = dict(get_ps(st, 'opt'))
        for m in st.marks:
            if m[0] == 'opt':
                t = st.truth(m[2]) if st.truth(m[2]) is not None else None
                if t is None:
                    t = False if st.const(m[2]) == 0 else True if st.nonzero(m[2]) else None
                if t is not None:
                    o[m[1]] = t
            elif m[0] == 'failed' and st.const(m[1]) == 0:
                set_ps(st, failed=True)
            elif m[0] == 'suffix' and st.nonzero(m[1]):
                set_ps(st, hit=True)
            elif m[0] == 'eq':
                if st.nonzero(m[2]) if m[3] else st.const(m[2]) == 0:
                    set_ps(st, hdr=m[1])
                elif m[1] not in get_ps(st, 'ne') and (st.const(m[2]) == 0 if m[3] else st.nonzero(m[2])):
                    set_ps(st, ne=get_ps(st, 'ne') + (m[1],))
            elif m[0] == 'first':
                if excluded(st, m[1], ord('.')):
                    set_ps(st, first=True)
            elif m[0] == 'last':
                if excluded(st, m[1], ord('~')):
                    set_ps(st, last=True)
        set_ps(st, opt=tuple(sorted(o.items())))
        c, t = cond, truth
        while isinstance(c, V) and c.k == 'bool' and c.a[0] == 'not':
            c, t = c.a[1], not t
        if isinstance(c, V) and c.k == 'cmp' and c.a[0] in ('eq', 'ne') and isconst(c.a[2]) and c.a[2] == 0o040000 and any(m[0] == 'mode' and contains(c.a[1], m[1]) for m in st.marks):
            set_ps(st, dir=(c.a[0] == 'eq') == t)

    def call(self, st, ins, name, args, ai):
        o = dict(get_ps(st, 'opt'))
        if name == 'g_array_append_vals':
            self.n += 1
            if not get_ps(st, 'failed'):
                ai.report(st, ins, 'an entry without status is listed')
            if get_ps(st, 'hit'):
                ai.report(st, ins, 'an entry with an excluded prefix or suffix is listed')
            if o.get('hide_dotfiles') is not False and not get_ps(st, 'first'):
                ai.report(st, ins, 'a hidden file (.name) may be listed')
            if o.get('hide_tildefiles') is not False and not get_ps(st, 'last'):
                ai.report(st, ins, 'a backup file (name~) may be listed')
            if get_ps(st, 'dir') is not False and o.get('hide_directories') is not False:
                ai.report(st, ins, 'a directory may be listed although directories are hidden')
            h = get_ps(st, 'hdr')
            if h and o.get('hide_' + h) is not False:
                ai.report(st, ins, 'HEADER.txt or README.txt is listed although it is hidden')
            if get_ps(st, 'dir') is False:
                for x in ('header', 'readme'):
                    if o.get('hide_' + x) is not False and not h and x not in get_ps(st, 'ne'):
                        ai.report(st, ins, 'HEADER.txt or README.txt may be listed although it is hidden')
        elif name == 'try_append_file':
            f = (const_arg_str(args[2]) or '').lower()
            for x in ('header', 'readme'):
                if f.startswith(x):
                    self.ni += 1
                    if not o.get('include_' + x):
                        ai.report(st, ins, 'HEADER.txt or README.txt is included although it is not to be')

    def post_call(self, st, ins, name, args, res, ai):
        if not isinstance(res, V):
            return
        if name in ('li_string_suffix', 'li_string_prefix'):
            for m in [m for m in st.marks if m[0] == 'suffix']:
                st.unmark(*m)
                st.tracked = st.tracked - m[1].syms
            st.mark('suffix', res)
            track(st, res)
        elif name in ('g_str_equal', 'strcmp', 'li_g_string_equal'):
            for a in args:
                s = (const_arg_str(a) or '').lower()
                for x in ('header', 'readme'):
                    if s.startswith(x):
                        st.mark('eq', x, res, name != 'strcmp')
                        track(st, res)


class Callback(Rule):
    joins = True
    """JSONP: the name of the callback is copied only if it consists of harmless characters"""
    OKR = ((97, 122), (65, 90), (48, 57), (46, 46), (95, 95), (36, 36))

    def __init__(self, p):
        self.n = 0

    def start(self, st, fn, ai):
        set_ps(st, chk=None, end=False)

    def load(self, st, ins, addr, val, ai):
        if not isinstance(val, V):
            return
        if ('tptr', addr) in st.marks:
            st.mark('taint', val)
            track(st, val)
        elif ('tlen', addr) in st.marks:
            st.mark('len', val)
            track(st, val)
        elif ins.ty == 'i8' and not any(m[0] == 'chv' and m[1] is val for m in st.marks):
            if get_ps(st, 'chk') is None and not any(m[0] == 'taint' and m[1] is bare(addr) for m in st.marks):
                return      # the check starts with the first character
            if get_ps(st, 'chk') == 'bad':
                return
            for m in [m for m in st.marks if m[0] == 'chv']:
                st.unmark(*m)
                st.tracked = st.tracked - m[1].syms
            st.mark('chv', val)
            track(st, val)
            set_ps(st, chk='?', end=False)

    def branch(self, st, ins, cond, truth, ai):
        for m in [m for m in st.marks if m[0] == 'chv']:
            if get_ps(st, 'chk') == '?':
                lo, hi, ne = st.rng(m[1])
                if any(a <= lo and hi <= b for a, b in self.OKR):
                    set_ps(st, chk='ok')
                    for v in [v for v in st.facts if contains(v, m[1])]:
                        del st.facts[v]     # which of the ranges it was does not matter
                    st.unmark(*m)
                    st.tracked = st.tracked - m[1].syms
        c, t = cond, truth
        while isinstance(c, V) and c.k == 'bool' and c.a[0] == 'not':
            c, t = c.a[1], not t
        if isinstance(c, V) and c.k == 'cmp':
            # the end (text + length, or the length itself) was reached
            NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ule': 'ugt', 'ugt': 'ule', 'slt': 'sge', 'sge': 'slt', 'sle': 'sgt', 'sgt': 'sle'}
            pr = c.a[0] if t else NEG[c.a[0]]
            for e, x, ok in ((c.a[2], c.a[1], ('eq', 'uge', 'sge')), (c.a[1], c.a[2], ('eq', 'ule', 'sle'))):
                if pr in ok and self.atend(st, e):
                    set_ps(st, end='empty' if x == 0 or ('taint', bare(x)) in st.marks else 'end')

    def atend(self, st, e):
        e = bare(e)
        if not isinstance(e, V):
            return False
        while e.k in ('zext', 'sext', 'u') and isinstance(e.a[0], V):
            e = e.a[0]
        lens = [m[1] for m in st.marks if m[0] == 'len']
        if e in lens:
            return True
        if e.k in ('idx', 'sum', 'off'):
            xs = [x for x in e.a if isinstance(x, (V, int)) and not (isinstance(x, int) and x == 0)]
            return any(('taint', x) in st.marks for x in xs if isinstance(x, V)) and any(self.atend(st, x) for x in xs if isinstance(x, V) and ('taint', x) not in st.marks) and not any(isinstance(x, int) and x < 0 for x in xs)
        return False

    def join(self, r, s, va, a, vb, b):
        for k in ('taint', 'len', 'chv'):
            if (k, va) in a.marks and (k, vb) in b.marks:
                r.mark(k, s)

    def renamed(self, st, old, pairs):
        if get_ps(st, 'chk') == '?':
            set_ps(st, chk='bad')
        for s, v in pairs:
            for k in ('taint', 'len'):
                if (k, v) in old.marks:
                    st.mark(k, s)

    def call(self, st, ins, name, args, ai):
        if name == 'li_querystring_find':
            for m in [m for m in st.marks if m[0] in ('taint', 'tptr', 'len', 'tlen')]:
                st.unmark(*m)
            s = const_arg_str(args[1])
            if s and 'callback' in s.lower():
                st.facts.clear()        # nothing before matters
                st.mark('tptr', args[3])
                st.mark('tlen', args[4])
        elif name in APP and isinstance(bare(args[APP[name]]), V) and ('taint', bare(args[APP[name]])) in st.marks:
            self.n += 1
            if (get_ps(st, 'chk'), get_ps(st, 'end')) not in (('ok', 'end'), (None, 'empty')):
                ai.report(st, ins, 'the name of the callback is copied although it was not checked completely')


def fns_in(p, tu):
    """functions of a unit that are not (only) called by others of it"""
    fs = [f for f in p.fns.values() if f.tu == tu]
    called = {callee_name(i) for f in fs for i in f.calls()}
    return [f for f in fs if f.name not in called or f.key in p.addr_taken()]


def check(ctx):
    p = prog()
    ctx.rule('pages', 'text from requests, connections, files and file names reaches a page only through li_string_encode(_append) with HTML or URI encoding')
    ctx.rule('encoder', 'HTML encoding copies neither & < > " nor control characters, URI encoding neither these nor % ? # and bytes above 0x7e, URL decoding produces no control characters')
    ctx.rule('accesslog', 'text from requests, responses and the environment is written to the access log only through the escaping function, which copies only printable characters other than quotes and backslashes')
    ctx.rule('listing', 'a directory listing contains only entries that no option hides, HEADER.txt and README.txt are included only if asked for')
    ctx.rule('callback', 'the JSONP callback name is copied only if every character of it was checked')
    E = p.enum
    # pages
    tus, tabs = set(), {}

    def lits(v):
        if isinstance(v, list):
            if len(v) >= 2 and v[0] == 's' and isinstance(v[1], str):
                yield v[1]
            else:
                for x in v:
                    yield from lits(x)
    for (tu, n), g in p.globals.items():
        s = g.get('init', {}).get('str') if isinstance(g.get('init'), dict) else None
        if s:
            tabs.setdefault(tu, {})[n] = s
            if tu.startswith('src/') and PAGE.search(s):
                tus.add(tu)
    for f in p.fns.values():
        if f.tu.startswith('src/') and f.tu not in tus and any(PAGE.search(s) for i in f.instrs() for a in i.a for s in lits(a)):
            tus.add(f.tu)
    src, tot = set(SRC), [0, 0]
    roots = {}
    for tu in sorted(tus):
        fs = [f for f in p.fns.values() if f.tu == tu]
        called = {callee_name(i) for f in fs for i in f.calls()}
        roots[tu] = [f for f in fs if f.name not in called or f.key in p.addr_taken()]
    ctx.floor('page_units', len(tus), 3)
    for rnd in range(4):
        new = set()
        res = []
        for tu in sorted(tus):
            for f in roots[tu]:
                m = Taint(p, src, tabs.get(tu, {}))
                res.append((f, m, analyse(p, f, m, K=4, purecalls=LOGS)))
                new |= m.found
        if new <= src:
            break
        src |= new
    for f, m, r in res:
        ctx.take(r, 'pages')
        tot = [tot[0] + m.ns, tot[1] + m.ne]
        if m.ns:
            ctx.ok('pages', f.loc())
    ctx.floor('page_writes', tot[0], 20)
    ctx.floor('encoded_texts', tot[1], 4)
    # encoders
    f = p.fn('li_string_encode_append')
    n = 0
    CTL = set(range(0, 32)) | {127}
    for enc, bad in (('HTML', CTL | set(b'&<>"\'')), ('URI', CTL | set(b'&<>"\'%?# \\') | set(range(128, 256)))):
        m = Escape(p, bad - {0}, ('store',), fix=((2, E('LI_ENCODING_' + enc)),))
        r = analyse(p, f, m, K=4)
        ctx.take(r, 'encoder')
        n += m.n
        ctx.ok('encoder', f.loc() + ' ' + enc)
    f = p.fn('li_url_decode')
    m = Escape(p, CTL, ('store',))
    ctx.take(analyse(p, f, m, K=4, policy=same_tu()), 'encoder')
    ctx.ok('encoder', f.loc())
    ctx.floor('copied_bytes', n, 2)
    ctx.floor('decoded_bytes', m.n, 1)
    # access log
    AL = 'src/modules/mod_accesslog.c'
    fs = [f for f in p.fns.values() if f.tu == AL]
    esc = []
    for f in fs:
        # functions that copy the bytes of one string to another one
        if f.key in p.addr_taken() or len(f.args) < 2:
            continue
        m = Escape(p, CTL | set(b'"\\') | set(range(128, 256)), ('g_string_append_c', 'g_string_append_c_inline'))
        m.hexbuf = True
        analyse(p, f, m, K=4, policy=lambda *a: False)
        if m.n:
            m.n = 0
            a = analyse(p, f, m, K=200, policy=same_tu())
            esc.append(f)
            ctx.take(a, 'accesslog')
            ctx.ok('accesslog', f.loc())
    ctx.floor('escape_functions', len(esc), 1)
    called = {callee_name(i) for f in fs for i in f.calls()}
    n = [0, 0]
    for f in fs:
        if f.name in called and f.key not in p.addr_taken() or f in esc:
            continue
        m = Log(p, src - {('liRequestUri', 'host')}, {}, [e.name for e in esc])
        a = analyse(p, f, m, K=4, policy=same_tu(opaque=tuple(e.name for e in esc)), purecalls=LOGS)
        ctx.take(a, 'accesslog')
        n = [n[0] + m.nesc, n[1] + m.nraw]
    ctx.ok('accesslog', AL)
    ctx.floor('escaped_texts', n[0], 8)
    ctx.floor('log_writes', n[1], 20)
    # directory listings
    n = [0, 0]
    for f in fns_in(p, 'src/modules/mod_dirlist.c'):
        m = Listing(p)
        a = analyse(p, f, m, K=8, policy=same_tu(opaque=('try_append_file', 'dirlist_format_size')), purecalls=LOGS)
        ctx.take(a, 'listing')
        n = [n[0] + m.n, n[1] + m.ni]
    ctx.ok('listing', 'src/modules/mod_dirlist.c')
    ctx.floor('listed_entries', n[0], 2)
    ctx.floor('included_files', n[1], 2)
    # JSONP
    n = 0
    for f in fns_in(p, 'src/modules/mod_progress.c'):
        m = Callback(p)
        ctx.take(analyse(p, f, m, K=24, purecalls=LOGS), 'callback')
        n += m.n
    ctx.ok('callback', 'src/modules/mod_progress.c')
    ctx.floor('callback_names', n, 1)
