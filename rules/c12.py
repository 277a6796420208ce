"""C12: files are delivered exactly as announced"""
from common import *
from c10 import mentions, action_table
from c11 import bare

S_IFREG, S_IFMT = 0o100000, 0o170000
APPEND = {'li_chunkqueue_append_chunkfile': (2, 3), 'li_chunkqueue_append_file_fd': (2, 3), 'li_chunkqueue_append_tempfile_fd': (2, 3)}
INT64MAX = (1 << 63) - 1


class Serve(Rule):
    """functions that send a file they opened"""
    joins = True

    def __init__(self, p, http=False, action=True):
        self.p, self.http, self.action = p, http, action
        E = p.enum
        self.GO, self.ERR, self.WAIT = E('LI_HANDLER_GO_ON'), E('LI_HANDLER_ERROR'), E('LI_HANDLER_WAIT_FOR_EVENT')
        self.R = {E('LI_PARSE_HTTP_RANGE_' + k): k for k in ('OK', 'DONE', 'INVALID', 'NOT_SATISFIABLE')}
        self.METH = {E('LI_HTTP_METHOD_GET'), E('LI_HTTP_METHOD_HEAD')}
        self.na = self.nf = self.nr = self.nc = 0

    def start(self, st, fn, ai):
        set_ps(st, stat=None, reg=None, fd=None, cf=None, status=None, sent=None, rr=None, cr=None, cach=None, closed=None, excl=None, meth=False, okseen=False)

    def join(self, r, s, va, a, vb, b):
        for m in a.marks:
            if len(m) == 2 and m[1] is va and (m[0], vb) in b.marks:
                r.mark(m[0], s)
        for k in ('ge', 'le'):
            if all(isconst(v) and v == 0 or self.bound(t, k, v) for v, t in ((va, a), (vb, b))) and isinstance(s, V):
                r.mark(k, s)

    def bound(self, st, k, v):
        if (k, v) in st.marks:
            return True
        if k == 'ge':
            return st.rng(v)[0] >= 0
        return isinstance(v, V) and any(m[0] == 'size' and st.evalcmp('sle', v, m[1]) is True for m in st.marks)

    def is_(self, st, k, v):
        v = bare(v)
        return isinstance(v, V) and (k, v) in st.marks

    def result(self, st, v):
        c = st.const(v)
        lo, hi, ne = st.rng(v)
        return c if c is not None else self.GO if all(x < lo or x > hi or x in ne for x in (self.ERR, self.WAIT)) else None   # COMEBACK is never returned (rule 'status')

    def look(self, st):
        if get_ps(st, 'stat') == '?':
            for m in st.marks:
                c = self.result(st, m[1]) if m[0] == 'statres' else None
                if c is not None:
                    set_ps(st, stat=c, fd='open' if get_ps(st, 'fd') == '?' and c == self.GO else None if get_ps(st, 'fd') == '?' else get_ps(st, 'fd'))
        if get_ps(st, 'rr') == '?':
            for m in st.marks:
                if m[0] == 'rres' and st.const(m[1]) in self.R:
                    set_ps(st, rr=self.R[st.const(m[1])], okseen=get_ps(st, 'okseen') or self.R[st.const(m[1])] == 'OK')
        if get_ps(st, 'cach') == '?':
            for m in st.marks:
                if m[0] == 'cachptr':
                    x = st.mem.get(m[1])
                    if x is not None and (st.const(x) == 0 or st.nonzero(x)):
                        set_ps(st, cach=bool(st.nonzero(x)))

    def branch(self, st, ins, cond, truth, ai):
        self.look(st)
        if get_ps(st, 'stat') == self.GO and any(m[0] == 'fd' and st.const(m[1]) == -1 for m in st.marks):
            return False        # a successful li_stat_cache_get opened the file (rule 'status')
        if get_ps(st, 'rr') == 'DONE' and not get_ps(st, 'okseen'):
            return False        # done without a valid range is impossible (rule 'ranges')
        c, t = cond, truth
        while isinstance(c, V) and c.k == 'bool' and c.a[0] == 'not':
            c, t = c.a[1], not t
        sizes = [m[1] for m in st.marks if m[0] == 'size']
        if isinstance(c, V) and c.k == 'cmp':
            for x, y in ((c.a[1], c.a[2]), (c.a[2], c.a[1])):
                if isinstance(x, V) and y in sizes:
                    st.mark('cand', x)
                    track(st, x)
        for m in [m for m in st.marks if m[0] == 'cand']:
            for k in ('ge', 'le'):
                if self.bound(st, k, m[1]):
                    st.mark(k, m[1])
        for m in st.marks:
            if m[0] == 'meth' and st.const(m[1]) in self.METH:
                set_ps(st, meth=True)
        if isinstance(c, V) and c.k == 'cmp' and c.a[0] in ('eq', 'ne') and isconst(c.a[2]) and any(m[0] == 'mode' and contains(c.a[1], m[1]) for m in st.marks):
            if c.a[2] == S_IFREG and (c.a[0] == 'eq') == t:
                set_ps(st, reg=True)
        for m in [m for m in st.marks if m[0] == 'suffix']:
            if st.nonzero(m[1]):
                set_ps(st, excl=True)
            if st.nonzero(m[1]) or st.const(m[1]) == 0:
                st.unmark(*m)
                st.tracked = st.tracked - m[1].syms

    def load(self, st, ins, addr, val, ai):
        if not isinstance(val, V) or not isinstance(addr, V):
            return
        if addr.k == 'fld':
            k = {'st_size': 'size', 'st_mode': 'mode', 'range_start': 'rstart', 'range_end': 'rend', 'range_length': 'rlen', 'http_method': 'meth'}.get(addr.a[2])
            if k:
                st.mark(k, val)
                track(st, val)
        if ('fdptr', addr) in st.marks:
            st.mark('fd', val)

    def store(self, st, ins, addr, val, ai):
        if addr.k == 'fld' and addr.a[2] == 'http_status' and mentions(addr, 'response') and isconst(val):
            set_ps(st, status=val)
            if val == 304:
                self.look(st)
                if get_ps(st, 'cach') is not True:
                    ai.report(st, ins, '304 is sent although the client\'s copy was not found current')
        if addr.k == 'fld' and addr.a[2] == 'is_closed' and isconst(val):
            set_ps(st, closed=bool(val))
        if self.is_(st, 'fd', val) and addr.k == 'fld' and get_ps(st, 'fd') == 'open':
            set_ps(st, fd='held')

    def own(self, st, ins, ai):
        s = get_ps(st, 'fd')
        if s in ('closed', 'owned'):
            ai.report(st, ins, 'a file descriptor is used after it was given away')
        set_ps(st, fd='owned')

    def call(self, st, ins, name, args, ai):
        self.look(st)
        if name in ('li_stat_cache_get', 'li_stat_cache_get_sync'):
            for m in [m for m in st.marks if m[0] in ('size', 'mode', 'fd', 'statres', 'fdptr')]:
                st.unmark(*m)
                st.tracked = st.tracked - m[1].syms
            wfd = not (isconst(args[4]) and args[4] == 0)
            if wfd:
                st.mark('fdptr', args[4])
                self.nf += 1
            set_ps(st, stat='?', reg=None, fd='?' if wfd else None)
        elif name == 'close' and self.is_(st, 'fd', args[0]):
            if get_ps(st, 'fd') in ('closed', 'owned'):
                ai.report(st, ins, 'a file descriptor is closed twice')
            set_ps(st, fd='closed')
        elif name in ('li_chunkfile_new',) and self.is_(st, 'fd', args[1]):
            self.own(st, ins, ai)
        elif name == 'li_chunkfile_release':
            if get_ps(st, 'cf') == 'released':
                ai.report(st, ins, 'a file is released twice')
            set_ps(st, cf='released')
        elif name == 'lua_error':
            if get_ps(st, 'fd') == 'open':
                ai.report(st, ins, 'an opened file is neither sent nor closed')
            return False
        elif name == 'li_etag_set_header':
            if not (isconst(args[2]) and args[2] == 0):
                st.mark('cachptr', args[2])
                set_ps(st, cach='?')
        elif name == 'li_parse_http_range_init':
            if not self.is_(st, 'size', args[2]):
                ai.report(st, ins, 'ranges are computed for another length than that of the file')
        elif name == 'li_parse_http_range_next':
            for m in [m for m in st.marks if m[0] in ('rres', 'rstart', 'rend', 'rlen')]:
                st.unmark(*m)
                st.tracked = st.tracked - m[1].syms
            set_ps(st, rr='?', cr=None)
        elif name in ('g_string_printf', 'g_string_append_printf'):
            f = const_arg_str(args[1])
            if f and f.startswith('bytes %'):
                self.nc += 1
                if [k for k, a in zip(('rstart', 'rend', 'size'), args[2:5]) if not self.is_(st, k, a)] or f.split('\0')[0] not in ('bytes %li-%li/%li', 'bytes %ld-%ld/%ld'):
                    ai.report(st, ins, 'the announced range is not the one of the data')
                else:
                    set_ps(st, cr='text')
                    st.mark('crt', args[0])
            elif f and f.startswith('bytes */'):
                self.nc += 1
                if not self.is_(st, 'size', args[2]):
                    ai.report(st, ins, 'the announced length is not that of the file')
            elif f and 'Content-Range: %s' in f and get_ps(st, 'cr') == 'text':
                set_ps(st, cr='part')
            elif name == 'g_string_printf' and ('crt', args[0]) in st.marks and get_ps(st, 'cr') == 'text':
                set_ps(st, cr=None)
        elif name == 'li_http_header_overwrite' and const_arg_str(args[1]) and const_arg_str(args[1]).lower().startswith('content-range') and get_ps(st, 'cr') == 'text':
            set_ps(st, cr='header')
        elif name == 'li_chunkqueue_reset':
            set_ps(st, sent=None, closed=False)
        elif name in APPEND:
            self.append(st, ins, name, args, ai)

    def append(self, st, ins, name, args, ai):
        self.na += 1
        i, j = APPEND[name]
        s0, ln = args[i], args[j]
        if name.endswith('_fd'):
            if self.is_(st, 'fd', args[4]):
                self.own(st, ins, ai)
        elif get_ps(st, 'cf') == 'released':
            ai.report(st, ins, 'a file is sent after it was released')
        if get_ps(st, 'stat') != self.GO or self.action and not get_ps(st, 'reg'):
            ai.report(st, ins, 'something else than a regular file that could be opened is sent')
        if get_ps(st, 'cach') not in (None, False):
            ai.report(st, ins, 'the file is sent although the client\'s copy is current')
        if get_ps(st, 'excl'):
            ai.report(st, ins, 'a file with an excluded extension is sent')
        if self.http:
            if not get_ps(st, 'meth'):
                ai.report(st, ins, 'a file is sent for another method than GET and HEAD')
        if self.is_(st, 'rstart', s0) or self.is_(st, 'rlen', ln):
            self.nr += 1
            if not self.is_(st, 'rstart', s0) or not self.is_(st, 'rlen', ln) or get_ps(st, 'rr') != 'OK':
                ai.report(st, ins, 'the data sent are not the requested range')
            elif get_ps(st, 'cr') not in ('header', 'part'):
                ai.report(st, ins, 'a range is sent without announcing it')
            if get_ps(st, 'sent') == 'whole':
                ai.report(st, ins, 'a range is sent after the whole file')
            set_ps(st, sent='range')
            return
        ok = False
        if any(st.evalcmp('sle', ln, add(m[1], s0, -1)) is True for m in st.marks if m[0] == 'size') and st.rng(ln)[0] >= 0 and st.rng(s0)[0] >= 0:
            ok = True
        elif isconst(s0) and s0 == 0:
            ok = self.is_(st, 'size', ln)
        else:
            tot = add(ln, s0)
            ok = self.is_(st, 'size', tot) and self.bound(st, 'ge', s0) and (self.bound(st, 'le', s0) or st.evalcmp('sle', s0, tot) is True)
        if not ok:
            ai.report(st, ins, 'the part of the file that is sent is not within the file')
        if get_ps(st, 'sent') == 'range':
            ai.report(st, ins, 'the whole file is sent after parts of it')
        set_ps(st, sent='whole')

    def post_call(self, st, ins, name, args, res, ai):
        if not isinstance(res, V):
            return
        if name in ('li_stat_cache_get', 'li_stat_cache_get_sync'):
            st.mark('statres', res)
            track(st, res)
        elif name == 'li_parse_http_range_next':
            st.mark('rres', res)
            track(st, res)
        elif name == 'li_chunkfile_new':
            set_ps(st, cf='live')
        elif name == 'li_string_suffix':
            st.mark('suffix', res)
            track(st, res)
        elif name == 'g_string_sized_new':
            pass

    def ret(self, st, ins, val, ai):
        self.look(st)
        if get_ps(st, 'fd') == 'open':
            ai.report(st, ins, 'an opened file is neither sent nor closed')
        if get_ps(st, 'cf') == 'live':
            ai.report(st, ins, 'a file is never released')
        s, c, rr = get_ps(st, 'sent'), get_ps(st, 'status'), get_ps(st, 'rr')
        if not self.http or get_ps(st, 'stat') != self.GO:
            return
        if s == 'whole' and c != 200 or s == 'range' and c != 206:
            ai.report(st, ins, 'the status does not tell whether the whole file or a part is sent')
        if rr == 'DONE' and s != 'range':
            ai.report(st, ins, 'satisfiable ranges are not sent')
        if rr == 'INVALID' and s != 'whole':
            ai.report(st, ins, 'a request with an invalid range does not get the file')
        if rr == 'NOT_SATISFIABLE' and (c != 416 or s):
            ai.report(st, ins, 'ranges outside of the file are not refused')
        if s and get_ps(st, 'closed') is False:
            ai.report(st, ins, 'the end of the response is not marked')
        if get_ps(st, 'reg') and not s and rr is None and c not in (304,) and not (isconst(val) and val == self.ERR):
            ai.report(st, ins, 'a file is not sent')


class Ranges(Rule):
    """the range parser"""
    def __init__(self, p):
        self.OK, self.DONE, self.NOT = [p.enum('LI_PARSE_HTTP_RANGE_' + k) for k in ('OK', 'DONE', 'NOT_SATISFIABLE')]
        self.n = self.nv = 0
        self.S = 'liParseHttpRangeState'

    def get(self, st, f):
        for a, x in st.mem.items():
            if a.k == 'fld' and a.a[2] == f:
                return x
        for m in st.marks:
            if m[0] == 'lim' and f == 'limit':
                return m[1]
        return None

    def load(self, st, ins, addr, val, ai):
        if isinstance(addr, V) and addr.k == 'fld' and addr.a[2] == 'limit' and isinstance(val, V):
            st.mark('lim', val)

    joins = True

    def arith(self, st, ins, op, a, b, ai):
        if op in ('mul', 'shl') and isconst(a) != isconst(b):
            x, c = (a, b) if isconst(b) else (b, a)
            c = 1 << c if op == 'shl' else c
            self.nv += c in (8, 10, 16)
            if c in (8, 10, 16) and not st.rng(x)[1] * c + c - 1 <= INT64MAX:
                ai.report(st, ins, 'the number of a range may overflow')

    def below(self, st, v):
        lim = self.get(st, 'limit')
        return lim is not None and isinstance(v, V) and (add(v, lim, -1) == -1 or ('below', v) in st.marks or st.evalcmp('slt', v, lim) is True)

    def join(self, r, s, va, a, vb, b):
        if self.below(a, va) and self.below(b, vb):
            r.mark('below', s)

    def ret(self, st, ins, val, ai):
        c = st.const(val)
        if c == self.OK:
            self.n += 1
            s, e, l, lim = [self.get(st, f) for f in ('range_start', 'range_end', 'range_length', 'limit')]
            if None in (s, e, l, lim):
                ai.report(st, ins, 'a range is reported without its bounds')
                return
            if st.rng(s)[0] < 0:
                ai.report(st, ins, 'a range may start before the file')
            if st.evalcmp('sle', s, e) is not True:
                ai.report(st, ins, 'a range may end before its start')
            if not self.below(st, e):
                ai.report(st, ins, 'a range may extend beyond the file')
            if add(add(l, e, -1), s) != 1:
                ai.report(st, ins, 'the length of a range is not end - start + 1')
            f = self.get(st, 'found_valid_range')
            if f is None or not st.nonzero(f):
                ai.report(st, ins, 'a valid range is not remembered')
        elif c in (self.DONE, self.NOT):
            f = self.get(st, 'found_valid_range')
            if f is None or (st.nonzero(f) if c == self.NOT else st.const(f) == 0) or (not st.nonzero(f) if c == self.DONE else st.const(f) != 0):
                ai.report(st, ins, 'the result does not tell whether a range was found')


class Cach(Rule):
    """conditional requests: combination of the two validators"""
    def __init__(self, p):
        self.T, self.F, self.M = [p.enum('LI_TRI' + k) for k in ('TRUE', 'FALSE', 'MAYBE')]
        self.n = self.ne = 0

    def start(self, st, fn, ai):
        set_ps(st, etag=None, mod=None, neg=frozenset(), app=frozenset())
        self.fn = fn

    def load(self, st, ins, addr, val, ai):
        if isinstance(val, V) and isinstance(addr, V) and addr.k == 'fld':
            for c, f in ((1, 'st_ino'), (4, 'st_size'), (2, 'st_mtim')):
                if mentions(addr, f) and not mentions(addr, 'tv_nsec'):
                    st.mark('part', c, val)

    def call(self, st, ins, name, args, ai):
        if name == 'li_string_append_int':
            for m in st.marks:
                if m[0] == 'part' and m[2] is bare(args[1]):
                    set_ps(st, app=get_ps(st, 'app') | {m[1]})
        elif name in ('g_string_truncate', 'g_string_assign'):
            set_ps(st, app=frozenset())
        elif name == 'li_http_header_overwrite' and const_arg_str(args[1]) and const_arg_str(args[1]).lower().startswith('etag'):
            self.ne += 1
            if {1, 2, 4} - get_ps(st, 'neg') - get_ps(st, 'app'):
                ai.report(st, ins, 'the entity tag does not cover what etag.use says')

    def look(self, st):
        for m in st.marks:
            if m[0] == 'tri' and get_ps(st, m[1]) is None and st.const(m[2]) is not None:
                set_ps(st, **{m[1]: st.const(m[2])})

    def branch(self, st, ins, cond, truth, ai):
        self.look(st)
        c = cond
        while isinstance(c, V) and c.k in ('cmp', 'bool'):
            c = c.a[1]
        if isinstance(c, V) and c.k == 'and' and isconst(c.a[1]) and c.a[1] in (1, 2, 4) and st.const(c) == 0:
            set_ps(st, neg=get_ps(st, 'neg') | {c.a[1]})

    def post_call(self, st, ins, name, args, res, ai):
        for k, n in (('etag', 'li_http_response_handle_cachable_etag'), ('mod', 'li_http_response_handle_cachable_modified')):
            if name == n and isinstance(res, V):
                st.mark('tri', k, res)
                track(st, res)
                set_ps(st, **{k: None})

    def ret(self, st, ins, val, ai):
        self.look(st)
        if isinstance(val, V) or isconst(val):
            x = val
        if val is None:
            p = ai.val(st, '$2')
            if not isinstance(p, V) or st.const(p) == 0:
                return
            x = st.mem.get(p)
            if x is None:
                if st.nonzero(p):
                    ai.report(st, ins, 'the result of a conditional request is not set')
                return
        self.n += 1
        t = st.truth(x) if isinstance(x, V) else bool(x)
        r = [get_ps(st, 'etag'), get_ps(st, 'mod')]
        want = self.F not in r and self.T in r
        if t is None or (t and not want):
            ai.report(st, ins, 'a copy counts as current although a validator of the request does not match')
        elif not t and want and None not in r:
            ai.report(st, ins, 'a copy that matches the validators of the request is sent again')


class Etag(Rule):
    """If-None-Match"""
    def __init__(self, p):
        self.T, self.F, self.M = [p.enum('LI_TRI' + k) for k in ('TRUE', 'FALSE', 'MAYBE')]
        self.n = self.nt = 0

    def start(self, st, fn, ai):
        set_ps(st, seen=False, hit=False)

    def look(self, st):
        for m in list(st.marks):
            if m[0] == 'hdr' and st.nonzero(m[1]):
                set_ps(st, seen=True)
                st.unmark(*m)
            elif m[0] == 'sub' and st.nonzero(m[1]):
                set_ps(st, hit=True)
                st.unmark(*m)
            elif m[0] == 'cmp0' and st.const(m[1]) == 0:
                set_ps(st, hit=True)
                st.unmark(*m)

    def branch(self, st, ins, cond, truth, ai):
        self.look(st)

    def post_call(self, st, ins, name, args, res, ai):
        if not isinstance(res, V):
            return
        if name == 'li_http_header_find_first' and const_arg_str(args[1]) and const_arg_str(args[1]).lower().startswith(('if-none-match', 'if-modified-since')):
            st.mark('hdr', res)
            track(st, res)
        elif name in ('strstr', 'g_strrstr', 'g_strstr_len'):
            st.mark('sub', res)
            track(st, res)
        elif name in ('strcmp', 'g_strcmp0'):
            st.mark('cmp0', res)
            track(st, res)

    def ret(self, st, ins, val, ai):
        self.look(st)
        c = st.const(val)
        self.n += 1
        if c == self.T:
            self.nt += 1
            if not get_ps(st, 'hit'):
                ai.report(st, ins, 'If-None-Match matches without containing the entity tag')
        elif c == self.M:
            if get_ps(st, 'seen'):
                ai.report(st, ins, 'an If-None-Match header that does not match is ignored')
        elif c == self.F:
            if get_ps(st, 'hit'):
                ai.report(st, ins, 'a matching If-None-Match header counts as mismatch')
        else:
            ai.report(st, ins, 'the result of If-None-Match is undefined')


class Modified(Etag):
    """If-Modified-Since"""
    def start(self, st, fn, ai):
        set_ps(st, seen=False, hit=False, eq=None, end=False, old=False)

    def look(self, st):
        super().look(st)
        for m in list(st.marks):
            if m[0] == 'ncmp' and st.const(m[1]) == 0:
                set_ps(st, eq=True)
            elif m[0] == 'endc' and get_ps(st, 'eq') and st.const(m[1]) in (0, ord(';')):
                set_ps(st, end=True)
        if not get_ps(st, 'old'):
            hd = [m[1] for m in st.marks if m[0] == 'thead']
            fi = [m[1] for m in st.marks if m[0] == 'tfile']
            if hd and fi and st.evalcmp('sle', fi[0], hd[0]) is True:
                set_ps(st, old=True)

    def load(self, st, ins, addr, val, ai):
        if isinstance(val, V) and get_ps(st, 'eq') and isinstance(addr, V) and addr.k in ('idx', 'sum', 'off'):
            for m in [m for m in st.marks if m[0] == 'endc']:
                st.unmark(*m)
            st.mark('endc', val)
            track(st, val)

    def post_call(self, st, ins, name, args, res, ai):
        super().post_call(st, ins, name, args, res, ai)
        if not isinstance(res, V):
            return
        if name == 'strncmp':
            st.mark('ncmp', res)
            track(st, res)
        elif name == 'mktime' or name == 'timegm':
            k = 'tfile' if any(m[0] == 'thead' for m in st.marks) else 'thead'
            st.mark(k, res)
            track(st, res)

    def ret(self, st, ins, val, ai):
        self.look(st)
        self.n += 1
        cases = [st.const(val)]
        if cases[0] is None:
            cases = None
        if cases is None:
            ai.report(st, ins, 'the result of If-Modified-Since is undefined')
        elif cases[0] == self.T:
            self.nt += 1
            if not (get_ps(st, 'eq') and get_ps(st, 'end') or get_ps(st, 'old')):
                ai.report(st, ins, 'If-Modified-Since matches although the file may be newer')
        elif cases[0] == self.M and get_ps(st, 'seen'):
            ai.report(st, ins, 'an If-Modified-Since header that does not match is ignored')


class Stat(Rule):
    """li_stat_cache_get: success means the returned status belongs to the file returned"""
    def __init__(self, p):
        self.GO, self.ERR = p.enum('LI_HANDLER_GO_ON'), p.enum('LI_HANDLER_ERROR')
        self.n = 0

    def start(self, st, fn, ai):
        set_ps(st, fd=None, sres=None)

    def look(self, st):
        for m in list(st.marks):
            if m[0] == 'open':
                c = st.const(m[1])
                if c == -1:
                    set_ps(st, fd='none')
                    st.unmark(*m)
                elif get_ps(st, 'fd') == '?' and (-1 in st.rng(m[1])[2] or st.rng(m[1])[0] > -1):
                    set_ps(st, fd='open')
            elif m[0] == 'stat':
                if st.const(m[1]) == 0 or -1 in st.rng(m[1])[2]:
                    set_ps(st, sres='ok')
                elif st.const(m[1]) == -1:
                    set_ps(st, sres='failed')

    def branch(self, st, ins, cond, truth, ai):
        self.look(st)

    def call(self, st, ins, name, args, ai):
        self.look(st)
        if name == 'close':
            set_ps(st, fd='closed')

    def post_call(self, st, ins, name, args, res, ai):
        if not isinstance(res, V):
            return
        if name in ('open', 'open64', 'openat'):
            fl = args[2 if name == 'openat' else 1]
            if not (isconst(fl) and fl & 0o4000):
                ai.report(st, ins, 'opening something else than a regular file may block')
            st.mark('open', res)
            track(st, res)
            set_ps(st, fd='?')
        elif name in ('fstat', 'stat', 'lstat', 'fstat64', 'stat64', 'lstat64'):
            if name.startswith('fstat') and get_ps(st, 'fd') != 'open':
                ai.report(st, ins, 'the status of a file that was not opened is used')
            if not name.startswith('fstat') and get_ps(st, 'fd') is not None:
                ai.report(st, ins, 'status and contents may belong to different files')
            st.mark('stat', res)
            track(st, res)
            set_ps(st, sres='?')

    def ret(self, st, ins, val, ai):
        self.look(st)
        self.n += 1
        c, fd, s = st.const(val), get_ps(st, 'fd'), get_ps(st, 'sres')
        if c == self.GO:
            if s != 'ok':
                ai.report(st, ins, 'success is reported without the status of the file')
            if fd not in (None, 'open'):
                ai.report(st, ins, 'success is reported without an open file')
        elif c == self.ERR:
            if fd in ('open', '?'):
                ai.report(st, ins, 'a file stays open after a failure')
            p = ai.val(st, '$4')
            x = st.mem.get(p)
            if fd == 'closed' and (x is None or st.const(x) != -1):
                ai.report(st, ins, 'a closed file descriptor is left behind after a failure')


def check(ctx):
    p = prog()
    ctx.rule('files', 'every function that opens a file for a response: only regular files that could be opened are sent, whole or the range just announced, within the file; the status matches; the descriptor is sent or closed exactly once; excluded extensions, other methods and current copies get no file')
    ctx.rule('ranges', 'range parser: 0 <= start <= end < length and length = end - start + 1 for every reported range, no overflow, "done" only after a valid range')
    ctx.rule('conditional', 'a copy counts as current only if no validator of the request mismatches and at least one matches; If-None-Match needs the entity tag, If-Modified-Since the same or a later date')
    ctx.rule('status', 'li_stat_cache_get reports success only with the status of the very file it opened, and leaves nothing open on failure')
    users = []
    for f in p.fns.values():
        ns = {callee_name(i) for i in f.calls()}
        if ns & set(APPEND) and ns & {'li_stat_cache_get', 'li_stat_cache_get_sync'}:
            users.append(f)
    core = action_table(p, 'src/main/plugin_core.c')
    tot = [0, 0, 0, 0]
    http = set()
    for n in ('static', 'static_no_fail'):
        g = core.get(n)
        ctx.need(g is not None, 'action %s not found' % n)
        for i in g.calls():
            if callee_name(i) == 'li_action_new_function':
                t = fn_values(p, i.a[0], g.tu)
                if t:
                    http.add(t.key)
    for f in sorted(users + [p.fns[k] for k in http if p.fns[k] not in users], key=lambda f: f.key):
        m = Serve(p, f.key in http, not f.name.lstrip('_').startswith('lua'))
        ctx.take(analyse(p, f, m, K=6 if f.key in http else 24, purecalls=LOGS, policy=same_tu(), keepfields=[('cache_etag_file', 'hit_length'), ('cache_etag_file', 'hit_fd')]), 'files')
        ctx.ok('files', f.loc())
        tot = [a + b for a, b in zip(tot, (m.na, m.nf, m.nr, m.nc))]
        if f.key in http:
            ctx.floor('ranges_sent', m.nr, 2)
            ctx.floor('announcements', m.nc, 2)
    ctx.floor('file_senders', len(users), 3)
    ctx.floor('sends', tot[0], 4)
    f = p.fn('li_parse_http_range_next')
    ctx.need(f is not None, 'range parser not found')
    m = Ranges(p)
    ctx.take(analyse(p, f, m, K=6, purecalls=LOGS), 'ranges')
    ctx.floor('range_results', m.n, 1)
    ctx.floor('range_numbers', m.nv, 3)
    ctx.ok('ranges', f.loc())
    for n, c in (('li_etag_set_header', Cach), ('li_http_response_handle_cachable', Cach), ('li_http_response_handle_cachable_etag', Etag), ('li_http_response_handle_cachable_modified', Modified)):
        f = p.fn(n)
        ctx.need(f is not None, n + ' not found')
        m = c(p)
        ctx.take(analyse(p, f, m, K=24, purecalls=LOGS - {'li_http_header_find_first'}, policy=same_tu(opaque=('li_http_response_handle_cachable_etag', 'li_http_response_handle_cachable_modified', 'li_etag_mutate'))), 'conditional')
        ctx.floor(n, m.n, 1)
        if n == 'li_etag_set_header':
            ctx.floor('etags', m.ne, 1)
        ctx.ok('conditional', f.loc())
    f = p.fn('li_stat_cache_get')
    ctx.need(f is not None, 'li_stat_cache_get not found')
    m = Stat(p)
    ctx.take(analyse(p, f, m, K=24, purecalls=LOGS), 'status')
    ctx.floor('stat_results', m.n, 3)
    ctx.ok('status', f.loc())
