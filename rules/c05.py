"""C05 request bodies are delimited exactly and decoded exactly"""
from common import *
from absint import NEG, SWAP

EXPLAIN = ('(a) Path-sensitive interpretation of the client input callback: how many raw bytes may move into the request body. (b) Product of the '
           'chunked decoder with an independent automaton of the chunked coding: entry states are inferred by iterating the analysis over the '
           'decoder states it can be suspended in, until no new (decoder state, grammar state) pair appears.')

DS = 'liFilterChunkedDecodeState'


class Body(Rule):
    def __init__(self, p):
        self.p = p
        self.UP = p.enum('LI_CON_STATE_UPGRADED')
        self.HEAD = p.enum('LI_CON_STATE_READ_REQUEST_HEADER')
        self.n = self.nc = self.nclose = 0

    def start(self, st, fn, ai):
        set_ps(st, dec=None)

    def is_body(self, st, q):
        """q is the request body queue (con->in.out)"""
        if not isinstance(q, V):
            return False
        if q.k == 'init':
            return fkey(q.a[0]) == ('liStream', 'out') and is_fld(q.a[0].a[0], 'liConnection', 'in')
        return any(x is q and is_fld(a.a[0], 'liConnection', 'in') for a, x in mem_of(st, 'liStream', 'out'))

    def cur(self, st, S, f, base=None):
        return [x for a, x in mem_of(st, S, f) if base is None or a.a[0] is base]

    def reading(self, st, ins, ai, what):
        s = self.cur(st, 'liConnection', 'state')
        if not s or any(st.rng(x)[0] <= self.HEAD <= st.rng(x)[1] and self.HEAD not in st.rng(x)[2] for x in s):
            ai.report(st, ins, '%s while the request head may not be complete' % what)

    def call(self, st, ins, name, args, ai):
        if name == 'li_filter_chunked_decode' and self.is_body(st, args[1]):
            self.nc += 1
            cl = self.cur(st, 'liRequest', 'content_length')
            if not cl or any(st.const(x) != -1 for x in cl):
                ai.report(st, ins, 'a body with announced length is decoded as chunked')
            self.reading(st, ins, ai, 'body bytes are decoded')
            if not any(st.const(x) == 0 for x in self.cur(st, 'liChunkQueue', 'is_closed', args[1])):
                ai.report(st, ins, 'bytes after the end of the body may be decoded as body')
        elif name and name.startswith('li_chunkqueue_steal') and self.is_body(st, args[0]):
            s = self.cur(st, 'liConnection', 'state')
            if s and all(st.const(x) == self.UP for x in s):
                return
            self.n += 1
            self.reading(st, ins, ai, 'body bytes are taken')
            if name != 'li_chunkqueue_steal_len':
                ai.report(st, ins, 'unlimited bytes are taken from the connection as request body')
                return
            cl = self.cur(st, 'liRequest', 'content_length')
            bi = self.cur(st, 'liChunkQueue', 'bytes_in', args[0])
            ok = False
            for x in cl:
                for y in bi:
                    d = add(add(x, y, -1), args[2], -1)
                    if d == 0:
                        ok = True
                    if isconst(args[2]) is False and isinstance(args[2], V) and args[2].k in ('select', 'sym'):
                        pass
            if not ok:
                ai.report(st, ins, 'the number of body bytes taken is not the announced length minus what was already received')
            if not cl or any(-1 not in st.rng(x)[2] and st.rng(x)[0] <= -1 <= st.rng(x)[1] for x in cl):
                ai.report(st, ins, 'a chunked body may be read as plain bytes')
        elif name in ('li_connection_error', 'li_connection_reset') and get_ps(st, 'dec') is not None:
            set_ps(st, dec=None)

    def post_call(self, st, ins, name, args, res, ai):
        if name == 'li_filter_chunked_decode' and self.is_body(st, args[1]):
            track(st, res)
            set_ps(st, dec=res)

    def store(self, st, ins, addr, val, ai):
        if is_fld(addr, 'liChunkQueue', 'is_closed') and self.is_body(st, addr.a[0]) and st.const(val) != 0:
            self.nclose += 1
            ok = False
            if st.const(val) is None:
                # closed = (condition)
                st = st.copy()
                while isinstance(val, V) and val.k in ('u', 'z', 'zext', 'trunc', 's', 'sext') and isinstance(val.a[0], V):
                    val = val.a[0]
                if not st.assume(val, True):
                    return
            for x in self.cur(st, 'liRequest', 'content_length'):
                for y in self.cur(st, 'liChunkQueue', 'bytes_in', addr.a[0]):
                    if st.evalcmp('eq', x, y) or st.evalcmp('eq', y, x) or st.evalcmp('sge', y, x) or st.evalcmp('sle', x, y):
                        ok = True
            if not ok:
                ai.report(st, ins, 'the request body is declared complete without having the announced length')

    def ret(self, st, ins, val, ai):
        d = get_ps(st, 'dec')
        if d is not None and not st.nonzero(d):
            ai.report(st, ins, 'an undecodable chunked body does not end the connection')


# --------------------------------------------------------------- chunked grammar
# L0 first digit, L1 further digit or CR, LF line feed after the length, D data, C CR after data, E LF after data,
# T start of a trailer line, X inside a trailer line, Y CR seen inside a trailer line, Z CR of the empty line, END, ERR, ANY (extension: unspecified)
DIG = [(48, 57, -48), (97, 102, -87), (65, 70, -55)]


def classes():
    ev = sorted({-128, 128} | {x for lo, hi, k in DIG for x in (lo, hi + 1)} | {9, 10, 11, 13, 14, 32, 33, 59, 60})
    return [(a, b - 1) for a, b in zip(ev, ev[1:])]


CLS = classes()


def step(s, c):
    """c: representative character"""
    dig = any(lo <= c <= hi for lo, hi, k in DIG)
    if s == 'ANY' or s == 'ERR':
        return s
    if s == 'L0':
        return 'L1' if dig else 'ERR'
    if s == 'L1':
        return 'L1' if dig else 'LF' if c == 13 else 'ANY' if c in (59, 32, 9) else 'ERR'
    if s == 'LF':
        return 'LEN' if c == 10 else 'ERR'
    if s == 'C':
        return 'E' if c == 13 else 'ERR'
    if s == 'E':
        return 'L0' if c == 10 else 'ERR'
    if s == 'T':
        return 'Z' if c == 13 else 'X'
    if s == 'X':
        return 'Y' if c == 13 else 'X'
    if s == 'Y':
        return 'T' if c == 10 else 'XY'
    if s == 'XY':
        return 'Y' if c == 13 else 'ANY'
    if s == 'Z':
        return 'END' if c == 10 else 'ANY'
    return 'ERR'        # reading on in D, LEN or after the end


def ccls(st, c):
    lo, hi, ne = st.rng(c)
    return frozenset(i for i, (a, b) in enumerate(CLS) if not (b < lo or a > hi or (a == b and a in ne)))


def isdig(i):
    return any(lo <= CLS[i][0] <= hi for lo, hi, k in DIG)


def lin2(v):
    """linear form, looking through multiplication and shifts by constants (and x<<4 | digit)"""
    if not isinstance(v, V):
        return lin(v)
    if v.k == 'mul' and isconst(v.a[1]):
        c, d = lin2(v.a[0])
        return c * v.a[1], {x: n * v.a[1] for x, n in d.items()}
    if v.k == 'shl' and isconst(v.a[1]):
        c, d = lin2(v.a[0])
        return c << v.a[1], {x: n << v.a[1] for x, n in d.items()}
    if v.k == 'or':
        parts = v.a
    elif v.k == 'sum':
        c = v.a[0]
        out = {}
        for x, n in zip(v.a[1::2], v.a[2::2]):
            c2, d2 = lin2(x) if x.k in ('mul', 'shl', 'or') else (0, {x: 1})
            c += n * c2
            for y, m in d2.items():
                out[y] = out.get(y, 0) + n * m
        return c, {x: n for x, n in out.items() if n}
    else:
        return lin(v)
    c, out = 0, {}
    for x in parts:
        c2, d2 = lin2(x)
        c += c2
        for y, m in d2.items():
            out[y] = out.get(y, 0) + m
    return c, {x: n for x, n in out.items() if n}


CL = mk('sym', 'chunklen', 'chunk length')
BYTEREAD = ('alloca', 'g', 's')


class Dec(Rule):
    """ps: spec   set of grammar states after the committed characters
           c/cc   the character read last (pending) and the classes it may belong to
           upd    its digit was added to the chunk length;  over: it was refused because of the overflow bound
           cnt    the pending character was counted as consumed; pend: characters counted but not yet removed from the input
           gone   the input was shortened behind the parser's back (parser has to be reset before it is used again)"""

    def __init__(self, p, entry):
        self.p = p
        self.entry = entry
        self.exits = set()
        self.nchars = self.nsteal = self.nacc = self.nrej = self.nskip = 0
        self.GO = p.enum('LI_HANDLER_GO_ON')
        s = p.structs[DS]
        self.off = {f[0]: f[1] for f in s['fields']}
        self.sn = 'parse_state'
        self.ln = 'cur_chunklen'

    def addr(self, f):
        return mk('fld', mk('arg', 3), DS, f, self.off[f])

    def setcls(self, st, cls):
        st.purge(CL)
        st.mem[self.addr(self.ln)] = CL
        if cls == 'neg1':
            st.mem[self.addr(self.ln)] = -1
        elif cls == 'neg':
            st.setr(CL, -INF, -1, frozenset())
        elif cls == '0':
            st.mem[self.addr(self.ln)] = 0
        elif cls == '+':
            st.setr(CL, 1, (1 << 63) - 1, frozenset())
        elif cls == '0+':
            st.setr(CL, 0, (1 << 63) - 1, frozenset())

    def getcls(self, st):
        v = self.chunklen(st)
        lo, hi, ne = st.rng(v) if v is not None else (-INF, INF, frozenset())
        return 'neg1' if lo == hi == -1 else 'neg' if hi < 0 else '0' if lo == hi == 0 else '+' if lo > 0 or (lo >= 0 and 0 in ne) else '0+' if lo >= 0 else '?'

    def start(self, st, fn, ai):
        ps, cls, spec = self.entry
        st.mem[self.addr(self.sn)] = ps
        self.setcls(st, cls)
        set_ps(st, spec=frozenset(spec), S=ps, L=cls, c=None, cc=None, io=None, closed=False, upd=False, over=False, res=None, cnt=True, pend=False, gone=False)

    def chunklen(self, st):
        return st.mem.get(self.addr(self.ln))

    # a pending character is turned into a grammar step
    def commit(self, st, ins, ai):
        c = get_ps(st, 'c')
        spec = get_ps(st, 'spec')
        if c is not None:
            cc = get_ps(st, 'cc') & ccls(st, c)
            new = {step(s, CLS[i][0]) for s in spec for i in cc}
            if get_ps(st, 'over'):
                new = {'OVER'}
            elif spec & {'L0', 'L1'} and any(isdig(i) for i in cc) and not get_ps(st, 'upd'):
                ai.report(st, ins, 'a digit of the chunk length is ignored')
            if not get_ps(st, 'cnt'):
                ai.report(st, ins, 'a character is interpreted without being counted as consumed')
            spec = frozenset(new)
            st.tracked = st.tracked - c.syms
            if not isconst(self.chunklen(st)):
                cls = self.getcls(st)
                self.setcls(st, cls)
            set_ps(st, spec=spec, c=None, cc=None, old=None, upd=False, over=False, cnt=True, pend=True)
        if 'LEN' in spec or 'DL' in spec:
            v = self.chunklen(st)
            lo, hi, ne = st.rng(v) if v is not None else (-INF, INF, frozenset())
            new = set()
            for s in spec:
                if s == 'LEN':
                    if hi <= 0:
                        new.add('T')
                    elif lo > 0 or (0 in ne and lo >= 0):
                        new.add('D')
                    else:
                        new.add('LEN')
                elif s == 'DL':
                    if lo == hi == 0:
                        new.add('C')
                    elif lo > 0 or 0 in ne:
                        new.add('D')
                    else:
                        new.add('DL')
                else:
                    new.add(s)
            spec = frozenset(new)
            set_ps(st, spec=spec)
        set_ps(st, L=self.getcls(st))
        return spec

    def isread(self, ins, addr):
        return ins.ty == 'i8' and isinstance(addr, V) and fkey(addr) is None and addr.k not in BYTEREAD and not (isinstance(root(addr), V) and root(addr).k in BYTEREAD)

    def preload(self, st, ins, addr, ai):
        if self.isread(ins, addr):
            self.commit(st, ins, ai)
        elif addr is self.addr(self.sn) and get_ps(st, 'c') is not None:
            self.commit(st, ins, ai)       # dispatch on the decoder state: the character has been dealt with

    def load(self, st, ins, addr, val, ai):
        if self.isread(ins, addr):
            self.nchars += 1
            if get_ps(st, 'gone'):
                ai.report(st, ins, 'characters are read although the input was shortened and the parser not reset')
            # a fresh symbol per character
            s = mk('sym', ins.id, 'char@%s' % ins.line)
            if val is not s:
                st.purge(s)
                st.mem.pop(addr, None)
                st.env[ins.id] = s
            st.setr(s, -128, 127, frozenset())
            track(st, s)
            set_ps(st, c=s, cc=frozenset(range(len(CLS))), upd=False, over=False, cnt=False, old=self.chunklen(st))

    def branch(self, st, ins, cond, truth, ai):
        c = get_ps(st, 'c')
        if c is None:
            self.commit(st, ins, ai)
            return
        set_ps(st, cc=get_ps(st, 'cc') & ccls(st, c), L=self.getcls(st))
        if not get_ps(st, 'cc'):
            return False
        # the overflow bound: a comparison of a bound computed from the largest value with the length so far
        if isinstance(cond, V) and cond.k == 'cmp' and get_ps(st, 'spec') & {'L1', 'L0'} and all(isdig(i) for i in get_ps(st, 'cc')):
            pr, a, b = cond.a
            if not truth:
                pr = NEG[pr]
            v = self.chunklen(st)
            if b is v:
                pr, a, b = SWAP[pr], b, a
            if a is v and v is not None and not isconst(v) and pr in ('sgt', 'sge', 'ugt', 'uge') and self.isbound(b):
                set_ps(st, over=True)

    def isbound(self, b):
        if isconst(b):
            return b >= 1 << 40
        return isinstance(b, V) and (b.k in ('sdiv', 'udiv', 'lshr', 'ashr') or b.k == 'sum')

    def call(self, st, ins, name, args, ai):
        a0 = args[0] if args else None
        if name == 'li_chunk_parser_done':
            if get_ps(st, 'cnt'):
                ai.report(st, ins, 'a character is counted as consumed twice')
            if len(args) > 1 and st.const(args[1]) != 1:
                ai.report(st, ins, 'one character was read but another number is counted as consumed')
            set_ps(st, cnt=True)
        elif name in ('li_chunk_parser_reset', 'li_chunk_parser_init'):
            self.commit(st, ins, ai)
            if get_ps(st, 'pend'):
                ai.report(st, ins, 'consumed characters are forgotten before they are removed from the input')
            set_ps(st, gone=False)
        elif name in ('li_chunkqueue_skip', 'li_chunkqueue_skip_all') and a0 is mk('arg', 2):
            self.nskip += 1
            self.commit(st, ins, ai)
            if get_ps(st, 'gone') and get_ps(st, 'pend'):
                ai.report(st, ins, 'consumed characters are removed from the input twice')
            if name == 'li_chunkqueue_skip':
                if get_ps(st, 'gone'):
                    ai.report(st, ins, 'consumed characters are removed from the input twice')
                if not (isinstance(args[1], V) and 'bytes_in' in repr(args[1]) or self.isctx(st, args[1])):
                    pass
            set_ps(st, pend=False, gone=True)
        elif name == 'li_chunkqueue_steal_len' and a0 is mk('arg', 1):
            spec = self.commit(st, ins, ai)
            self.nsteal += 1
            if not spec <= {'D', 'DL', 'ANY'}:
                ai.report(st, ins, 'bytes are delivered as body outside chunk data (%s)' % ','.join(sorted(spec)))
            if get_ps(st, 'pend'):
                ai.report(st, ins, 'bytes of the chunk header are delivered as body')
            v = self.chunklen(st)
            if v is None or args[2] is not v and st.evalcmp('eq', args[2], v) is not True:
                ai.report(st, ins, 'the number of bytes delivered is not limited to the rest of the chunk')
        elif name in ('li_chunkqueue_steal_all', 'li_chunkqueue_steal_chunk', 'li_chunkqueue_append_mem', 'li_chunkqueue_append_mem2', 'li_chunkqueue_append_string'):
            if a0 is mk('arg', 1):
                ai.report(st, ins, 'bytes are delivered as body without limiting them to the chunk')

    def isctx(self, st, v):
        return True

    def post_call(self, st, ins, name, args, res, ai):
        if name == 'li_chunkqueue_steal_len':
            st.setr(res, 0, INF, frozenset())
            set_ps(st, res=res, gone=True)
        elif name == 'li_chunk_parser_next':
            if get_ps(st, 'gone'):
                ai.report(st, ins, 'characters are read although the input was shortened and the parser not reset')
            if get_ps(st, 'io') is not None:
                st.tracked = st.tracked - get_ps(st, 'io').syms
            track(st, res)
            set_ps(st, io=res)

    def store(self, st, ins, addr, val, ai):
        if addr is self.addr(self.ln):
            old = self.chunklen(st)
            res = get_ps(st, 'res')
            c = get_ps(st, 'c')
            if res is not None:
                if old is None or add(add(old, res, -1), val, -1) != 0:
                    ai.report(st, ins, 'the rest of the chunk is not reduced by the number of bytes delivered')
                set_ps(st, res=None, spec=frozenset('DL' if s == 'D' else s for s in get_ps(st, 'spec')))
                st.setr(val, 0, INF, frozenset())
                return
            if c is not None:
                old = get_ps(st, 'old')
                lo, hi, ne = st.rng(c)
                k = [k for a, b, k in DIG if a <= lo and hi <= b]
                cst, d = lin2(val)
                co = d.get(c)
                if co is not None or (isinstance(val, V) and c in val.syms):
                    set_ps(st, upd=True)
                    first = old is not None and st.rng(old)[1] < 0
                    rest = {x: n for x, n in d.items() if x is not c}
                    if co is not None:
                        want = [{}] if first else [{}, {old: 16}] if st.const(old) == 0 else [{old: 16}]
                        if co != 1 or not k or cst != k[0] or rest not in want:
                            ai.report(st, ins, 'the chunk length is not computed from its hexadecimal digits')
                    if not first and old is not None and st.rng(old)[1] > (1 << 59) and not self.bounded(st, old, c, k[0] if k else 0):
                        ai.report(st, ins, 'the chunk length may overflow')
                    st.setr(val, 0, (1 << 63) - 1, frozenset())
                    if old is not None and st.rng(old)[0] > 0:
                        st.setr(val, 1, (1 << 63) - 1, frozenset())
                elif st.const(c) is not None and st.const(val) is not None:
                    k = [k for a, b, k in DIG if a <= st.const(c) <= b]
                    if k and (old is not None and st.rng(old)[1] <= 0) and st.const(val) == st.const(c) + k[0]:
                        set_ps(st, upd=True)
        elif addr is self.addr(self.sn):
            set_ps(st, S=st.const(val))
        elif is_fld(addr, 'liChunkQueue', 'is_closed') and addr.a[0] is mk('arg', 1) and st.const(val) != 0:
            set_ps(st, closed=True)

    def safe(self, b, strict, c, dk):
        """length so far <= b (< b when strict): 16*length+digit cannot exceed the largest value"""
        M = (1 << 63) - 1
        if isconst(b):
            return 16 * (b - strict) + 15 <= M
        k, x = b.k, b.a[0]
        if k in ('sdiv', 'udiv') and isconst(b.a[1]):
            dv = b.a[1]
        elif k in ('lshr', 'ashr') and isconst(b.a[1]):
            dv = 1 << b.a[1]
        else:
            return False
        cst, d = lin(x)
        if dv < 16:
            return False
        if set(d) <= {c} and all(n == -1 for n in d.values()):
            # (K - c)/16 with the digit being c + dk: 16*b + digit <= K + dk;  K/16 alone: 16*b + digit <= K rounded up to a multiple of 16
            if not d:
                return 16 * (cst // dv) + 15 <= M
            return cst + (dk if d else 0) <= M
        return False

    def bounded(self, st, x, c, dk):
        for f, r in st.facts.items():
            if f.k == 'cmp' and r[0] == r[1] == 1:
                pr, a, b = f.a
                if pr in ('eq', 'ne'):
                    continue
                if x is b:
                    pr, a, b = SWAP[pr], b, a
                if x is a and not (isinstance(b, V) and x in b.syms) and pr in ('sle', 'slt', 'ule', 'ult') and self.safe(b, pr[-1] == 't', c, dk):
                    return True
        return False

    def ret(self, st, ins, val, ai):
        spec = self.commit(st, ins, ai)
        io = get_ps(st, 'io')
        if st.const(val) == 0:
            self.nrej += 1
            good = not (spec & {'ERR', 'ANY', 'OVER'})
            ioerr = io is not None and not (st.rng(io)[0] == st.rng(io)[1] == self.GO)
            if good and not ioerr:
                ai.report(st, ins, 'a correctly coded body is refused (%s)' % ','.join(sorted(spec)))
            return
        if get_ps(st, 'pend'):
            ai.report(st, ins, 'consumed characters stay in the input and are interpreted again')
        if spec & {'ERR', 'OVER'}:
            ai.report(st, ins, 'a malformed chunked body is accepted')
        if get_ps(st, 'closed'):
            self.nacc += 1
            if not spec <= {'END', 'ANY'}:
                ai.report(st, ins, 'the body is declared complete before the end of the coding (%s)' % ','.join(sorted(spec)))
            return
        s = st.mem.get(self.addr(self.sn))
        sc = st.const(s) if s is not None else None
        if sc is None:
            ai.report(st, ins, 'decoder suspended in an unknown state')
            return
        self.exits.add((sc, self.getcls(st), spec))


def check(ctx):
    p = prog()
    ctx.rule('length', 'input callback: exactly (announced length - received) bytes are requested for a body, chunked decoding only for bodies without announced length, '
             'only behind a complete head and before the end of the body, completeness only at the announced length, decoding failure ends the connection')
    ctx.rule('chunked', 'chunked decoder: product with the grammar automaton; only chunk data is delivered, bounded by and subtracted from the chunk length; completion exactly at '
             'the end of the coding; malformed coding refused; length accumulated from hex digits with an overflow bound')
    cbs = stream_callbacks(p, 'liConnection', 'in')
    ctx.need(cbs, 'no callback installed for the connection input stream')
    for f in cbs:
        r = Body(p)
        keep = unwritten(p, f, {('liRequest', 'content_length')})
        ai = analyse(p, f, r, K=24, purecalls=LOGS, policy=same_tu(opaque=('li_connection_error', 'li_connection_reset')))
        ctx.take(ai, 'length')
        ctx.floor('body_transfers', r.n, 1)
        ctx.floor('chunked_decodes', r.nc, 1)
        ctx.floor('body_completions', r.nclose, 1)
        ctx.ok('length', f.loc())
    f = p.fn('li_filter_chunked_decode')
    keep = unwritten(p, f, {(DS, 'parse_state'), (DS, 'cur_chunklen')})
    seen = set()
    work = [(0, '?', frozenset(['L0']))]
    nch = nst = nacc = nrej = 0
    while work:
        e = work.pop()
        if e in seen:
            continue
        seen.add(e)
        ctx.need(len(seen) < 60, 'too many decoder states')
        r = Dec(p, e)
        ai = analyse(p, f, r, K=6, purecalls=LOGS, keepfields=keep, maxvisit=100000)
        ctx.take(ai, 'chunked')
        nch += r.nchars
        nst += r.nsteal
        nacc += r.nacc
        nrej += r.nrej
        work += [x for x in r.exits if x not in seen]
        ctx.ok('chunked', '%s from %s' % (f.loc(), (e[0], e[1], sorted(e[2]))))
    ctx.cov['decoder_entry_states'] = len(seen)
    ctx.floor('characters_read', nch, 5)
    ctx.floor('deliveries', nst, 1)
    ctx.floor('completions', nacc, 1)
    ctx.floor('refusals', nrej, 1)
