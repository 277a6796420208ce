"""C11: conditions and actions of the configuration are executed as written"""
from common import *
from c10 import mentions, STRCMP0, STREQ

COND, ACT = 'src/main/condition.c', 'src/main/actions.c'
POS = {'EQ': 'eq', 'PREFIX': 'prefix', 'SUFFIX': 'suffix', 'MATCH': 'match', 'IP': 'ip'}
NEG = {'NE': 'eq', 'NOPREFIX': 'prefix', 'NOSUFFIX': 'suffix', 'NOMATCH': 'match', 'NOTIP': 'ip'}
INT = {'EQ': (0, 1, 0), 'NE': (1, 0, 1), 'LT': (1, 0, 0), 'LE': (1, 1, 0), 'GT': (0, 0, 1), 'GE': (0, 1, 1)}
STRINGS = {'g_str_has_prefix': 'prefix', 'g_str_has_suffix': 'suffix'}


class Ops(Rule):
    """result of a condition for every operator"""
    joins = True

    def __init__(self, p):
        self.p = p
        self.GO = p.enum('LI_HANDLER_GO_ON')
        self.op = {p.enum('LI_CONFIG_COND_' + k): k for k in set(POS) | set(NEG) | set(INT)}
        self.ty = {p.enum('LI_COND_VALUE_' + k): k for k in ('BOOL', 'NUMBER', 'STRING', 'REGEXP', 'SOCKET_IPV4', 'SOCKET_IPV6')}
        self.BOOL = p.enum('LI_COND_VALUE_HINT_BOOL')
        self.n = {}

    def start(self, st, fn, ai):
        set_ps(st, op=None, ty=None, rel=None, got=None)

    def look(self, st):
        for f, k, tab in (('op', 'op', self.op), ('type', 'ty', self.ty)):
            if get_ps(st, k) is None:
                for a, x in mem_of(st, 'liCondition' if f == 'op' else 'liConditionRValue', f):
                    if mentions(a, 'rvalue') or f == 'op':
                        c = st.const(x)
                        if c in tab:
                            set_ps(st, **{k: tab[c]})
        if get_ps(st, 'rel') is None:
            for m in st.marks:
                if m[0] == 'rel' and (st.const(m[2]) == 0 or st.nonzero(m[2])):
                    set_ps(st, rel=(m[1], bool(st.nonzero(m[2])) != bool(m[3])))

    def branch(self, st, ins, cond, truth, ai):
        self.look(st)

    def load(self, st, ins, addr, val, ai):
        if isinstance(val, V) and isinstance(addr, V) and addr.k == 'fld' and addr.a[1].startswith('liConditionValue') and addr.a[2] in ('number', 'bool', 'str'):
            for m in [m for m in st.marks if m[0] == addr.a[2]]:
                st.unmark(*m)
            st.mark(addr.a[2], val)
            track(st, val)
        elif isinstance(val, V) and isinstance(addr, V) and ('str', addr) in st.marks:
            st.mark('char', val)
            track(st, val)

    def rel(self, st, kind, v, neg):
        for m in [m for m in st.marks if m[0] == 'rel']:
            st.unmark(*m)
        set_ps(st, rel=None, got=kind)
        st.mark('rel', kind, v, neg)
        track(st, v)

    def post_call(self, st, ins, name, args, res, ai):
        if name == 'li_condition_get_value':
            for m in [m for m in st.marks if m[0] in ('number', 'bool')]:
                st.unmark(*m)
        if not isinstance(res, V):
            return
        if name == 'g_ascii_strtoll' or name == 'strtoll':
            st.mark('number', res)
            track(st, res)
        elif name in STRCMP0 + STREQ and len(args) == 2:
            if mentions(args[0], 'rvalue') != mentions(args[1], 'rvalue'):
                self.rel(st, 'eq', res, 0 if name in STREQ else 1)
        elif name in STRINGS:
            if not mentions(args[0], 'rvalue') and mentions(args[1], 'rvalue'):
                self.rel(st, STRINGS[name], res, 0)
            else:
                ai.report(st, ins, 'the operands of the comparison are exchanged')
        elif name in ('g_regex_match', 'g_regex_match_full'):
            if mentions(args[0], 'rvalue'):
                self.rel(st, 'match', res, 0)
        elif name == 'li_ipv4_in_ipv4_net':
            if mentions(args[0], 'rvalue') or not mentions(args[1], 'rvalue') or not (mentions(args[2], 'rvalue') and mentions(args[2], 'networkmask')):
                ai.report(st, ins, 'the address is not compared with the configured network')
            self.rel(st, 'ip', res, 0)
        elif name == 'li_ipv6_in_ipv6_net':
            if mentions(args[0], 'rvalue') or not mentions(args[1], 'rvalue') or not (mentions(args[2], 'rvalue') and mentions(args[2], 'network')):
                ai.report(st, ins, 'the address is not compared with the configured network')
            self.rel(st, 'ip', res, 0)

    def value(self, st, v):
        if isconst(v):
            return v != 0
        if v.k == 'xor' and len(v.a) == 2:
            a, b = [st.const(x) if not (isinstance(x, V) and x.k == 'xor') else self.value(st, x) for x in v.a]
            return None if a is None or b is None else a != b
        if v.k == 'cmp' and v.a[0] in ('eq', 'ne') and isconst(v.a[2]) and v.a[2] == 0 and isinstance(v.a[1], V) and v.a[1].k == 'xor':
            a = self.value(st, v.a[1])
            return None if a is None else a == (v.a[0] == 'ne')
        if v.k == 'cmp' and v.a[0] in ('eq', 'ne') and all(isinstance(x, V) and x.k in ('cmp', 'bool', 'xor') for x in v.a[1:]):
            a, b = self.value(st, v.a[1]), self.value(st, v.a[2])
            return None if a is None or b is None else (a == b) == (v.a[0] == 'eq')
        return st.truth(v)

    def expect(self, st, ins, ai, v, cases, msg):
        """cases: [(assumptions, expected)]"""
        for asm, want in cases:
            s = st.copy()
            ok = True
            for a, t in asm:
                if s.truth(a) is (not t):
                    ok = False
                    break
                if s.assume(a, t) is False:
                    ok = False
                    break
            if not ok:
                continue
            got = self.value(s, v)
            if got is None or bool(got) != want:
                ai.report(st, ins, msg)
                return

    def ret(self, st, ins, val, ai):
        if not (isconst(val) and val == self.GO):
            return
        self.look(st)
        op, ty = get_ps(st, 'op'), get_ps(st, 'ty')
        v = st.mem.get(ai.val(st, '$2'))
        if v is None:
            ai.report(st, ins, 'a condition is decided without giving its result')
            return
        if ty == 'BOOL':
            bs = [x for a, x in mem_of(st, 'liConditionRValue', 'b') if mentions(a, 'rvalue')]
            vs = [(m[1], m[0]) for m in st.marks if m[0] in ('bool', 'char', 'number')]
            self.n['bool'] = self.n.get('bool', 0) + bool(vs)
            if not bs:
                ai.report(st, ins, 'a boolean condition does not depend on the configured value')
                return
            b = mk('cmp', 'ne', bs[0], 0)
            if not vs:    # the value is known to be set
                self.expect(st, ins, ai, v, [([(b, p_)], p_) for p_ in (True, False)], 'a boolean condition does not compare with the configured value')
                return
            for x, k in vs[:1]:
                st = st.copy()
                if k == 'bool':
                    st.setr(x, 0, 1, frozenset())
                self.expect(st, ins, ai, v, [([(b, p_), (mk('cmp', 'ne', x, 0), q)], p_ == q) for p_ in (True, False) for q in (True, False)], 'a boolean condition does not compare with the configured value')
            return
        if op is None and ty is not None and ty.startswith('SOCKET') and get_ps(st, 'got') is None:
            ops = mem_of(st, 'liCondition', 'op')
            if not ops:
                ai.report(st, ins, 'an IP condition is decided without looking at its operator')
            for a, x in ops:
                ip, nip = self.p.enum('LI_CONFIG_COND_IP'), self.p.enum('LI_CONFIG_COND_NOTIP')
                self.expect(st, ins, ai, v, [([(mk('cmp', 'eq', x, ip), True)], False), ([(mk('cmp', 'eq', x, nip), True)], True)], 'an address that does not match is reported as matching')
            return
        if op is None or ty is None:
            ai.report(st, ins, 'a condition is decided without looking at its operator and type')
            return
        if ty == 'NUMBER':
            xs = [m[1] for m in st.marks if m[0] == 'number']
            cs = [x for a, x in mem_of(st, 'liConditionRValue', 'i') if mentions(a, 'rvalue')]
            if op not in INT:
                ai.report(st, ins, 'a number is compared with operator %s' % op)
                return
            if len(xs) != 1 or len(cs) != 1:
                ai.report(st, ins, 'a number condition does not compare the number with the configured one')
                return
            self.n[op + 'i'] = self.n.get(op + 'i', 0) + 1
            x, c = xs[0], cs[0]
            lt, eq, gt = [bool(k) for k in INT[op]]
            self.expect(st, ins, ai, v, [([(mk('cmp', pr, x, c), bool(t)) for pr, t in zip(('slt', 'sle', 'eq', 'ne', 'sge', 'sgt'), ts)], w)
                                          for ts, w in (((1, 1, 0, 1, 0, 0), lt), ((0, 1, 1, 0, 1, 0), eq), ((0, 0, 0, 1, 1, 1), gt))], 'numbers are not compared with operator %s as documented' % op)
            return
        neg = op in NEG
        kind = POS.get(op) or NEG.get(op)
        if kind is None or (kind == 'ip') != ty.startswith('SOCKET'):
            ai.report(st, ins, 'a %s condition is decided with operator %s' % (ty, op))
            return
        self.n[op] = self.n.get(op, 0) + 1
        r = get_ps(st, 'rel')
        ms = [m for m in st.marks if m[0] == 'rel']
        got = get_ps(st, 'got')
        if got is not None and got != kind:
            ai.report(st, ins, 'operator %s is decided by the wrong comparison' % op)
            return
        if r is not None:
            cases = [([], r[1] != neg)]
        elif ms:
            cases = [([(mk('cmp', 'ne', ms[0][2], 0), t)], (t != bool(ms[0][3])) != neg) for t in (True, False)]
        elif kind == 'ip':
            cases = [([], neg)]    # not an address, or of another family
        else:
            ai.report(st, ins, 'operator %s is decided without a comparison' % op)
            return
        self.expect(st, ins, ai, v, cases, 'the result of operator %s is not the documented one' % op)


# where the left side of a condition comes from: alternatives of field names that must all occur in the value
VALUES = {
    'REQUEST_LOCALIP': [('local_addr_str',), ('local_addr',)], 'REQUEST_REMOTEIP': [('remote_addr_str',), ('remote_addr',)],
    'REQUEST_LOCALPORT': [('local_addr', 'sin_port'), ('local_addr', 'sin6_port')], 'REQUEST_REMOTEPORT': [('remote_addr', 'sin_port'), ('remote_addr', 'sin6_port')],
    'REQUEST_PATH': [('uri', 'path')], 'REQUEST_RAW_PATH': [('uri', 'raw_path')], 'REQUEST_HOST': [('uri', 'host')], 'REQUEST_QUERY_STRING': [('uri', 'query')],
    'REQUEST_METHOD': [('request', 'http_method_str')], 'REQUEST_CONTENT_LENGTH': [('request', 'content_length')], 'PHYSICAL_PATH': [('physical', 'path')],
    'PHYSICAL_DOCROOT': [('physical', 'doc_root')], 'PHYSICAL_PATHINFO': [('physical', 'pathinfo')], 'RESPONSE_STATUS': [('response', 'http_status')],
}
CALLS = {'REQUEST_IS_HANDLED': ('li_vrequest_is_handled',), 'REQUEST_HEADER': ('li_http_header_get_all', 'request'), 'RESPONSE_HEADER': ('li_http_header_get_all', 'response'), 'ENVIRONMENT': ('li_environment_get',)}


class Values(Rule):
    """left sides of conditions"""
    def __init__(self, p):
        self.p = p
        self.GO = p.enum('LI_HANDLER_GO_ON')
        self.ty = {p.enum('LI_COMP_' + k): k for k in list(VALUES) + list(CALLS) + ['REQUEST_SCHEME', 'PHYSICAL_EXISTS', 'PHYSICAL_SIZE', 'PHYSICAL_ISDIR', 'PHYSICAL_ISFILE', 'UNKNOWN']}
        self.seen = {}

    def start(self, st, fn, ai):
        set_ps(st, ty=None, src=None, v=None, stat=None, mode=None)

    def look(self, st):
        if get_ps(st, 'ty') is None:
            for a, x in mem_of(st, 'liConditionLValue', 'type'):
                if st.const(x) in self.ty:
                    set_ps(st, ty=self.ty[st.const(x)])

    def branch(self, st, ins, cond, truth, ai):
        self.look(st)
        for m in st.marks:
            if m[0] == 'statres' and st.const(m[1]) is not None:
                set_ps(st, stat=st.const(m[1]) == self.GO)

    def names(self, v, out):
        if isinstance(v, V):
            if v.k == 'fld':
                out.add(v.a[2])
            for m in v.a:
                self.names(m, out)

    def note(self, st, v):
        """remember where the value comes from as field names"""
        if isinstance(v, V) and any(m[0] == 'callres' and m[2] == ('stat', 'st_mode') and contains(v, m[1]) for m in st.marks):
            set_ps(st, mode=v.a[2] if v.k == 'cmp' and v.a[0] == 'eq' and isconst(v.a[2]) else 0)
        if isinstance(v, V) and ('callres', v) in {m[:2] for m in st.marks}:
            d = [m[2] for m in st.marks if m[:2] == ('callres', v)]
            set_ps(st, v=('call',) + d[0])
            return
        if isinstance(v, V):
            for m in st.marks:
                if m[0] == 'callres' and contains(v, m[1]):
                    set_ps(st, v=('call',) + m[2])
                    return
        if isconst(v) and v in (0, 1):     # result of a test of the file type, as a constant on each path
            for f, r in st.facts.items():
                if f.k == 'cmp' and f.a[0] == 'eq' and isconst(f.a[2]) and r[0] == r[1] == v and any(m[0] == 'callres' and m[2] == ('stat', 'st_mode') and contains(f, m[1]) for m in st.marks):
                    set_ps(st, mode=f.a[2], v=('call', 'stat', 'st_mode'))
                    return
        out = set()
        self.names(v, out)
        if isconst(v):
            set_ps(st, v=('const', v))
        elif const_arg_str(v) is not None:
            set_ps(st, v=('str', const_arg_str(v)))
        else:
            set_ps(st, v=('fields', frozenset(out)))

    def load(self, st, ins, addr, val, ai):
        if isinstance(val, V) and isinstance(addr, V):
            if addr.k == 'fld' and addr.a[2] in ('st_mode', 'st_size'):
                st.mark('callres', val, ('stat', addr.a[2]))
                track(st, val)
                return
            for m in st.marks:
                if m[0] == 'callres' and contains(addr, m[1]):
                    st.mark('callres', val, m[2])
                    track(st, val)
                    return

    def store(self, st, ins, addr, val, ai):
        if addr.k == 'fld' and addr.a[1].startswith('liConditionValue') and addr.a[2] in ('str', 'number', 'bool'):
            self.note(st, val)

    def call(self, st, ins, name, args, ai):
        self.look(st)
        if name and name.startswith('llvm.memcpy') and isinstance(args[0], V) and args[0].k == 'fld' and args[0].a[2] == 'addr' and args[0].a[1].startswith('liConditionValue'):
            self.note(st, args[1])
        elif name == 'li_http_header_get_all':
            out = set()
            self.names(args[1], out)
            set_ps(st, src=(name, 'request' if 'request' in out else 'response' if 'response' in out else '?'))

    def post_call(self, st, ins, name, args, res, ai):
        if isinstance(res, V) and name in ('li_vrequest_is_handled', 'li_environment_get'):
            st.mark('callres', res, (name,))
            track(st, res)
        if isinstance(res, V) and name == 'li_stat_cache_get':
            st.mark('statres', res)
            track(st, res)
            out = set()
            self.names(args[1], out)
            if not {'physical', 'path'} <= out:
                ai.report(st, ins, 'another file than the physical path is looked at')
        if isinstance(res, V) and name == 'ntohs':
            out = set()
            self.names(args[0], out)
            st.mark('callres', res, ('ntohs', frozenset(out)))

    def ret(self, st, ins, val, ai):
        if not (isconst(val) and val == self.GO):
            return
        self.look(st)
        t, v = get_ps(st, 'ty'), get_ps(st, 'v')
        if t is None or t == 'UNKNOWN':
            ai.report(st, ins, 'a value is given for an unknown left side')
            return
        if t.startswith('PHYSICAL_') and t not in VALUES:
            self.seen[t] = self.seen.get(t, 0) + 1
            none = -1 if t == 'PHYSICAL_SIZE' else 0
            ok = get_ps(st, 'stat')
            if v and v[0] == 'const':
                good = v[1] == (1 if ok and t == 'PHYSICAL_EXISTS' else none)
            else:
                good = ok and v and v == ('call', 'stat', 'st_size' if t == 'PHYSICAL_SIZE' else 'st_mode') and get_ps(st, 'mode') == {'PHYSICAL_ISDIR': 0o040000, 'PHYSICAL_ISFILE': 0o100000}.get(t)
            if not good:
                ai.report(st, ins, 'the value of %s does not say what the file system says' % t.lower().replace('_', '.'))
            return
        if t not in VALUES and t not in CALLS:
            return
        self.seen[t] = self.seen.get(t, 0) + 1
        bad = 'the value of %s is not taken from the request as documented' % t.lower().replace('request_', 'request.').replace('physical_', 'physical.').replace('response_', 'response.')
        if t in VALUES:
            f = v[1] if v and v[0] == 'fields' else v[2] if v and v[0] == 'call' and v[1] == 'ntohs' else None
            if t.endswith('PORT') and v == ('const', -1):
                return
            if f is None or not any(set(alt) <= f for alt in VALUES[t]):
                ai.report(st, ins, bad)
            elif t == 'REQUEST_PATH' and 'raw_path' in f:
                ai.report(st, ins, bad)
        elif CALLS[t][0] == 'li_http_header_get_all':
            if get_ps(st, 'src') != CALLS[t] or not (v and v[0] == 'fields' and 'str' in v[1]):
                ai.report(st, ins, bad)
        elif t == 'ENVIRONMENT':
            if v != ('call', 'li_environment_get') and v != ('str', ''):
                ai.report(st, ins, bad)
        elif v != ('call',) + CALLS[t][:1]:
            ai.report(st, ins, bad)


def bare(v):
    while isinstance(v, V) and v.k in ('u', 's', 'trunc'):
        v = v.a[0]
    return v


class Exec(Rule):
    """the action interpreter"""
    joins = True

    def join(self, r, s, va, a, vb, b):
        for m in a.marks:
            if m[0] in ('ldf', 'listel', 'elem', 'stale') and m[1] is va and (m[0], vb) + m[2:] in b.marks:
                r.mark(m[0], s, *m[2:])

    def __init__(self, p):
        self.p = p
        E = p.enum
        self.GO, self.ERR, self.COME, self.WAIT = E('LI_HANDLER_GO_ON'), E('LI_HANDLER_ERROR'), E('LI_HANDLER_COMEBACK'), E('LI_HANDLER_WAIT_FOR_EVENT')
        self.n = self.ne = self.ns = 0
        self.kinds = {}

    def start(self, st, fn, ai):
        set_ps(st, cond=None, done=True, what=None, res=None, entered=False, fin=False, reset=False, pos=None)

    # -- element pointers and the array they point into
    def is_elem(self, v):
        while isinstance(v, V) and v.k in ('fld', 'idx', 'off'):
            v = v.a[0]
        return v

    def look(self, st):
        if get_ps(st, 'res') is None:
            for m in st.marks:
                if m[0] == 'res':
                    c = st.const(m[1])
                    if c is not None:
                        set_ps(st, res=c)
        if get_ps(st, 'what') == 'cond' and get_ps(st, 'cond') is None and get_ps(st, 'res') == self.GO:
            for m in st.marks:
                if m[0] == 'condres':
                    x = st.mem.get(m[1])
                    if x is not None:
                        if st.const(x) == 0:
                            set_ps(st, cond=False)
                        elif st.nonzero(x):
                            set_ps(st, cond=True)
        if get_ps(st, 'what') == 'cond' and get_ps(st, 'cond') is not None and not get_ps(st, 'entered'):
            f = 'target' if get_ps(st, 'cond') else 'target_else'
            if any(st.const(x) == 0 for a, x in st.mem.items() if a.k == 'fld' and a.a[2] == f) or any(m[0] == 'ldf' and m[2] == f and st.const(m[1]) == 0 for m in st.marks):
                set_ps(st, entered='none')

    def branch(self, st, ins, cond, truth, ai):
        self.look(st)

    def boundary(self, st, ins, ai):
        """what the previous action needs must have happened before the next step"""
        self.look(st)
        w, r = get_ps(st, 'what'), get_ps(st, 'res')
        if w is None:
            return
        if r == self.GO:
            if not get_ps(st, 'fin'):
                ai.report(st, ins, 'an action that finished is not marked as finished, so it runs again')
            if w == 'cond' and not get_ps(st, 'entered'):
                ai.report(st, ins, 'a decided condition does not run its block')
        elif r == self.ERR:
            ai.report(st, ins, 'processing continues after an action failed')
        elif r == self.COME or r == self.WAIT and w != 'func':
            ai.report(st, ins, 'processing continues although an action asked to wait')
        set_ps(st, what=None, res=None, cond=None, entered=False, fin=False)
        for m in [m for m in st.marks if m[0] in ('res', 'condres')]:
            st.unmark(*m)
            if isinstance(m[1], V):
                st.tracked = st.tracked - m[1].syms

    def use(self, st, ins, addr, ai):
        b = self.is_elem(addr)
        if isinstance(b, V) and any(m[0] == 'stale' and m[1] is b for m in st.marks):
            ai.report(st, ins, 'an element of the action stack is used after the stack may have been moved')

    def load(self, st, ins, addr, val, ai):
        self.use(st, ins, addr, ai)
        if isinstance(addr, V) and addr.k == 'fld' and addr.a[1].startswith('action_stack_element') and addr.a[2] in ('pos', 'data') and isinstance(val, V) and not get_ps(st, 'pos'):
            st.mark('pos', val)
        elif isinstance(addr, V) and isinstance(val, V) and addr.k == 'idx' and any(m[0] == 'pos' and bare(addr.a[1]) is m[1] for m in st.marks):
            st.mark('listel', val)
        if isinstance(addr, V) and isinstance(val, V) and addr.k == 'fld' and addr.a[2] in ('target', 'target_else', 'func', 'select', 'fallback'):
            st.mark('ldf', val, addr.a[2])
        if is_fld(addr, '_GArray', 'data') and isinstance(val, V) and self.is_stack(st, addr.a[0]):
            st.unmark('stale', val)
            st.mark('elem', val)

    def is_stack(self, st, v):
        if isinstance(v, V) and v.k == 'init':
            return isinstance(v.a[0], V) and v.a[0].k == 'fld' and v.a[0].a[1:3] == ('liActionStack', 'stack')
        return any(x is v for a, x in mem_of(st, 'liActionStack', 'stack'))

    def store(self, st, ins, addr, val, ai):
        self.use(st, ins, addr, ai)
        if addr.k == 'fld' and addr.a[2] == 'finished' and isconst(val) and val:
            set_ps(st, fin=True)
        if addr.k == 'fld' and addr.a[1].startswith('action_stack_element') and addr.a[2] in ('pos', 'data'):
            old = [m[1] for m in st.marks if m[0] == 'pos']
            if isinstance(val, V) and any(add(val, o, -1) == 1 for o in old):
                set_ps(st, pos=True)
            else:
                ai.report(st, ins, 'the position in a list of actions does not advance by one')
        if addr.k == 'fld' and addr.a[2] == 'actions_executed':
            set_ps(st, pos=None)
            self.boundary(st, ins, ai)

    def moved(self, st):
        for m in [m for m in st.marks if m[0] == 'elem']:
            st.unmark(*m)
            st.mark('stale', m[1])

    def call(self, st, ins, name, args, ai):
        if name in LOGS:
            return
        if name == 'li_action_enter':
            self.look(st)
            self.ne += 1
            w = get_ps(st, 'what')
            tgt = [f for f in ('target', 'target_else') if isinstance(args[1], V) and args[1].k in ('init', 'ld', 'sym') and self.from_field(st, args[1], f)]
            if w == 'cond' or tgt:
                c = get_ps(st, 'cond')
                if not tgt:
                    ai.report(st, ins, 'a decided condition runs something else than its blocks')
                elif get_ps(st, 'res') != self.GO or c is None:
                    ai.report(st, ins, 'a block of a condition runs before the condition is decided')
                elif c != (tgt[0] == 'target'):
                    ai.report(st, ins, 'the wrong block of a condition runs')
                set_ps(st, entered=True)
            elif w is None:
                self.kinds['list'] = self.kinds.get('list', 0) + 1
                p0 = get_ps(st, 'pos')
                if not p0:
                    ai.report(st, ins, 'an action of a list runs without advancing in the list')
                elif not (isinstance(args[1], V) and self.from_idx(st, args[1])):
                    ai.report(st, ins, 'the action that runs is not the next one of the list')
                set_ps(st, pos=None)
                for m in [m for m in st.marks if m[0] in ('pos', 'listel')]:
                    st.unmark(*m)
            self.moved(st)
            return
        if name == 'li_condition_check':
            self.boundary(st, ins, ai)
            set_ps(st, what='cond')
            if isinstance(args[2], V):
                st.mark('condres', args[2])
            return
        if name == 'li_action_stack_reset':
            set_ps(st, reset=True)
            self.moved(st)
            return
        if name is None and ins.fn is not None:
            fv = ai.val(st, ins.fn, ins)
            for f, w in (('func', 'func'), ('select', 'balancer'), ('fallback', 'balancer')):
                if self.from_field(st, fv, f):
                    self.boundary(st, ins, ai)
                    set_ps(st, what=w)
                    self.n += 1
            self.moved(st)
            return
        t = self.p.resolve(name, ins.owner.tu) if name else None
        if name and name.startswith('g_array_append') or name in ('g_array_insert_vals', 'g_array_set_size'):
            if any(mentions(a, 'stack') and not mentions(a, 'backend_stack') for a in args[:1]) and name != 'g_array_set_size':
                self.moved(st)

    def from_field(self, st, v, f):
        if isinstance(v, V) and v.k == 'init' and v.a[0].k == 'fld' and v.a[0].a[2] == f:
            return True
        return any(m[0] == 'ldf' and m[1] is v and m[2] == f for m in st.marks) or any(x is v for a, x in st.mem.items() if a.k == 'fld' and a.a[2] == f)

    def from_idx(self, st, v):
        return ('listel', v) in st.marks

    def post_call(self, st, ins, name, args, res, ai):
        w = get_ps(st, 'what')
        if isinstance(res, V) and w and (name == 'li_condition_check' or name is None) and get_ps(st, 'res') is None and not any(m[0] == 'res' for m in st.marks):
            st.mark('res', res)
            track(st, res)

    def ret(self, st, ins, val, ai):
        self.look(st)
        w, r = get_ps(st, 'what'), get_ps(st, 'res')
        if w is None or r is None:
            return
        self.ns += 1
        if r == self.ERR and not get_ps(st, 'reset'):
            ai.report(st, ins, 'a failed action leaves the remaining actions in place')
        if (r in (self.ERR, self.COME) or r == self.WAIT and w != 'func') and st.const(val) != r:
            ai.report(st, ins, 'the result of an action is not reported')
        if r == self.GO and not get_ps(st, 'fin'):
            ai.report(st, ins, 'an action that finished is not marked as finished, so it runs again')


def check(ctx):
    p = prog()
    ctx.rule('operators', 'for every operator and value type: the result equals the documented comparison of the value with the configured one, negated operators its exact opposite; IP comparisons against the configured network')
    ctx.rule('values', 'every left side of a condition is taken from the field of the request it names')
    ctx.rule('interpreter', 'action interpreter: blocks follow the decided condition; a finished action is marked so it runs once; failures stop processing and drop all remaining actions; waiting actions are resumed; no element of the stack is used after the stack may have moved')
    f = p.fn('li_condition_check')
    ctx.need(f is not None, 'li_condition_check not found')
    m = Ops(p)
    # the configured condition does not change while it is evaluated
    keep = [('liCondition', f_) for f_ in ('op', 'rvalue', 'lvalue')] + [('liConditionRValue', f_) for f_ in ('type', 'b', 'string', 'regex', 'i', 'ipv4', 'ipv6')] + [('_GString', 'str'), ('liConditionRValue.ipv4', 'addr'), ('liConditionRValue.ipv4', 'networkmask'), ('liConditionRValue.ipv6', 'network')]
    ctx.take(analyse(p, f, m, K=40, purecalls=set(LOGS) | {'li_remove_path', '__errno_location'}, keepfields=keep, policy=same_tu(opaque=('li_condition_get_value', 'li_condition_value_to_string'))), 'operators')
    for k in list(POS) + list(NEG) + [k + 'i' for k in INT] + ['bool']:
        ctx.floor('operator_' + k, m.n.get(k, 0), 1)
    ctx.ok('operators', f.loc())
    f = p.fn('li_condition_get_value')
    ctx.need(f is not None, 'li_condition_get_value not found')
    m = Values(p)
    ctx.take(analyse(p, f, m, K=60, purecalls=LOGS), 'values')
    for k in list(VALUES) + list(CALLS) + ['PHYSICAL_EXISTS', 'PHYSICAL_SIZE', 'PHYSICAL_ISDIR', 'PHYSICAL_ISFILE']:
        ctx.floor('value_' + k, m.seen.get(k, 0), 1)
    ctx.ok('values', f.loc())
    f = p.fn('li_action_execute')
    ctx.need(f is not None, 'li_action_execute not found')
    m = Exec(p)
    ctx.take(analyse(p, f, m, K=4, purecalls=LOGS, policy=same_tu(opaque=('li_action_enter', 'li_action_stack_reset', 'action_stack_element_release'))), 'interpreter')
    ctx.floor('action_calls', m.n, 3)
    ctx.floor('entered_actions', m.ne, 3)
    ctx.ok('interpreter', f.loc())
