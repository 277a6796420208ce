"""C10: access control fails closed"""
from common import *

AUTH, ACCESS = 'src/modules/mod_auth.c', 'src/modules/mod_access.c'
STRCMP0 = ('g_strcmp0', 'strcmp')
STREQ = ('g_str_equal',)


def actions_of(p, tu):
    """functions of the file that run as configuration actions"""
    r = {}
    for fn in p.fns.values():
        if fn.tu != tu:
            continue
        for i in fn.calls():
            if callee_name(i) == 'li_action_new_function':
                t = fn_values(p, i.a[0], fn.tu)
                if t:
                    r[t.key] = t
    return list(r.values())


def action_table(p, tu):
    """{action name: create function} of the liPluginAction tables of a file"""
    out = {}
    for (t, n), g in p.globals.items():
        if t != tu or 'init' not in g:
            continue

        def walk(x):
            if isinstance(x, dict) and 'st' in x:
                vals = [y for _, y in x['st']]
                s = [y[1] for y in vals if isinstance(y, list) and len(y) >= 2 and y[0] == 's' and isinstance(y[1], str)]
                f = [y for y in vals if isinstance(y, str) and y.startswith('@')]
                if s and f:
                    g = fn_values(p, f[0], tu)
                    if g:
                        out[s[0].split('\0')[0]] = g
                for y in vals:
                    walk(y)
            elif isinstance(x, list):
                for y in x:
                    walk(y)
        walk(g['init'])
    return out


def backends(p, tu):
    """functions handed around by address that look users up: {key: fn}"""
    acts = {f.key for f in actions_of(p, tu)}
    r = {}
    for k in p.addr_taken():
        f = p.fns.get(k)
        if f is None or f.tu != tu or k in acts:
            continue
        if any(callee_name(i) == 'g_hash_table_lookup' for g in p.reach([f]) for i in p.fns[g].calls() if p.fns[g].tu == tu):
            r[k] = f
    return r


def mentions(v, f):
    """the expression goes through a field of that name"""
    if not isinstance(v, V):
        return False
    if v.k == 'fld' and v.a[2] == f:
        return True
    return any(mentions(x, f) for x in v.a if isinstance(x, V))


def equal_marks(st, kind, name, res, *rest):
    st.mark(kind, res, 1 if name in STREQ else 0, *rest)


def is_eq(st, m):
    return st.nonzero(m[1]) if m[2] else st.const(m[1]) == 0


def is_ne(st, m):
    return st.const(m[1]) == 0 if m[2] else st.nonzero(m[1])


class Gate(Rule):
    """an action lets a request pass only when it is entitled to"""
    def __init__(self, p, status, backs=(), trees=False):
        self.p = p
        self.GO = p.enum('LI_HANDLER_GO_ON')
        self.status = status
        self.backs = set(backs)
        self.trees = trees
        self.n = self.nb = self.nl = 0
        self.DENY = p.enum('ACCESS_DENY') if trees else None
        self.ALLOW = p.enum('ACCESS_ALLOW') if trees else None

    def start(self, st, fn, ai):
        set_ps(st, handled=False, direct=None, ok=False, fam=None, cred=False)

    def look(self, st):
        for m in list(st.marks):
            if m[0] == 'handled' and st.nonzero(m[1]):
                set_ps(st, handled=True)
            elif m[0] == 'direct' and (st.nonzero(m[1]) or st.const(m[1]) == 0):
                set_ps(st, direct='yes' if st.nonzero(m[1]) else 'no')
            elif m[0] == 'backend' and st.nonzero(m[1]):
                set_ps(st, ok=True)
            elif m[0] == 'lookup':
                lo, hi, ne = st.rng(m[1])
                if lo > self.DENY or hi < self.DENY or self.DENY in ne or st.const(m[1]) == self.ALLOW:
                    set_ps(st, ok=True)
            elif m[0] == 'fam' and st.const(m[1]) in (2, 10):
                set_ps(st, fam={2: 'ipv4', 10: 'ipv6'}[st.const(m[1])])

    def branch(self, st, ins, cond, truth, ai):
        self.look(st)

    def load(self, st, ins, addr, val, ai):
        if isinstance(addr, V) and addr.k == 'fld' and addr.a[2] == 'sa_family' and isinstance(val, V):
            if mentions(addr, 'remote_addr'):
                st.mark('fam', val)

    def call(self, st, ins, name, args, ai):
        if name == 'li_radixtree_lookup' and self.trees:
            self.nl += 1
            tree = [f for f in ('ipv4', 'ipv6') if loaded_from(st, args[0], 'access_check_data', f)]
            t = tree[0] if tree else None
            self.look(st)
            if t is None:
                ai.report(st, ins, 'the client address is looked up in an unknown table')
            elif st.const(args[2]) != {'ipv4': 32, 'ipv6': 128}[t] or not mentions(args[1], {'ipv4': 'sin_addr', 'ipv6': 'sin6_addr'}[t]):
                ai.report(st, ins, 'the client address is not looked up with its full length in the table of its family')
            elif not mentions(args[1], 'remote_addr'):
                ai.report(st, ins, 'the address that is looked up is not the one of the client')
            elif get_ps(st, 'fam') != t:
                ai.report(st, ins, 'the address of the client is looked up without knowing that it is an %s address' % t)
        if self.backs and (name is None or name in self.backs) and len(args) >= 3:
            self.nb += 1
            set_ps(st, cred=False)
            if all(isinstance(a, V) for a in args[1:3]):
                u, w = [st.mem.get(mk('fld', a, '_GString', 'str', 0)) for a in args[1:3]]
                if not (isinstance(u, V) and any(m[0] == 'dec' and m[1] is u for m in st.marks)):
                    ai.report(st, ins, 'the user name that is checked is not the one of the Authorization header')
                elif not (isinstance(w, V) and any(m[0] == 'sep' and contains(w, m[1]) for m in st.marks)):
                    ai.report(st, ins, 'the password that is checked is not the one of the Authorization header')
                else:
                    st.mark('user', u)
                    set_ps(st, cred=True)
        if name == 'li_environment_set' and const_arg_str(args[1]) == 'REMOTE_USER':
            self.look(st)
            if not get_ps(st, 'ok'):
                ai.report(st, ins, 'REMOTE_USER is set for a request that was not authenticated')
            elif not any(m[0] == 'user' and m[1] is args[3] for m in st.marks):
                ai.report(st, ins, 'REMOTE_USER is not the user name that was authenticated')

    def post_call(self, st, ins, name, args, res, ai):
        if name and name.startswith('llvm.memcpy') and isinstance(args[1], V) and args[1].k == 'fld' and args[1].a[2] == 'addr_up' and isinstance(args[0], V):
            for f, off, *_ in self.p.structs['liSockAddrPtr']['fields']:
                st.mem[mk('fld', args[0], 'liSockAddrPtr', f, off)] = ai.read(st, mk('fld', args[1], 'liSockAddrPtr', f, off), ins)
        if not isinstance(res, V):
            return
        if name == 'li_vrequest_is_handled':
            st.mark('handled', res)
        elif name in ('li_vrequest_handle_direct', 'li_vrequest_handle_indirect'):
            for m in [m for m in st.marks if m[0] == 'direct']:
                st.unmark(*m)
            set_ps(st, direct=None)
            st.mark('direct', res)
        elif name == 'g_base64_decode':
            st.mark('dec', res)
            track(st, res)
        elif name in ('strchr', 'memchr', 'g_strstr_len', 'strstr') and any(m[0] == 'dec' and m[1] is args[0] for m in st.marks):
            st.mark('sep', res)
            track(st, res)
        elif self.backs and (name is None or name in self.backs) and len(args) >= 3:
            if get_ps(st, 'cred'):
                st.mark('backend', res)
        elif name == 'li_radixtree_lookup' and self.trees:
            st.mark('lookup', res)

    def ret(self, st, ins, val, ai):
        if isconst(val) and val != self.GO:
            return
        if isinstance(val, V):
            lo, hi, ne = st.rng(val)
            if not (lo <= self.GO <= hi) or self.GO in ne:
                return
        self.n += 1
        self.look(st)
        if get_ps(st, 'handled') or get_ps(st, 'direct') == 'no' or get_ps(st, 'ok'):
            return
        stat = [st.const(x) for a, x in mem_of(st, 'liResponse', 'http_status')]
        if get_ps(st, 'direct') == 'yes' and any(s in self.status for s in stat if s is not None):
            return
        if get_ps(st, 'direct') == 'yes':
            ai.report(st, ins, 'a refused request is answered without an error status')
        else:
            ai.report(st, ins, 'the action lets a request pass that was neither allowed nor refused')


class Backend(Rule):
    """a credential check succeeds only if the stored secret of this user matches the password"""
    def __init__(self, p, kinds):
        self.p = p
        self.kinds = kinds
        self.n = 0

    def start(self, st, fn, ai):
        set_ps(st, match=None, sum=())

    def arg_str(self, st, v, k):
        """v is the text of GString argument k"""
        return isinstance(v, V) and ('argstr', v, k) in st.marks

    def load(self, st, ins, addr, val, ai):
        if isinstance(addr, V) and addr.k == 'fld' and addr.a[1] == '_GString' and addr.a[2] in ('str', 'len') and isinstance(val, V):
            b = addr.a[0]
            if b.k == 'arg':
                st.mark('arg' + addr.a[2], val, b.a[0])
            elif mentions(b, 'realm'):
                st.mark('arg' + addr.a[2], val, 'realm')
            if addr.a[2] == 'str':
                for m in [m for m in st.marks if m[0] == 'hash' and m[1] is b]:
                    st.mark('hashstr', val)

    def look(self, st):
        for m in list(st.marks):
            if m[0] == 'cmp' and (st.const(m[1]) == 0 if m[3] == 0 else st.nonzero(m[1])):
                set_ps(st, match=m[2])
            elif m[0] == 'hashif' and st.nonzero(m[1]):
                st.mark('hash', m[2])

    def branch(self, st, ins, cond, truth, ai):
        self.look(st)

    def call(self, st, ins, name, args, ai):
        if name in STRCMP0 + STREQ or name is None:
            return
        for m in [m for m in st.marks if m[0] in ('hash', 'hashif')]:
            d = m[-1]
            if any(a is d for a in args) and name not in LOGS:
                st.unmark(*m)
        if name == 'g_checksum_update':
            t = '?'
            s = const_arg_str(args[1])
            if s is not None:
                n = st.const(args[2])
                t = s.split('\0')[0] if n == len(s.split('\0')[0]) or n == -1 else '?'
            elif isinstance(args[1], V):
                for k, n in ((1, 'USER'), (2, 'PASSWORD'), ('realm', 'REALM')):
                    if self.arg_str(st, args[1], k) and (('arglen', args[2], k) in st.marks or st.const(args[2]) == -1):
                        t = n
            set_ps(st, sum=(get_ps(st, 'sum') + (t,))[:8])
        elif name in ('g_checksum_new', 'g_checksum_reset'):
            set_ps(st, sum=() if name == 'g_checksum_reset' or st.const(args[0]) == 0 else ('?',))

    def post_call(self, st, ins, name, args, res, ai):
        if name == 'g_hash_table_lookup' and isinstance(res, V):
            if self.arg_str(st, args[1], 1):
                st.mark('stored', res)
                track(st, res)
        elif name in ('strchr', 'strrchr') and isinstance(res, V) and any(m[0] == 'stored' and m[1] is args[0] for m in st.marks):
            st.mark('stored', res)
            track(st, res)
        elif name == 'li_apr_md5_crypt' or name == 'li_apr_sha1_base64':
            if show(args[1]) == 'arg2' if isinstance(args[1], V) else False:
                st.mark('hash', args[0])
        elif name == 'li_safe_crypt' and isinstance(res, V):
            if isinstance(args[1], V) and show(args[1]) == 'arg2':
                st.mark('hashif', res, args[0])
        elif name == 'g_checksum_get_string' and isinstance(res, V):
            s = ''.join(get_ps(st, 'sum'))
            if s == 'USER:REALM:PASSWORD':
                st.mark('digest', res)
        elif name in STRCMP0 + STREQ and isinstance(res, V) and len(args) == 2:
            st_ = lambda v: isinstance(v, V) and any(m[0] == 'stored' and contains(v, m[1]) for m in st.marks)
            for a, b in (args, args[::-1]):
                if not st_(a):
                    continue
                kind = None
                if self.arg_str(st, b, 2):
                    kind = 'plain'
                elif isinstance(b, V) and any(m[0] == 'digest' and m[1] is b for m in st.marks):
                    kind = 'digest'
                elif isinstance(b, V) and ('hashstr', b) in st.marks:
                    kind = 'crypt'
                if kind:
                    st.mark('cmp', res, kind, 1 if name in STREQ else 0)

    def ret(self, st, ins, val, ai):
        if isconst(val) and val == 0:
            return
        if isinstance(val, V):
            st = st.copy()
            if st.assume(val, True) is False or st.truth(val) is False:
                return
        self.n += 1
        self.look(st)
        m = get_ps(st, 'match')
        if m is None:
            ai.report(st, ins, 'credentials are accepted although the stored password of the user was not found equal')
        elif self.kinds - {m}:
            ai.report(st, ins, 'credentials are accepted by comparing the %s instead of the %s' % ({'plain': 'password itself with the stored hash', 'crypt': 'crypted password', 'digest': 'digest'}[m], ' or '.join(self.kinds)))


class Entries(Rule):
    """users without a password field are not entered"""
    def __init__(self):
        self.n = 0

    def call(self, st, ins, name, args, ai):
        if name in ('g_hash_table_insert', 'g_hash_table_replace'):
            self.n += 1
            if not st.nonzero(args[2]):
                ai.report(st, ins, 'a line without password may be entered as a user')


class Trees(Rule):
    """construction of the address tables"""
    def __init__(self, p):
        self.p = p
        self.DENY, self.ALLOW = p.enum('ACCESS_DENY'), p.enum('ACCESS_ALLOW')
        self.n = self.nr = 0

    def start(self, st, fn, ai):
        set_ps(st, ad=None, base=frozenset(), isall=False)

    def look(self, st):
        for m in list(st.marks):
            if m[0] == 'word' and is_eq(st, m):
                set_ps(st, ad=m[3])
                st.unmark(*m)
            elif m[0] == 'all' and (is_eq(st, m) or is_ne(st, m)):
                set_ps(st, isall=bool(is_eq(st, m)))
                st.unmark(*m)
            elif m[0] == 'parse' and st.nonzero(m[1]):
                st.mark('parsed', m[2], m[3], m[4])
                st.unmark(*m)

    def branch(self, st, ins, cond, truth, ai):
        self.look(st)

    def call(self, st, ins, name, args, ai):
        if name == 'li_radixtree_insert':
            self.n += 1
            self.look(st)
            tree = [f for f in ('ipv4', 'ipv6') if loaded_from(st, args[0], 'access_check_data', f) or any(x is args[0] for a, x in mem_of(st, 'access_check_data', f))]
            t = tree[0] if len(tree) == 1 else None
            v = st.const(args[3])
            if t is None:
                ai.report(st, ins, 'entry of an unknown address table')
                return
            base = get_ps(st, 'base')
            ad = get_ps(st, 'ad')
            if ad is None:
                if v == self.DENY and st.const(args[2]) == 0:
                    set_ps(st, base=base | {t})
                else:
                    ai.report(st, ins, 'an address entry is made without "allow" or "deny"')
                return
            if t not in base:
                ai.report(st, ins, 'addresses are entered before everything else is denied')
            if v != {'allow': self.ALLOW, 'deny': self.DENY}[ad]:
                ai.report(st, ins, 'an entry of the "%s" list does not %s' % (ad, ad))
            if st.const(args[2]) == 0 and st.const(args[1]) == 0:
                if not get_ps(st, 'isall'):
                    ai.report(st, ins, 'an entry for all addresses is made although "all" was not configured')
                return
            ps = [m for m in st.marks if m[0] == 'parsed' and m[1] is args[1]]
            if not any(m[2] == t for m in ps):
                ai.report(st, ins, 'an entry of the %s table is not an %s address' % (t, t))
            elif t == 'ipv6' and not any(st.mem.get(m[3]) is args[2] or isinstance(args[2], V) and args[2].k in ('init', 'ld') and contains(args[2], m[3]) or self.ld(st, args[2], m[3]) for m in ps):
                ai.report(st, ins, 'the prefix length of an address is not the configured one')
            elif t == 'ipv4':
                lo, hi, ne = st.rng(args[2])
                if lo < 0 or hi > 32:
                    ai.report(st, ins, 'the prefix length of an address may be out of range')
        if name == 'li_action_new_function':
            self.nr += 1
            miss = {'ipv4', 'ipv6'} - get_ps(st, 'base')
            if miss:
                ai.report(st, ins, 'addresses that are not listed are not denied (%s)' % ', '.join(sorted(miss)))

    def ld(self, st, v, a):
        return any(m[0] == 'ld' and m[1] is v and m[2] is a for m in st.marks)

    def load(self, st, ins, addr, val, ai):
        if isinstance(val, V) and isinstance(addr, V) and addr.k == 'alloca':
            st.mark('ld', val, addr)

    def post_call(self, st, ins, name, args, res, ai):
        if not isinstance(res, V):
            return
        if name in STREQ + STRCMP0 and len(args) == 2:
            w = [const_arg_str(a) for a in args if const_arg_str(a) is not None]
            w = w[0].split('\0')[0] if w else None
            if w in ('allow', 'deny'):
                for m in [m for m in st.marks if m[0] == 'word']:
                    st.unmark(*m)
                set_ps(st, ad=None)
                equal_marks(st, 'word', name, res, w)
            elif w == 'all':
                for m in [m for m in st.marks if m[0] == 'all']:
                    st.unmark(*m)
                set_ps(st, isall=False)
                equal_marks(st, 'all', name, res)
        elif name in ('li_parse_ipv4', 'li_parse_ipv6'):
            for m in [m for m in st.marks if m[0] in ('parse', 'parsed') and m[-2 if m[0] == 'parsed' else 3] == name[-4:]]:
                st.unmark(*m)
            st.mark('parse', res, args[1], name[-4:], args[2])


class Net6(Rule):
    """prefix comparison of addresses, for one prefix length"""
    def __init__(self, k):
        self.k = k
        self.n = 0

    def start(self, st, fn, ai):
        v = ai.val(st, '$2')
        st.setr(v, self.k, self.k, frozenset())
        set_ps(st, whole=self.k < 8, part=self.k % 8 == 0)

    def load(self, st, ins, addr, val, ai):
        s = show(addr) if isinstance(addr, V) else ''
        if isinstance(val, V):
            track(st, val)
            i = None
            if isinstance(addr, V) and addr.k == 'idx':
                i = st.const(addr.a[1])
            elif isinstance(addr, V) and addr.k == 'arg':
                i = 0
            for k in (0, 1):
                if s.startswith('arg%d' % k):
                    st.mark('byte', val, k, i)

    def post_call(self, st, ins, name, args, res, ai):
        if name in ('memcmp', 'bcmp') and isinstance(res, V):
            if {show(a) if isinstance(a, V) else a for a in args[:2]} == {'arg0', 'arg1'} and st.const(args[2]) is not None:
                st.mark('mem', res, st.const(args[2]))

    def look(self, st, val=None):
        k = self.k
        for m in list(st.marks):
            if m[0] == 'mem' and st.const(m[1]) == 0 and m[2] == k // 8:
                set_ps(st, whole=True)
            if m[0] == 'mem' and st.const(m[1]) == 0 and m[2] > k // 8:
                set_ps(st, whole='over')
        want = (0xff << (8 - k % 8)) & 0xff
        for f, r in st.facts.items():
            if f.k == 'cmp' and r[0] == r[1] and (f.a[0] == 'eq' and r[0] == 1 or f.a[0] == 'ne' and r[0] == 0):
                a, b = f.a[1], f.a[2]
                if {self.masked(st, a, want), self.masked(st, b, want)} == {'b0', 'b1'} or st.const(b) == 0 and self.masked(st, a, want) == 'both':
                    set_ps(st, part=True)
            elif r[0] == r[1] == 0 and self.masked(st, f, want) == 'both':
                set_ps(st, part=True)

    def masked(self, st, v, want):
        while isinstance(v, V) and v.k in ('u', 'trunc', 'zext', 'sext'):
            v = v.a[0]
        if isinstance(v, V) and v.k == 'and':
            for x, c in ((v.a[0], v.a[1]), (v.a[1], v.a[0])):
                if st.const(c) is not None and st.const(c) & 0xff == want:
                    while isinstance(x, V) and x.k in ('u', 'trunc', 'zext', 'sext'):
                        x = x.a[0]
                    if isinstance(x, V) and x.k == 'xor' and {self.byte(st, x.a[0]), self.byte(st, x.a[1])} == {'b0', 'b1'}:
                        return 'both'
                    if self.byte(st, x):
                        return self.byte(st, x)
        return None

    def byte(self, st, x):
        while isinstance(x, V) and x.k in ('u', 'trunc', 'zext', 'sext'):
            x = x.a[0]
        for m in st.marks:
            if m[0] == 'byte' and m[1] is x and m[3] == self.k // 8:
                return 'b%d' % m[2]
        return None

    def branch(self, st, ins, cond, truth, ai):
        self.look(st)

    def ret(self, st, ins, val, ai):
        if isconst(val) and val == 0:
            return
        if isinstance(val, V):
            st = st.copy()
            if st.assume(val, True) is False:
                return
        self.n += 1
        self.look(st)
        if not get_ps(st, 'whole') or not get_ps(st, 'part'):
            ai.report(st, ins, 'addresses are considered part of a /%d network although not all of its bits were compared' % self.k)


class Parse6(Rule):
    """the parser reports success only after storing the address"""
    def __init__(self):
        self.n = 0

    def start(self, st, fn, ai):
        set_ps(st, out=False)

    def call(self, st, ins, name, args, ai):
        if name and (name.startswith('llvm.memcpy') or name == 'memcpy' or name == 'memmove') and isinstance(args[0], V) and show(args[0]) == 'arg1' and st.const(args[2]) == 16:
            set_ps(st, out=True)

    def ret(self, st, ins, val, ai):
        if isconst(val) and val == 0:
            return
        self.n += 1
        if not get_ps(st, 'out'):
            if isinstance(val, V):
                s = st.copy()
                if s.truth(val) is False:
                    return
            ai.report(st, ins, 'an address is reported as parsed although it was not stored')


def check(ctx):
    p = prog()
    ctx.rule('auth', 'every auth action lets a request pass only if it was handled already, or the credential check called with user and password of the Authorization header succeeded, or it is answered with 401/403; REMOTE_USER only after success')
    ctx.rule('secret', 'every credential check succeeds only if the entry looked up by the user name compared equal (whole string) with the password (plain), its crypt under that entry (htpasswd) or md5(user:realm:password) (htdigest)')
    ctx.rule('users', 'only lines with a password field define users')
    ctx.rule('access', 'access actions let a request pass only if the client address, looked up with full length in the table of its family, is not denied, or it was handled already, or it is answered with 403')
    ctx.rule('tables', 'address tables deny everything first; entries of allow/deny lists get that value, the table of their family and the configured prefix; "all" only if configured')
    ctx.rule('net', 'IPv6 network membership compares all leading bits, for every prefix length 0..128; parsed addresses are stored')
    backs = backends(p, AUTH)
    ctx.floor('credential_checks', len(backs), 1)
    kinds = {k: set() for k in backs}
    KIND = {'auth.plain': 'plain', 'auth.htpasswd': 'crypt', 'auth.htdigest': 'digest'}
    for nm, cf in action_table(p, AUTH).items():
        if nm not in KIND:
            continue
        for g in p.reach([cf]):
            f = p.fns[g]
            if f.tu != AUTH:
                continue
            for i in f.instrs():
                for a in i.a:
                    t = fn_values(p, a, f.tu) if isinstance(a, str) else None
                    if t and t.key in kinds:
                        kinds[t.key].add(KIND[nm])
    for nm, kd in KIND.items():
        ctx.check('secret', AUTH, any(kd in x for x in kinds.values()), 'no credential check is used for %s' % nm)
    n = nb = 0
    for f in actions_of(p, AUTH):
        m = Gate(p, (401, 403), {x.name for x in backs.values()})
        ai = analyse(p, f, m, K=24, purecalls=LOGS, policy=same_tu(opaque=[x.name for x in backs.values()]))
        ctx.take(ai, 'auth')
        ctx.ok('auth', f.loc())
        n += m.n
        nb += m.nb
    ctx.floor('auth_pass_paths', n, 3)
    ctx.floor('auth_backend_calls', nb, 1)
    n = 0
    for k, f in backs.items():
        ctx.check('secret', f.loc(), kinds[k], '%s is not used by a known auth action' % f.name)
        m = Backend(p, kinds[k])
        ai = analyse(p, f, m, K=24, purecalls=LOGS, policy=same_tu(opaque=('auth_file_get_data', 'auth_file_data_release')))
        ctx.take(ai, 'secret')
        ctx.ok('secret', f.loc())
        n += m.n
    ctx.floor('accepting_paths', n, 1)
    n = 0
    for f in {f.key: f for f, i in callers_of(p, 'g_hash_table_insert') + callers_of(p, 'g_hash_table_replace') if f.tu == AUTH}.values():
        m = Entries()
        ctx.take(analyse(p, f, m, K=16, purecalls=LOGS), 'users')
        ctx.ok('users', f.loc())
        n += m.n
    ctx.floor('user_entries', n, 1)
    n = nl = 0
    for f in actions_of(p, ACCESS):
        m = Gate(p, (403,), trees=True)
        ctx.take(analyse(p, f, m, K=16, purecalls=LOGS), 'access')
        ctx.ok('access', f.loc())
        n += m.n
        nl += m.nl
    ctx.floor('access_pass_paths', n, 3)
    ctx.floor('address_lookups', nl, 2)
    n = 0
    for f in {f.key: f for f, i in callers_of(p, 'li_radixtree_insert') if f.tu == ACCESS}.values():
        for r in roots_calling(p, f):
            m = Trees(p)
            ctx.take(analyse(p, r, m, K=24, purecalls=LOGS), 'tables')
            ctx.ok('tables', r.loc())
            n += min(m.n, m.nr)
    ctx.floor('address_entries', n, 1)
    f6 = p.fn('li_ipv6_in_ipv6_net')
    ctx.need(f6 is not None, 'li_ipv6_in_ipv6_net not found')
    n = 0
    for k in range(0, 129):
        m = Net6(k)
        ctx.take(analyse(p, f6, m, K=8), 'net')
        n += m.n
    ctx.ok('net', f6.loc())
    ctx.floor('prefix_lengths', n, 129)
    f = p.fn('li_parse_ipv6')
    ctx.need(f is not None, 'li_parse_ipv6 not found')
    m = Parse6()
    ctx.take(analyse(p, f, m, K=2, maxvisit=200000), 'net')
    ctx.ok('net', f.loc())
    ctx.floor('parse_success_paths', m.n, 1)
