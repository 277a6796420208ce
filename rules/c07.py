"""C07 request paths stay below the configured roots"""
from common import *

EXPLAIN = ('Abstract interpretation of every function that changes the request path, the document root or the physical path, with a content class per string '
           '(empty, configuration, document root, normalised URL path, file below root, raw, unsanitised); of the validator for host labels; of the percent decoder.')

F = {('liRequestUri', 'path'): 'up', ('liPhysical', 'path'): 'pp', ('liPhysical', 'doc_root'): 'dr'}
RAW = {('liRequestUri', 'raw'), ('liRequestUri', 'raw_path'), ('liRequestUri', 'raw_orig_path'), ('liRequestUri', 'query'), ('liRequestUri', 'authority'), ('liRequestUri', 'host'), ('liRequestUri', 'scheme')}
# its state machine (entry parse_Hostname of the grammar) contains no action that touches the path
SKIP = {'li_parse_hostname'}
NAMES = {'up': 'request path', 'pp': 'physical path', 'dr': 'document root'}
APPEND = {'li_g_string_append_len': (1, 2), 'g_string_append_len': (1, 2), 'g_string_append': (1, None), 'g_string_append_c': (1, 'c'), 'g_string_insert_c': (2, 'c'),
          'g_string_insert_len': (2, 3), 'g_string_insert': (2, None), 'g_string_append_unichar': (1, 'c'), 'g_string_prepend': (1, None), 'g_string_prepend_len': (1, 2), 'g_string_prepend_c': (1, 'c'),
          'g_string_append_len_inline': (1, 2)}
ASSIGN = {'li_string_assign_len': (1, 2), 'g_string_assign': (1, None)}
OTHER = {'g_string_append_printf', 'g_string_printf', 'g_string_vprintf', 'g_string_append_vprintf', 'li_string_append_int', 'li_string_encode', 'li_string_encode_append', 'g_string_append_uri_escaped'}
MUT = set(APPEND) | set(ASSIGN) | OTHER | {'g_string_truncate', 'g_string_set_size', 'li_g_string_clear', 'li_path_append_slash', 'li_pattern_eval', 'g_string_overwrite', 'g_string_erase',
                                         'li_url_decode', 'li_path_simplify', 'g_string_truncate_inline', 'g_string_append_c_inline'}
NAMECHARS = frozenset(b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-')
US = mk('sym', ('c07', 'US'), 'uri.path->str')


def plus(d, s):
    """content class of the concatenation"""
    if s == 'E' or s == 'keep':
        return d
    if d == 'E':
        return 'D' if s == 'H' else s
    if s == 'C':
        return d if d in ('C', 'D', 'P', 'U', 'N', 'X', 'R', 'Dc') else 'X'
    if d == 'C' and s in ('D', 'N'):
        return s
    if d in ('C', 'D', 'N') and s == 'H':
        return 'D' if d != 'N' else 'N'
    if d in ('D', 'C') and s == 'U':
        return 'P'
    if d in ('C', 'N') and s == 'N':
        return 'N'
    if 'R' in (d, s):
        return 'R'
    return 'X'


class Content(Rule):
    def __init__(self, p, producers, roots):
        self.p = p
        self.producers = producers
        self.roots = roots
        self.n = 0
        self.out = set()         # classes of the request path at successful returns

    def start(self, st, fn, ai):
        set_ps(st, up='U', pp='P', dr='D', tmp=(), pb=None, run=None, ver=None)
        self.bool = fn.dty and fn.dty[0] == 'gboolean'
        self.ptrs = self.pointers(fn)
        for k in range(6):
            if not (fn.dty and k + 1 < len(fn.dty) and fn.dty[k + 1] in ('gpointer',)):
                continue
            st.mark('o', mk('arg', k), 'P')

    # ---- provenance of pointers
    joins = True

    def join(self, st, s, va, a, vb, b):
        for m in [m for m in st.marks if m[0] == 'o' and m[1] is s]:
            st.unmark(*m)
        ka, kb = self.ckind(a, va), self.ckind(b, vb)
        if ka == 'const':
            ka = kb
        if kb == 'const':
            kb = ka
        if ka is not None and ka == kb and ka != 'const':
            st.mark('o', s, ka)
        for k in (add(US, s), s):
            st.unmark('bnd', k)
            if ('bnd', self.sub(self.plin(a, va), k is not s)) in a.marks and ('bnd', self.sub(self.plin(b, vb), k is not s)) in b.marks:
                st.mark('bnd', k)

    @staticmethod
    def sub(v, off):
        return add(US, v) if off else v

    def ckind(self, st, v):
        if isconst(v) or v.k == 's':
            return 'const'
        k = self.kind(st, v)
        while k is None and v.k in ('fld', 'idx', 'off'):
            v = v.a[0]
            if not isinstance(v, V):
                return None
            if self.kind(st, v) == 'P':
                return 'P'
        return k

    def kind(self, st, v):
        for m in st.marks:
            if m[0] == 'o' and m[1] is v:
                return m[2]
        return None

    def okind(self, st, addr):
        """kind of what is found at addr"""
        k = fkey(addr) if addr.k == 'fld' else None
        if k in F:
            return F[k]
        if k in RAW:
            return 'raw'
        if k == ('_GString', 'str'):
            b = self.kind(st, addr.a[0])
            if b in ('up', 'pp', 'dr', 'raw'):
                return b + 's'
            if b is None and isinstance(addr.a[0], V) and self.tmpcls(st, addr.a[0]) is not None:
                return ('ts', addr.a[0])
        # anything reached from the action parameter is configuration
        r = addr
        n = 0
        while isinstance(r, V) and n < 12:
            n += 1
            kk = self.kind(st, r)
            if kk == 'P':
                return 'P'
            if r.k in ('fld', 'idx', 'off', 'init'):
                r = r.a[0]
            else:
                return None
        return None

    def load(self, st, ins, addr, val, ai):
        if not isinstance(addr, V):
            return
        if isinstance(val, V):
            k = self.okind(st, addr)
            if k is not None:
                old = self.kind(st, val)
                if old is not None and old != k:
                    st.unmark('o', val, old)
                st.mark('o', val, k)
        if ins.ty == 'i8' and isinstance(val, V) and self.inpath(st, addr):
            st.mark('o', val, 'b')
        if ins.ty == 'i8' and get_ps(st, 'ver') is None and self.inpath(st, addr):
            set_ps(st, pb=(addr, val))
            self.look(st)

    def inpath(self, st, addr):
        r = addr
        n = 0
        while isinstance(r, V) and n < 20:
            n += 1
            if self.kind(st, r) == 'ups':
                return True
            if r.k in ('idx', 'off'):
                r = r.a[0]
            elif r.k == 'sum':
                c, d = lin(r)
                return any(self.inpath(st, x) for x, k in d.items() if k == 1)
            elif r.k == 'sym':
                i = r.a[0]
                if isinstance(i, tuple) and i[0] == 'j':
                    i = i[2]
                return i in self.ptrs
            else:
                return False
        return False

    def pointers(self, fn):
        """instructions whose value points into the request path"""
        d = fn.defs()

        def isstr(i):
            if i.op != 'load' or static_field(fn, i.a[0]) != ('_GString', 'str'):
                return False
            g = d.get(int(i.a[0][1:])) if isinstance(i.a[0], str) and i.a[0].startswith('%') else None
            if g is None:
                return False
            b = g.a[0] if g.op == 'getelementptr' else i.a[0]
            b = d.get(int(b[1:])) if isinstance(b, str) and b.startswith('%') else None
            return b is not None and b.op == 'load' and static_field(fn, b.a[0]) == ('liRequestUri', 'path')
        r = {i.id for i in fn.instrs() if isstr(i)}
        ch = bool(r)
        while ch:
            ch = False
            for i in fn.instrs():
                if i.id in r or i.op not in ('getelementptr', 'phi', 'select', 'bitcast'):
                    continue
                ops = i.a[:1] if i.op == 'getelementptr' else i.a
                if any(isinstance(x, str) and x.startswith('%') and int(x[1:]) in r for x in ops):
                    r.add(i.id)
                    ch = True
        return r

    def plin(self, st, v, d=0):
        if not isinstance(v, V) or d > 8:
            return v
        if self.kind(st, v) == 'ups':
            return US
        if v.k == 'u' and v.a[1] >= 32:
            return self.plin(st, v.a[0], d + 1)
        if v.k == 'idx' and v.a[2] == 1:
            return add(self.plin(st, v.a[0], d + 1), self.plin(st, v.a[1], d + 1))
        if v.k == 'sum':
            c, dd = lin(v)
            r = c
            for x, k in dd.items():
                y = self.plin(st, x, d + 1)
                c2, d2 = lin(y)
                r = add(r, mklin(c2 * k, {a: b * k for a, b in d2.items()}))
            return r
        return v

    def poss(self, st, v):
        return byte_values(st, v)

    def look(self, st):
        pb = get_ps(st, 'pb')
        if pb and self.poss(st, pb[1]) <= {0, 47}:
            st.mark('bnd', self.plin(st, pb[0]))
            if get_ps(st, 'run') is not None:
                # the part from the first checked byte up to here consists of harmless characters
                set_ps(st, ver=(get_ps(st, 'run'), self.plin(st, pb[0])), pb=None, run=None)

    def branch(self, st, ins, cond, truth, ai):
        self.look(st)
        if isinstance(cond, V) and cond.k == 'cmp':
            # an offset known to be at the end of the path
            for x, y in (cond.a[1:], cond.a[2:0:-1]):
                g = base_of(st, x, '_GString', 'len')
                if g is not None and self.kind(st, g) == 'up' and st.evalcmp('ule', x, y):
                    st.mark('bnd', add(US, self.plin(st, y)))

    def preload(self, st, ins, addr, ai):
        if ins.ty != 'i8' or not isinstance(addr, V) or get_ps(st, 'ver') is not None or not self.inpath(st, addr):
            return
        pb = get_ps(st, 'pb')
        if pb and pb[0] is not addr:
            if self.poss(st, pb[1]) <= NAMECHARS:
                if get_ps(st, 'run') is None:
                    c, d = lin(self.plin(st, pb[0]))
                    if d == {US: 1}:
                        set_ps(st, run=c)
            else:
                set_ps(st, run=None)

    # ---- contents
    def tmpcls(self, st, g):
        for a, c in get_ps(st, 'tmp'):
            if a is g:
                return c
        return None

    def settmp(self, st, g, c):
        t = [x for x in get_ps(st, 'tmp') if x[0] is not g]
        if c is not None:
            t.append((g, c))
        set_ps(st, tmp=tuple(sorted(t, key=lambda x: x[0].n))[-3:])

    def cls(self, st, g):
        k = self.kind(st, g)
        if k in ('up', 'pp', 'dr'):
            return get_ps(st, k)
        if k == 'P':
            return 'C'
        if isinstance(g, V):
            return self.tmpcls(st, g) or 'X'
        return 'X'

    def setcls(self, st, ins, g, c, ai):
        k = self.kind(st, g)
        if k in ('up', 'pp', 'dr'):
            self.n += 1
            set_ps(st, **{k: c})
            if k == 'up':
                for m in [m for m in st.marks if m[0] == 'bnd']:
                    st.unmark(*m)
                set_ps(st, ver=None, pb=None, run=None)
            if c == 'X' and k in ('pp', 'dr'):
                ai.report(st, ins, 'the %s is extended with something that is neither configured nor a normalised part of the request path' % NAMES[k])
        elif isinstance(g, V) and k != 'raw':
            self.settmp(st, g, c)

    def src(self, st, ptr, ln, dest):
        if ln == 'c':
            if isconst(ptr):
                return 'C'
            if get_ps(st, 'ver') is not None and isinstance(ptr, V) and self.kind(st, ptr) == 'b':
                return 'H'
            return 'X'
        if isinstance(ptr, V) and ptr.k == 's':
            return 'C'
        k = self.kind(st, ptr)
        if k == 'ups':
            return get_ps(st, 'up')
        if k == 'pps':
            return get_ps(st, 'pp')
        if k == 'drs':
            return 'D' if get_ps(st, 'dr') in ('D', 'N', 'C', 'E') else get_ps(st, 'dr')
        if k == 'raws':
            return 'R'
        if isinstance(k, tuple) and k[0] == 'ts':
            return self.tmpcls(st, k[1]) or 'X'
        if k == 'P':
            return 'C'
        if isinstance(k, str) and k.startswith('lib'):
            return 'C'
        if isinstance(ptr, V):
            a = self.plin(st, ptr)
            c, d = lin(a)
            if ('bnd', a) in st.marks and get_ps(st, 'up') == 'U':
                return 'U'       # normalised path from a segment boundary on
            ver = get_ps(st, 'ver')
            if dest == 'dr' and ver is not None and ln is not None and d == {US: 1} and c >= ver[0] and add(a, self.plin(st, ln)) is ver[1]:
                return 'H'       # a name taken from the path: only harmless characters
        return 'X'

    def call(self, st, ins, name, args, ai):
        if name is None or not args:
            return
        g = args[0]
        if name in APPEND or name in ASSIGN:
            pi, li = (APPEND.get(name) or ASSIGN[name])
            ptr = args[pi]
            ln = li if li in ('c', None) else args[li]
            dk = self.kind(st, g)
            if dk is None and not isinstance(g, V):
                return
            c = self.src(st, ptr, ln, dk)
            self.setcls(st, ins, g, plus('E' if name in ASSIGN else self.cls(st, g), c), ai)
        elif name in OTHER:
            self.setcls(st, ins, g if not name.startswith('li_string_encode') else args[1], 'X', ai)
        elif name in ('g_string_truncate', 'g_string_set_size', 'li_g_string_clear', 'g_string_truncate_inline'):
            n = args[1] if len(args) > 1 else 0
            if st.const(n) == 0:
                self.setcls(st, ins, g, 'E', ai)
            elif self.kind(st, g) == 'pp' and any(a.a[0] is not None and x is n and self.kind(st, a.a[0]) == 'dr' for a, x in mem_of(st, '_GString', 'len')):
                set_ps(st, pp='D')
        elif name == 'li_path_append_slash':
            self.setcls(st, ins, g, plus(self.cls(st, g), 'C'), ai)
        elif name == 'li_pattern_eval':
            g = args[1]
            self.setcls(st, ins, g, 'N' if self.cls(st, g) in ('E', 'C', 'N') else 'X', ai)
        elif name == 'li_url_decode':
            c = self.cls(st, g)
            if c in ('U', 'Dc') and self.kind(st, g) == 'up':
                ai.report(st, ins, 'the request path is percent-decoded after it was normalised or decoded')
            self.setcls(st, ins, g, 'Dc', ai)
        elif name == 'li_path_simplify':
            c = self.cls(st, g)
            self.setcls(st, ins, g, 'R' if c == 'R' else 'U', ai)
        elif name in self.producers and self.p.resolve(name, ins.owner.tu) is not None:
            set_ps(st, up=self.producers[name])

    def post_call(self, st, ins, name, args, res, ai):
        if isinstance(res, V):
            for m in [m for m in st.marks if m[0] == 'o' and m[1] is res]:
                st.unmark(*m)
            if name == 'lua_tolstring':
                st.mark('o', res, 'libs')
            elif name in ('g_string_new_len', 'g_string_new'):
                self.settmp(st, res, self.src(st, args[0], args[1] if len(args) > 1 else None, None))
            elif name in ('g_string_sized_new',):
                self.settmp(st, res, 'E')
        if name in ('getpwnam_r',) and len(args) > 1:
            st.mark('pw', root(args[1]))

    def store(self, st, ins, addr, val, ai):
        if not isinstance(addr, V):
            return
        k = fkey(addr)
        if addr.k == 'fld' and k == ('_GString', 'len'):
            if st.const(val) == 0:
                self.setcls(st, ins, addr.a[0], 'E', ai)
        elif addr.k == 'fld' and k in F and isinstance(val, V):
            set_ps(st, **{F[k]: self.cls(st, val) if self.tmpcls(st, val) else 'X'})
        elif ins.x is not None and addr.k == 'idx' and val != 0:
            kk = self.kind(st, addr.a[0])
            g = None
            if kk in ('pps', 'drs', 'ups'):
                base_ = kk[:-1]
                if isinstance(addr.a[1], V) or True:
                    if base_ == 'up' and not self.isappend(st, addr):
                        return
                    c = self.src(st, val, 'c', base_)
                    n = plus(get_ps(st, base_), c)
                    set_ps(st, **{base_: n})
                    self.n += 1
                    if n == 'X' and base_ != 'up':
                        ai.report(st, ins, 'the %s is extended with something that is neither configured nor a normalised part of the request path' % NAMES[base_])

    def isappend(self, st, addr):
        i = addr.a[1]
        return any(x is i for a, x in mem_of(st, '_GString', 'len'))

    OKRET = {'up': ('U', 'E', 'C'), 'pp': ('P', 'E', 'D', 'C'), 'dr': ('D', 'E', 'C', 'N')}

    def ret(self, st, ins, val, ai):
        if self.bool and st.const(val) == 0:
            return
        for k, ok in self.OKRET.items():
            c = get_ps(st, k)
            if c not in ok:
                if k == 'up':
                    self.out.add(c)
                    self.unclean = (st, ins)
                    if ai.fn.key in self.roots:
                        ai.report(st, ins, 'the request path is left %s' % {'R': 'percent-encoded and unnormalised', 'Dc': 'with its dot segments', 'N': 'with its dot segments', 'X': 'without removing dot segments'}.get(c, c))
                else:
                    ai.report(st, ins, 'the %s is left in a state that is not below the configured root' % NAMES[k])


class Pw(Content):
    """home directories come from the password database"""

    def okind(self, st, addr):
        if addr.k == 'fld' and fkey(addr) == ('passwd', 'pw_dir'):
            return 'libs'
        return Content.okind(self, st, addr)


class Host(Rule):
    """accepted host names have no empty labels"""

    def __init__(self):
        self.n = 0

    def start(self, st, fn, ai):
        set_ps(st, dd=False, lead=False, trail=False)

    def ishost(self, st, g):
        return ('hp', g) in st.marks or loaded_from(st, g, 'liRequestUri', 'host')

    def strof(self, st, v):
        """v is host->str"""
        if not isinstance(v, V):
            return False
        if ('hs', v) in st.marks:
            return True
        if v.k == 'init' and fkey(v.a[0]) == ('_GString', 'str') and self.ishost(st, v.a[0].a[0]):
            return True
        return any(x is v and self.ishost(st, a.a[0]) for a, x in mem_of(st, '_GString', 'str'))

    def lenof(self, st, v):
        return ('hl', v) in st.marks or any(x is v and self.ishost(st, a.a[0]) for a, x in mem_of(st, '_GString', 'len')) or \
            isinstance(v, V) and v.k == 'init' and fkey(v.a[0]) == ('_GString', 'len') and self.ishost(st, v.a[0].a[0])

    def notdot(self, st, v):
        if isconst(v):
            return v != 46
        lo, hi, ne = st.rng(v)
        return lo > 46 or hi < 46 or 46 in ne

    def strip(self, v):
        while isinstance(v, V) and v.k == 'u' and v.a[1] >= 32:
            v = v.a[0]
        return v

    joins = True

    def join(self, st, s, va, a, vb, b):
        for w, t in (('nd', self.lastok), ('hp', self.ishost), ('hs', self.strof), ('hl', self.lenof)):
            st.unmark(w, s)
            if t(a, va) and t(b, vb):
                st.mark(w, s)

    def load(self, st, ins, addr, val, ai):
        if isinstance(addr, V) and addr.k == 'fld' and isinstance(val, V):
            k = fkey(addr)
            if k == ('liRequestUri', 'host'):
                st.mark('hp', val)
            elif k[0] == '_GString' and self.ishost(st, addr.a[0]):
                if k[1] == 'str':
                    st.mark('hs', val)

    def lastok(self, st, n):
        """the byte before position n of the host is known not to be a dot, or n is zero"""
        n = self.strip(n)
        if st.const(n) == 0 or ('nd', n) in st.marks or get_ps(st, 'trail') and self.lenof(st, n):
            return True
        return False

    def ends(self, st):
        for a, x in st.mem.items():
            if a.k == 'idx' and self.strof(st, a.a[0]) and self.notdot(st, x):
                i = self.strip(a.a[1])
                if isinstance(i, V) and i.k == 'sum':
                    c, d = lin(i)
                    i = mklin(c, {self.strip(q): w for q, w in d.items()})
                st.mark('nd', add(i, 1))

    def look(self, st):
        self.ends(st)
        if not get_ps(st, 'lead'):
            for a, x in st.mem.items():
                if (self.strof(st, a) or a.k == 'idx' and a.a[1] == 0 and self.strof(st, a.a[0])) and self.notdot(st, x):
                    set_ps(st, lead=True)
        if not get_ps(st, 'trail'):
            for a, x in mem_of(st, '_GString', 'len'):
                if self.ishost(st, a.a[0]) and self.lastok(st, x):
                    set_ps(st, trail=True)
        r = get_ps(st, 'ss')
        if r is not None and not get_ps(st, 'dd') and st.const(r) == 0:
            set_ps(st, dd=True)

    def branch(self, st, ins, cond, truth, ai):
        self.look(st)
        if isinstance(cond, V) and cond.k == 'cmp' and cond.a[0] not in ('eq', 'ne'):
            # an inlined truncation compares the length with the new one and stores the smaller
            for x, y in (cond.a[1:], cond.a[2:0:-1]):
                if self.lenof(st, x) and not self.lenof(st, y) and self.lastok(st, y):
                    set_ps(st, cut=True)

    def call(self, st, ins, name, args, ai):
        if name in ('g_string_truncate', 'g_string_set_size', 'g_string_truncate_inline') and self.ishost(st, args[0]):
            ok = self.lastok(st, args[1])
            set_ps(st, trail=ok, lead=False if not get_ps(st, 'lead') else True)
        elif name in MUT and args and self.ishost(st, args[0]) or name in ('li_parse_raw_url', 'li_parse_hostname', 'li_parse_raw_path'):
            set_ps(st, trail=False, lead=False, dd=False, ss=None)

    def store(self, st, ins, addr, val, ai):
        if isinstance(addr, V) and addr.k == 'fld' and fkey(addr) == ('_GString', 'len') and self.ishost(st, addr.a[0]):
            for m in [m for m in st.marks if m[0] == 'hl']:
                st.unmark(*m)
            set_ps(st, trail=self.lastok(st, val) or get_ps(st, 'cut', False) or get_ps(st, 'trail') and val is st.mem.get(addr), cut=False)

    def post_call(self, st, ins, name, args, res, ai):
        if name in ('strstr', 'g_strstr_len') and self.strof(st, args[0]) and const_arg_str(args[-1]) == '..':
            track(st, res)
            set_ps(st, ss=res)

    def ret(self, st, ins, val, ai):
        if st.const(val) == 0:
            return
        self.look(st)
        self.n += 1
        if not get_ps(st, 'trail'):
            ai.report(st, ins, 'a request is accepted with a host name that may end in a dot')
        if not get_ps(st, 'dd') or not get_ps(st, 'lead'):
            ai.report(st, ins, 'a request is accepted with a host name that may contain empty labels')


class Decode(Rule):
    """percent decoding: result written back on every path, no control characters"""

    def __init__(self):
        self.n = 0

    def start(self, st, fn, ai):
        set_ps(st, sized=False)

    joins = True

    def join(self, st, s, va, a, vb, b):
        st.unmark('safe', s)
        if self.safe(a, va) and self.safe(b, vb):
            st.mark('safe', s)

    def safe(self, st, v):
        return ('safe', v) in st.marks or not byte_values(st, v) & (set(range(32)) | {127})

    def store(self, st, ins, addr, val, ai):
        if isinstance(addr, V) and addr.k == 'fld' and fkey(addr) == ('_GString', 'len'):
            set_ps(st, sized=True)
            return
        if not isinstance(addr, V) or addr.k == 'fld' or addr.k == 'alloca' or root(addr).k == 'alloca':
            return
        if isconst(val) and val == 0 and get_ps(st, 'sized'):
            return
        self.n += 1
        if not self.safe(st, val):
            ai.report(st, ins, 'the decoded path may contain control characters')

    def call(self, st, ins, name, args, ai):
        if name in ('g_string_set_size', 'g_string_truncate'):
            set_ps(st, sized=True)

    def ret(self, st, ins, val, ai):
        if not get_ps(st, 'sized'):
            ai.report(st, ins, 'percent decoding can end without cutting the string to the decoded part')


def users(p):
    """functions changing one of the path strings"""
    out = {}
    for fn in p.fns.values():
        d = fn.defs()
        for i in fn.calls():
            n = callee_name(i)
            if n not in MUT or not i.a:
                continue
            for a in i.a[:2]:
                x = d.get(int(a[1:])) if isinstance(a, str) and a.startswith('%') else None
                if x is not None and x.op == 'load' and static_field(fn, x.a[0]) in F:
                    out[fn.key] = fn
        for i in fn.instrs():
            if i.op == 'store' and static_field(fn, i.a[1]) == ('_GString', 'len'):
                # g_string_truncate and friends, inlined by the compiler
                a = i.a[1]
                x = d.get(int(a[1:])) if isinstance(a, str) and a.startswith('%') else None
                b = d.get(int(x.a[0][1:])) if x is not None and x.op == 'getelementptr' and isinstance(x.a[0], str) and x.a[0].startswith('%') else None
                if b is not None and b.op == 'load' and static_field(fn, b.a[0]) in F:
                    out[fn.key] = fn
    return out


def check(ctx):
    p = prog()
    ctx.rule('content', 'request path: decoded once, then normalised, before a handler or the validator succeeds; document root and physical path: only configured parts and normalised request path from a segment boundary; names taken from the path only [A-Za-z0-9_-]')
    ctx.rule('host', 'accepted host names: no leading dot, no "..", no trailing dot')
    ctx.rule('decode', 'percent decoding cuts the string on every path and writes no control characters')
    us = users(p)
    ctx.floor('functions_changing_paths', len(us), 8)
    roots = {}
    for f in us.values():
        for r in roots_calling(p, f):
            if r.name not in SKIP:
                roots[r.key] = r
    at = p.addr_taken()
    callers = p.callers()
    producers = {}
    done = {}
    work = list(roots.values())
    n = 0
    while work:
        r = work.pop()
        ext = [c for c in callers.get(r.key, []) if c.owner.tu != r.tu]
        isroot = r.key in at or not ext
        m = Pw(p, producers, {r.key} if isroot else set())
        ai = analyse(p, r, m, K=8 if len(r.blocks) < 200 else 2, purecalls=LOGS | {'li_stat_cache_get', 'li_string_prefix', 'li_string_suffix'}, policy=same_tu(opaque=tuple(MUT)))
        n += m.n
        done[r.key] = ai
        if m.out and not isroot:
            w = 'R' if 'R' in m.out else 'X'
            if producers.get(r.name) != w:
                producers[r.name] = w
                for c in ext:
                    for q in roots_calling(p, c.owner):
                        roots[q.key] = q
                        if q not in work:
                            work.append(q)
    for k, ai in done.items():
        ctx.take(ai, 'content')
        ctx.ok('content', p.fns[k].loc())
    ctx.floor('string_changes', n, 20)
    ctx.cov['raw_producers'] = sorted(producers)
    v = p.fn('li_request_validate_header')
    m = Host()
    ai = analyse(p, v, m, K=6, purecalls=LOGS, policy=same_tu(opaque=tuple(MUT)))
    ctx.take(ai, 'host')
    ctx.ok('host', v.loc())
    ctx.floor('accepting_paths', m.n, 1)
    d = p.fn('li_url_decode')
    m = Decode()
    ai = analyse(p, d, m, K=12, purecalls=LOGS)
    ctx.take(ai, 'decode')
    ctx.ok('decode', d.loc())
    ctx.floor('decoded_byte_stores', m.n, 2)
