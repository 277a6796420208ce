"""Path-sensitive abstract interpretation of one (inlined) function.

Disjunctive states (SSA environment, field-sensitive memory, value facts, property state of a
monitor) are propagated over the CFG to a fixpoint; at most K disjuncts are kept per program point
and property state, after which states are joined (and intervals widened), so every path is covered.
Nothing is executed and no solver is involved: a branch is dropped only when interval/disequality
facts contradict it.
"""
import time
from collections import defaultdict, deque
from front import AnalysisBroken
import ir
from ir import callee_name

INF = float('inf')
_tab = {}


class V:
    __slots__ = ('k', 'a', 'syms', 'depth', 'n')

    def __repr__(self):
        return show(self)


_cnt = [0]


def mk(k, *a):
    key = (k,) + a
    v = _tab.get(key)
    if v is None:
        v = V()
        v.k = k
        v.a = a
        s = frozenset()
        d = 0
        if k == 'sym':
            s = frozenset([v])
        else:
            for x in a:
                if isinstance(x, V):
                    s = s | x.syms
                    if x.depth >= d:
                        d = x.depth + 1
        v.syms = s
        v.depth = d
        _cnt[0] += 1
        v.n = _cnt[0]
        _tab[key] = v
    return v


def show(v, d=0):
    if not isinstance(v, V):
        return repr(v)
    if d > 7:
        return '…'
    k, a = v.k, v.a
    if k == 'arg':
        return 'arg%d' % a[0]
    if k == 'sym':
        return '<%s>' % (a[1] if len(a) > 1 else a[0])
    if k == 'init':
        return '*' + show(a[0], d + 1)
    if k == 'fld':
        return '%s->%s' % (show(a[0], d + 1), a[2])
    if k == 'idx':
        return '%s[%s]' % (show(a[0], d + 1), show(a[1], d + 1))
    if k == 'alloca':
        return '&local%s' % (a[1] or a[0])
    if k == 'g':
        return a[0]
    if k == 'fn':
        return '@' + a[0]
    if k == 's':
        return '"%s"' % a[0]
    return '%s(%s)' % (k, ','.join(show(x, d + 1) for x in a))


# widening thresholds
_LO = (1, 0, -1, -(1 << 31), -(1 << 63))
_HI = (0, 1, 15, 255, 8192, 65536, (1 << 31) - 1, (1 << 32) - 1, (1 << 63) - 1)


def wlo(x):
    for t in _LO:
        if t <= x:
            return t
    return -INF


def whi(x):
    for t in _HI:
        if t >= x:
            return t
    return INF


def isconst(v):
    return isinstance(v, (int, bool))


NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
       'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle',
        'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}


def width(ty):
    if ty and ty[0] == 'i' and ty[1:].isdigit():
        return int(ty[1:])
    return 64


def wrap(n, w):
    m = 1 << w
    n &= m - 1
    if w > 1 and n >= m >> 1:
        n -= m
    return n


def lin(v):
    """linear normal form: (const, {V: coef})"""
    if isconst(v):
        return int(v), {}
    if v.k == 'sum':
        c = v.a[0]
        return c, dict(zip(v.a[1::2], v.a[2::2]))
    return 0, {v: 1}


def mklin(c, d):
    d = {k: n for k, n in d.items() if n}
    if not d:
        return c
    if c == 0 and len(d) == 1:
        (k, n), = d.items()
        if n == 1:
            return k
    it = sorted(d.items(), key=lambda x: x[0].n)
    args = [c]
    for k, n in it:
        args += [k, n]
    return mk('sum', *args)


def add(a, b, sign=1):
    ca, da = lin(a)
    cb, db = lin(b)
    d = dict(da)
    for k, n in db.items():
        d[k] = d.get(k, 0) + sign * n
    return mklin(ca + sign * cb, d)


def root(addr):
    while isinstance(addr, V) and addr.k in ('fld', 'idx', 'off'):
        addr = addr.a[0]
    return addr


def prefix_of(p, a):
    while isinstance(a, V):
        if a is p:
            return True
        if a.k in ('fld', 'idx', 'off'):
            a = a.a[0]
        else:
            return False
    return False


def fkey(addr):
    """(struct, field) of an address"""
    while isinstance(addr, V) and addr.k == 'idx':
        addr = addr.a[0]
    if isinstance(addr, V) and addr.k == 'fld':
        return (addr.a[1], addr.a[2])
    return None


def base(addr):
    return addr.a[0]


PURE = set('''strlen strcmp strncmp memcmp memchr strchr strrchr strstr strcasecmp strncasecmp g_str_equal g_strcmp0 g_ascii_strcasecmp
g_ascii_strncasecmp g_str_has_prefix g_str_has_suffix g_string_equal g_ascii_strtoll g_ascii_strtoull strtol strtoul atoi
g_strstr_len g_strrstr htons ntohs htonl ntohl isdigit isspace isxdigit g_hash_table_lookup g_hash_table_size
__errno_location g_assert_warning g_log getpid geteuid getuid g_thread_self time g_hash_table_contains abs
g_list_nth g_list_length g_queue_peek_head g_queue_peek_tail g_queue_get_length g_queue_is_empty g_queue_peek_head_link g_queue_peek_tail_link g_strerror strerror gnutls_strerror
g_str_hash g_string_hash g_quark_to_string g_quark_from_string g_list_last g_list_first g_queue_peek_nth g_queue_find g_list_find
log_enabled getenv lua_type lua_toboolean lua_isnumber lua_isstring lua_gettop lua_tonumber lua_tointeger lua_tolstring'''.split())

PURE_PREFIX = ('llvm.dbg', 'llvm.lifetime', 'llvm.objectsize', 'llvm.ctpop', 'llvm.bswap', 'llvm.umul', 'llvm.sadd', 'llvm.expect', 'llvm.va_')

ALLOC0 = {'g_slice_alloc0', 'g_malloc0', 'g_malloc0_n', 'calloc'}
ALLOC = {'g_slice_alloc', 'g_malloc', 'g_malloc_n', 'malloc'}
NONNULL = {'li_chunkqueue_new', 'li_stream_plug_new', 'g_slice_alloc0', 'g_malloc0', 'g_malloc0_n', 'g_slice_alloc', 'g_malloc', 'g_malloc_n', 'g_string_new', 'g_string_sized_new',
           'g_string_new_len', 'g_array_new', 'g_array_sized_new', 'g_ptr_array_new', 'g_queue_new', 'g_hash_table_new', 'g_hash_table_new_full', 'g_byte_array_new', '__errno_location'}


DIGITS = {'@g_ascii_xdigit_value': ((48, 57, -48), (65, 70, -55), (97, 102, -87), (-128, 47, None), (58, 64, None), (71, 96, None), (103, 127, None)),
          '@g_ascii_digit_value': ((48, 57, -48), (-128, 47, None), (58, 127, None))}


class St:
    __slots__ = ('env', 'mem', 'facts', 'dirty', 'ps', 'esc', 'trail', 'zero', 'tracked', 'marks')

    def mark(self, *m):
        if m not in self.marks:
            self.marks = self.marks | frozenset([m])

    def unmark(self, *m):
        if m in self.marks:
            self.marks = self.marks - frozenset([m])

    def copy(self):
        n = St()
        n.env = dict(self.env)
        n.mem = dict(self.mem)
        n.facts = dict(self.facts)
        n.dirty = self.dirty
        n.ps = self.ps
        n.esc = self.esc
        n.trail = self.trail
        n.zero = self.zero
        n.tracked = self.tracked
        n.marks = self.marks
        return n

    # ---------------- facts
    def rng(self, v):
        if isconst(v):
            return (int(v), int(v), frozenset())
        f = self.facts.get(v)
        if f is not None:
            lo, hi, ne = f
        else:
            lo, hi, ne = -INF, INF, frozenset()
        if v.k == 'cmp':
            lo, hi = max(lo, 0), min(hi, 1)
        elif v.k == 'sum' and len(v.a) == 3 and v.a[2] in (1, -1):
            l2, h2, n2 = self.rng(v.a[1])
            if v.a[2] == 1:
                lo, hi = max(lo, l2 + v.a[0]), min(hi, h2 + v.a[0])
                ne = ne | frozenset(x + v.a[0] for x in n2)
            else:
                lo, hi = max(lo, v.a[0] - h2), min(hi, v.a[0] - l2)
        elif v.k == 'and' and isconst(v.a[1]) and v.a[1] >= 0:
            lo, hi = max(lo, 0), min(hi, v.a[1])
        elif v.k in ('srem', 'urem') and isconst(v.a[1]) and v.a[1] > 0:
            l2 = self.rng(v.a[0])[0]
            if l2 >= 0:
                lo, hi = max(lo, 0), min(hi, v.a[1] - 1)
            elif v.k == 'srem':
                lo, hi = max(lo, 1 - v.a[1]), min(hi, v.a[1] - 1)
        elif v.k in ('sdiv', 'udiv', 'ashr', 'lshr') and isconst(v.a[1]) and (v.a[1] > 0 if 'div' in v.k else 0 <= v.a[1] < 64):
            l2, h2, _ = self.rng(v.a[0])
            d = v.a[1] if 'div' in v.k else 1 << v.a[1]
            if l2 >= 0 and h2 < INF:
                lo, hi = max(lo, int(l2) // d), min(hi, int(h2) // d)
            elif l2 >= 0:
                lo = max(lo, 0)
        elif v.k in ('alloca', 'fn', 's', 'g'):
            lo = max(lo, 1)
        elif v.k == 'fld':
            if v.a[3] > 0 or self.rng(v.a[0])[0] >= 1 or 0 in self.rng(v.a[0])[2]:
                ne = ne | frozenset([0])
        elif v.k == 'u':
            lo = max(lo, 0)
            hi = min(hi, (1 << v.a[1]) - 1)
        return lo, hi, ne

    def const(self, v):
        """integer this value is known to be, or None"""
        if isconst(v):
            return int(v)
        lo, hi, ne = self.rng(v)
        if lo == hi:
            return lo
        if v.k == 'cmp' or v.k == 'bool':
            t = self.truth(v)
            if t is not None:
                return int(t)
        return None

    def nonzero(self, v):
        lo, hi, ne = self.rng(v)
        if lo > 0 or hi < 0 or 0 in ne:
            return True
        return isinstance(v, V) and v.k in ('cmp', 'bool') and self.truth(v) is True

    def setr(self, v, lo, hi, ne):
        """narrow v; False when infeasible"""
        l0, h0, n0 = self.rng(v)
        lo = max(lo, l0)
        hi = min(hi, h0)
        ne = n0 | ne
        while lo in ne:
            lo += 1
        while hi in ne:
            hi -= 1
        if lo > hi:
            return False
        if isconst(v):
            return True
        if len(ne) > 12:
            ne = frozenset(sorted(ne, key=abs)[:12])
        self.facts[v] = (lo, hi, frozenset(x for x in ne if lo <= x <= hi))
        if v.k == 'sum' and len(v.a) == 3 and v.a[2] == 1:
            c = v.a[0]
            return self.setr(v.a[1], lo - c, hi - c, frozenset(x - c for x in ne))
        if v.k in ('u',):
            # zero-extended value: same number when the operand is known non-negative
            if hi < (1 << (v.a[1] - 1)):
                return self.setr(v.a[0], lo, hi, ne)
            if 0 in ne or lo > 0:
                return self.setr(v.a[0], -INF, INF, frozenset([0]))
        if v.k == 'trunc':
            if lo == hi == 0:
                pass
        if v.k == 'cmp' and lo == hi:
            return self.assume(v, lo == 1)
        return True

    def evalcmp(self, pr, a, b):
        if a is b or (isconst(a) and isconst(b) and a == b):
            if isinstance(a, V) and a.k == 'stale2':
                return None
            return pr in ('eq', 'sle', 'sge', 'ule', 'uge')
        f = self.facts.get(mk('cmp', pr, a, b)) or self.facts.get(mk('cmp', SWAP[pr], b, a))
        if f is not None and f[0] == f[1]:
            return f[0] == 1
        l1, h1, n1 = self.rng(a)
        l2, h2, n2 = self.rng(b)
        if pr in ('eq', 'ne'):
            r = None
            if h1 < l2 or h2 < l1:
                r = False
            elif l1 == h1 and (l1 in n2):
                r = False
            elif l2 == h2 and (l2 in n1):
                r = False
            elif l1 == h1 == l2 == h2:
                r = True
            elif isinstance(a, V) and isinstance(b, V):
                d = add(a, b, -1)
                if isconst(d):
                    r = (d == 0)
                elif a.k in ('alloca', 's', 'fn', 'g') and b.k in ('alloca', 'fn', 'g'):
                    r = False
            if r is None and isinstance(a, V) and isinstance(b, V):
                for q in ('ult', 'ugt', 'slt', 'sgt'):
                    f = self.facts.get(mk('cmp', q, a, b)) or self.facts.get(mk('cmp', SWAP[q], b, a))
                    if f is not None and f[0] == f[1] == 1:
                        r = False
            if r is None:
                return None
            return r if pr == 'eq' else not r
        signed = pr[0] == 's'
        if not signed:
            if l1 < 0 or l2 < 0:
                # unsigned view unknown unless both provably non-negative
                if pr == 'ult' and b == 0:
                    return False
                if pr == 'uge' and b == 0:
                    return True
                if pr == 'ugt' and b == 0 and 0 in n1:
                    return True
                return None
        c = pr[1:]
        if c == 'lt':
            if h1 < l2:
                return True
            if l1 >= h2:
                return False
        elif c == 'le':
            if h1 <= l2:
                return True
            if l1 > h2:
                return False
        elif c == 'gt':
            if l1 > h2:
                return True
            if h1 <= l2:
                return False
        elif c == 'ge':
            if l1 >= h2:
                return True
            if h1 < l2:
                return False
        return None

    def assume(self, v, truth):
        """restrict to v being true/false; False when infeasible"""
        if isconst(v):
            return bool(v) == truth
        if v.k == 'cmp' and isinstance(v.a[1], V) and v.a[1].k == 'init' and v.a[2] == 0 and fkey(v.a[1].a[0]) == ('liOptionValue', 'boolean'):
            return True       # configuration flags: both outcomes are explored at every test
        if v.k == 'cmp':
            pr, a, b = v.a
            if not truth:
                pr = NEG[pr]
            r = self.evalcmp(pr, a, b)
            if r is not None:
                if not r:
                    return False
            # boolean expression compared with 0/1
            if isconst(b) and isinstance(a, V) and a.k in ('cmp', 'bool') and b in (0, 1) and pr in ('eq', 'ne'):
                return self.assume(a, (b == 1) == (pr == 'eq'))
            self.facts[mk('cmp', pr, a, b)] = (1, 1, frozenset())
            self.facts[mk('cmp', NEG[pr], a, b)] = (0, 0, frozenset())
            la, ha, na = self.rng(a)
            lb, hb, nb = self.rng(b)
            E = frozenset()
            if pr == 'eq':
                return self.setr(a, lb, hb, nb) and self.setr(b, la, ha, na)
            if pr == 'ne':
                ok = True
                if lb == hb:
                    ok = self.setr(a, -INF, INF, frozenset([lb]))
                if ok and la == ha:
                    ok = self.setr(b, -INF, INF, frozenset([la]))
                return ok
            if pr[0] == 'u':
                if pr in ('ult', 'ule'):
                    if lb >= 0:
                        return self.setr(a, 0, hb - (1 if pr == 'ult' else 0), E) and (la < 0 or self.setr(b, la + (1 if pr == 'ult' else 0), INF, E))
                    if pr == 'ult':
                        return self.setr(b, -INF, INF, frozenset([0]))
                    return True
                if pr in ('ugt', 'uge'):
                    k = 1 if pr == 'ugt' else 0
                    ok = True
                    if la >= 0:
                        ok = self.setr(b, 0, ha - k, E)
                        if ok and lb >= 0:
                            ok = self.setr(a, lb + k, INF, E)
                    elif lb == hb == 0 and pr == 'ugt':
                        ok = self.setr(a, -INF, INF, frozenset([0]))
                    return ok
            if pr == 'slt':
                return self.setr(a, -INF, hb - 1, E) and self.setr(b, la + 1, INF, E)
            if pr == 'sle':
                return self.setr(a, -INF, hb, E) and self.setr(b, la, INF, E)
            if pr == 'sgt':
                return self.setr(a, lb + 1, INF, E) and self.setr(b, -INF, ha - 1, E)
            if pr == 'sge':
                return self.setr(a, lb, INF, E) and self.setr(b, -INF, ha, E)
            return True
        if v.k == 'bool':
            op, x, y = v.a
            if op == 'not':
                return self.assume(x, not truth)
            if op == 'and' and truth or op == 'or' and not truth:
                return self.assume(x, truth) and self.assume(y, truth)
            self.facts[v] = (int(truth), int(truth), frozenset())
            return True
        if truth:
            return self.setr(v, -INF, INF, frozenset([0]))
        return self.setr(v, 0, 0, frozenset())

    def truth(self, v):
        if isconst(v):
            return bool(v)
        if v.k == 'cmp':
            r = self.evalcmp(*v.a)
            if r is not None:
                return r
            return None
        lo, hi, ne = self.rng(v)
        if lo == hi == 0:
            return False
        if lo > 0 or hi < 0 or 0 in ne:
            return True
        if v.k == 'bool':
            op, x, y = v.a
            a = self.truth(x)
            if op == 'not':
                return None if a is None else not a
            b = self.truth(y)
            if op == 'and':
                if a is False or b is False:
                    return False
                if a and b:
                    return True
            if op == 'or':
                if a or b:
                    return True
                if a is False and b is False:
                    return False
        return None

    # ---------------- memory
    def kill_keys(self, keys, structs=()):
        """forget the contents of every (struct, field) in keys / of every struct in structs"""
        if not keys and not structs:
            return
        for a in list(self.mem):
            k = fkey(a)
            if k and (k in keys or k[0] in structs):
                r = root(a)
                if isinstance(r, V) and r.k == 'alloca' and r not in self.esc:
                    continue
                del self.mem[a]
        if self.dirty is not True:
            self.dirty = self.dirty | frozenset(keys) | frozenset((s, '*') for s in structs)

    def kill_all(self, keep):
        for a in list(self.mem):
            r = root(a)
            if isinstance(r, V) and r.k == 'alloca' and r not in self.esc:
                continue
            k = fkey(a)
            if k in keep:
                continue
            del self.mem[a]
        self.dirty = True

    def kill_prefix(self, p):
        for a in list(self.mem):
            if prefix_of(p, a):
                del self.mem[a]
        self.mem[mk('killed', p)] = 1
        if p in self.zero:
            self.zero = self.zero - frozenset([p])

    def is_dirty(self, addr, keep):
        k = fkey(addr)
        a = addr
        while isinstance(a, V):
            if mk('killed', a) in self.mem:
                return True
            if a.k in ('fld', 'idx', 'off'):
                a = a.a[0]
            else:
                break
        r = root(addr)
        if isinstance(r, V) and r.k == 'alloca' and r not in self.esc:
            return False
        if self.dirty is True:
            return not (k and k in keep)
        if k is None:
            return False
        return k in self.dirty or (k[0], '*') in self.dirty

    # purge symbol s (about to be redefined)
    def purge(self, s):
        def sub(v):
            if isinstance(v, V) and s in v.syms:
                if v.k == 'stale':
                    return mk('stale2', v.a[0] if not v.syms else 0)
                return stale(v)
            if isinstance(v, V) and v.k == 'stale' and v.a[1] == s.n:
                return mk('stale2', v.a[0])
            return v
        for i, v in self.env.items():
            if isinstance(v, V):
                n = sub(v)
                if n is not v:
                    self.env[i] = n
        for a in list(self.mem):
            v = self.mem[a]
            if s in a.syms:
                del self.mem[a]
                k = fkey(a)
                if k and self.dirty is not True:
                    self.dirty = self.dirty | frozenset([k])
                continue
            if isinstance(v, V):
                n = sub(v)
                if n is not v:
                    self.mem[a] = n
        for f in [f for f in self.facts if s in f.syms]:
            if f.k != 'cmp':
                st = stale(f)
                if st not in self.facts:
                    self.facts[st] = self.facts[f]
            del self.facts[f]
        if s in self.tracked:
            pass


def stale(v):
    # one opaque name per stale expression; carries no symbols any more
    return mk('stale', show(v) + '#%d' % v.n, min(x.n for x in v.syms))


class Rule:
    """monitor: subclass and override"""
    name = ''

    def start(self, st, fn, ai):
        pass

    def call(self, st, ins, name, args, ai):
        """before the effects of a call; may change st.ps. return False to end the path"""

    def post_call(self, st, ins, name, args, res, ai):
        pass

    def call_value(self, st, ins, name, args, ai):
        return None

    def store(self, st, ins, addr, val, ai):
        pass

    def load(self, st, ins, addr, val, ai):
        pass

    def preload(self, st, ins, addr, ai):
        pass

    joins = False
    headjoin = False    # join at once where a loop begins (after head(st)), so that a loop is judged by an invariant

    def head(self, st):
        """headjoin: a state that reaches the beginning of a loop"""

    def join(self, st, s, va, a, vb, b):
        """s is the value that stands for va (of state a) and vb (of state b) from now on"""

    def renamed(self, st, old, pairs):
        """back edge: for (s, v) in pairs, s stands from now on for what v was in state old"""

    arith = None        # arith(st, ins, op, a, b, ai): before a binary operation

    def ret(self, st, ins, val, ai):
        pass

    def branch(self, st, ins, cond, truth, ai):
        pass

    def end(self, ai):
        pass


class AI:
    def __init__(self, prog, fn, rule, K=24, opaque=(), maxvisit=40000, maxtime=300, immut=True, purecalls=(), keepfields=()):
        self.prog = prog
        self.fn = fn
        self.rule = rule
        self.K = K
        self.maxvisit = maxvisit
        self.maxtime = maxtime
        self.purecalls = set(purecalls)
        self.keep = set(prog.immutable_fields()) if immut else set()
        self.keep |= set(keepfields)
        self.viol = {}
        self.stats = {'blocks': len(fn.blocks), 'states': 0, 'joins': 0, 'rets': 0}
        self._prep()

    def report(self, st, ins, msg, key=None):
        k = key or (ins.loc(), msg)
        if k not in self.viol:
            self.viol[k] = (ins, msg, trail_list(st.trail))

    def enum_hull(self, st, v, tyname):
        r = self.prog.enum_range(tyname)
        if r and isinstance(v, V):
            st.setr(v, r[0], r[1], frozenset())

    # ---- CFG facts
    def _prep(self):
        fn = self.fn
        n = len(fn.blocks)
        succ = [list(ir.succs(b)) for b in fn.blocks]
        # reverse postorder and back edges
        color = [0] * n
        post = []
        back = set()
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                if color[s] == 0:
                    color[s] = 1
                    stack.append((s, iter(succ[s])))
                    adv = True
                    break
                elif color[s] == 1:
                    back.add((b, s))
            if not adv:
                color[b] = 2
                post.append(b)
                stack.pop()
        self.rpo = {b: i for i, b in enumerate(reversed(post))}
        self.back = back
        self.headers = {h for _, h in back}
        # liveness
        use = [set() for _ in range(n)]
        de = [set() for _ in range(n)]
        phiuse = defaultdict(set)  # (pred) -> ids used by phis of succ

        def ids(v, out):
            if isinstance(v, str):
                if v.startswith('%'):
                    out.add(int(v[1:]))
            elif isinstance(v, list):
                if v and v[0] in ('s', 'f'):
                    return
                for x in v:
                    ids(x, out)
        for b, blk in enumerate(fn.blocks):
            for i in blk:
                if i.op == 'phi':
                    for v, p in zip(i.a, i.b):
                        o = set()
                        ids(v, o)
                        phiuse[p] |= o
                    de[b].add(i.id)
                    continue
                o = set()
                for v in i.a:
                    ids(v, o)
                if i.op == 'call' and i.fn is not None:
                    ids(i.fn, o)
                for st in i.p or []:
                    if st[0] != 'f' and len(st) > 2:
                        ids(st[2], o)
                use[b] |= (o - de[b])
                de[b].add(i.id)
        live = [set() for _ in range(n)]
        ch = True
        order = sorted(self.rpo, key=lambda b: -self.rpo[b])
        while ch:
            ch = False
            for b in order:
                o = set(phiuse[b])
                for s in succ[b]:
                    o |= live[s]
                # phi defs of successors are not live-out here
                nl = use[b] | (o - de[b])
                if nl != live[b]:
                    live[b] = nl
                    ch = True
        # merge points whose outcome decides a branch: results of inlined helpers and of short-circuit conditions; states that
        # know a different outcome are not joined there
        allphi = {i.id: (b, i) for b, blk in enumerate(fn.blocks) for i in blk if i.op == 'phi'}
        split = {k for k, (b, i) in allphi.items() if (i.x and i.x.get('abs') or i.ty == 'i1') and b not in self.headers}
        split |= self.choices(fn, allphi)
        w = list(split & allphi.keys())
        while w:
            for x in allphi[w.pop()][1].a:
                if isinstance(x, str) and x.startswith('%'):
                    k = int(x[1:])
                    if k in allphi and k not in split and allphi[k][0] not in self.headers:
                        split.add(k)
                        w.append(k)
        self.split = split
        self.final = [bool(blk) and len(blk) <= 12 and blk[-1].op in ('ret', 'unreachable') and b != 0 for b, blk in enumerate(fn.blocks)]
        # blocks that only branch on a merged condition (short-circuit && and ||): never a join point of their own
        self.thread = [bool(blk) and b != 0 and blk[-1].op == 'br' and len(blk[-1].a) == 1 and len(blk) <= 6 and all(i.op in ('phi', 'br') for i in blk)
                       and blk[-1].a[0] in ['%%%d' % i.id for i in blk if i.op == 'phi'] and b not in blk[-1].s for b, blk in enumerate(fn.blocks)]
        self.live = live          # live-in, excluding phi operands (evaluated on the edge)
        for b, blk in enumerate(fn.blocks):
            for i in blk:
                if i.op == 'phi':
                    self.live[b].add(i.id)

    def choices(self, fn, allphi):
        """values that are one of a few constants on a path (c ? 0 : 400) and compared with a constant later"""
        sel = {i.id: i for blk in fn.blocks for i in blk if i.op == 'select'}
        cmpd = set()
        for blk in fn.blocks:
            for i in blk:
                if i.op == 'icmp' and any(isinstance(x, (int, bool)) for x in i.a):
                    cmpd |= {int(x[1:]) for x in i.a if isinstance(x, str) and x[0] == '%' and x[1:].isdigit()}
        r = set()
        for k in cmpd:
            if k in sel:
                ops = sel[k].a[1:]
            elif k in allphi and allphi[k][0] not in self.headers:
                ops = allphi[k][1].a
            else:
                continue
            if len(ops) <= 4 and all(isinstance(x, (int, bool)) for x in ops):
                r.add(k)
        return r

    # ---- evaluation
    def val(self, st, v, ins=None):
        if isinstance(v, (int, bool)):
            return int(v)
        if isinstance(v, str):
            c = v[0]
            if c == '%':
                r = st.env.get(int(v[1:]))
                if r is None:
                    return mk('sym', ('undef', int(v[1:])), 'undef%s' % v[1:])
                return r
            if c == '$':
                return mk('arg', int(v[1:]))
            if c == '@':
                tu = ins.owner.tu if ins is not None else self.fn.tu
                f = self.prog.resolve(v[1:], tu)
                if f is not None:
                    return mk('fn', f.name, f.key)
                if v[1:] in self.prog.decls:
                    return mk('fn', v[1:], v[1:])
                g = self.prog.globals.get((tu, v[1:]))
                if g is not None and g['local']:
                    return mk('g', v[1:], tu)
                return mk('g', v[1:], '')
            return mk('sym', ('unk', v), v)
        if isinstance(v, list):
            if v and v[0] == 's':
                return mk('s', v[1])
            if v and v[0] == 'gep':
                return self.gep(st, self.val(st, v[1], ins), v[2], ins)
            if v and v[0] == 'f':
                return mk('flt', v[1])
            if v and v[0] == 'ce':
                if v[1] in ('bitcast', 'inttoptr', 'ptrtoint'):
                    return self.val(st, v[2], ins)
        return mk('sym', ('cexpr', repr(v)), 'const')

    def gep(self, st, b, steps, ins):
        for s in steps:
            if s[0] == 'f':
                b = mk('fld', b, s[1], s[2], s[3])
            elif s[0] in ('i', 'e'):
                iv = self.val(st, s[2], ins)
                if s[0] == 'i' and s[3] == 1 and isconst(iv) and iv < 0:
                    # container_of: walk up
                    x = b
                    rem = -iv
                    while isinstance(x, V) and x.k == 'fld' and rem >= x.a[3]:
                        rem -= x.a[3]
                        x = x.a[0]
                        if rem == 0:
                            break
                    if rem == 0:
                        b = x
                        continue
                    b = mk('off', b, iv)
                    continue
                if s[0] == 'i' and isconst(iv) and iv == 0:
                    continue
                if s[0] == 'i' and isinstance(b, V) and b.k == 'idx' and b.a[2] == s[3]:
                    b = mk('idx', b.a[0], add(b.a[1], iv), s[3])
                    if b.a[1] == 0:
                        b = b.a[0]
                    continue
                if s[0] == 'i' and isinstance(b, V) and b.k == 's' and isconst(iv) and 0 <= iv <= len(b.a[0]):
                    b = mk('s', b.a[0][iv:])
                    continue
                if s[0] == 'e' and isconst(iv) and iv == 0 and isinstance(b, V) and b.k == 's':
                    continue
                b = mk('idx', b, iv, s[3])
        return b

    def read(self, st, addr, ins):
        v = st.mem.get(addr)
        if v is not None:
            return v
        if not isinstance(addr, V):
            return mk('sym', ins.id, 'ld@%s' % ins.line)
        if addr.k == 'fld' or addr.k == 'idx' or addr.k == 'alloca':
            r = addr
            while isinstance(r, V) and r.k in ('fld', 'idx'):
                r = r.a[0]
                if r in st.zero and not st.is_dirty(addr, self.keep):
                    st.mem[addr] = 0
                    return 0
        if addr.k == 's':
            return ord(addr.a[0][0]) if addr.a[0] else 0
        if addr.k == 'idx' and isinstance(addr.a[0], V) and addr.a[0].k == 's' and isconst(addr.a[1]):
            s = addr.a[0].a[0]
            if 0 <= addr.a[1] <= len(s):
                return ord(s[addr.a[1]]) if addr.a[1] < len(s) else 0
        if st.is_dirty(addr, self.keep) or 'stale' in (root(addr).k if isinstance(root(addr), V) else ''):
            s = mk('sym', ins.id, 'ld %s@%s' % (fkey(addr) or '', ins.line))
            st.purge(s)
            v = s
        else:
            v = mk('init', addr)
        if addr.k == 'fld' and v not in st.facts:
            t = self.prog.field_type(addr.a[1], addr.a[2])
            if t:
                self.enum_hull(st, v, t)
        st.mem[addr] = v
        return v

    def write(self, st, addr, v, ins):
        if not isinstance(addr, V):
            return
        k = fkey(addr)
        if k and addr.k == 'fld':
            b = addr.a[0]
            for a in list(st.mem):
                if a is addr or a.k != 'fld' or (a.a[1], a.a[2]) != k:
                    continue
                if self.distinct(st, a.a[0], b):
                    continue
                del st.mem[a]
            r = root(addr)
            if st.dirty is not True and not (isinstance(r, V) and r.k == 'alloca'):
                st.dirty = st.dirty | frozenset([k])
            # sub-objects
            for a in list(st.mem):
                if a is not addr and prefix_of(addr, a):
                    del st.mem[a]
        elif addr.k == 'idx':
            for a in list(st.mem):
                if a.k == 'idx' and a is not addr and a.a[0] is addr.a[0] and not (isconst(a.a[1]) and isconst(addr.a[1])):
                    del st.mem[a]
        st.mem[addr] = v
        # escaping local
        if isinstance(v, V):
            r = root(v)
            if isinstance(r, V) and r.k == 'alloca' and not (isinstance(root(addr), V) and root(addr).k == 'alloca'):
                st.esc = st.esc | frozenset([r])

    def distinct(self, st, a, b):
        if a is b:
            return False
        ra, rb = root(a), root(b)
        if isinstance(ra, V) and isinstance(rb, V):
            if ra is not rb and (ra.k == 'alloca' and ra not in st.esc or rb.k == 'alloca' and rb not in st.esc):
                return True
            if ra.k == 'alloca' and rb.k == 'alloca' and ra is not rb:
                return True
            if ra is rb and a.k == 'fld' and b.k == 'fld' and a.a[0] is b.a[0] and a is not b:
                return True      # different embedded members of the same object
            if ra is not rb and (ra in st.zero or rb in st.zero):
                return True      # freshly allocated object
        if isinstance(a, V) and isinstance(b, V) and a.k == 'idx' and b.k == 'idx' and a.a[0] is b.a[0] and isconst(a.a[1]) and isconst(b.a[1]):
            return a.a[1] != b.a[1]
        r = st.evalcmp('eq', a, b)
        return r is False

    # ---- instructions
    def binop(self, st, ins, op, a, b):
        w = width(ins.ty)
        ca, cb = (a if isconst(a) else None), (b if isconst(b) else None)
        if ca is None:
            c = st.const(a)
            if c is not None and c not in (INF, -INF):
                ca = c
        if cb is None:
            c = st.const(b)
            if c is not None and c not in (INF, -INF):
                cb = c
        if ca is not None and cb is not None:
            ua, ub = ca & ((1 << w) - 1), cb & ((1 << w) - 1)
            try:
                r = {'add': lambda: ca + cb, 'sub': lambda: ca - cb, 'mul': lambda: ca * cb, 'and': lambda: ua & ub, 'or': lambda: ua | ub,
                     'xor': lambda: ua ^ ub, 'shl': lambda: ua << ub if ub < w else 0, 'lshr': lambda: ua >> ub, 'ashr': lambda: ca >> ub,
                     'sdiv': lambda: int(ca / cb) if cb else None, 'udiv': lambda: ua // ub if ub else None,
                     'srem': lambda: ca - cb * int(ca / cb) if cb else None, 'urem': lambda: ua % ub if ub else None}.get(op, lambda: None)()
            except Exception:
                r = None
            if r is not None:
                return wrap(r, w)
        if op == 'add':
            return add(a, b)
        if op == 'sub':
            return add(a, b, -1)
        if w == 1:
            if op == 'xor' and cb is not None:
                return mk('bool', 'not', a, 0) if cb & 1 else a
            if op in ('and', 'or'):
                return mk('bool', op, a, b)
        if op == 'mul' and cb is not None:
            c, d = lin(a)
            return mklin(c * cb, {k: n * cb for k, n in d.items()})
        if op == 'shl' and cb is not None and 0 <= cb < 32:
            c, d = lin(a)
            return mklin(c << cb, {k: n << cb for k, n in d.items()})
        if op in ('and', 'or', 'xor', 'mul') and isconst(a) and not isconst(b):
            a, b = b, a
        if op == 'or' and isconst(b) and b == 0:
            return a
        if op == 'and' and isconst(b) and b == 0:
            return 0
        if op == 'and' and isconst(b) and b == -1:
            return a
        v = mk(op, a, b)
        if v.depth > 14:
            v = mk('sym', ins.id, 'deep@%s' % ins.line)
            st.purge(v)
        return v

    def cast(self, st, ins, a):
        op = ins.op
        if isconst(a):
            if op == 'trunc':
                return wrap(a, width(ins.ty))
            if op == 'zext':
                return a & ((1 << width(ins.x['ft'])) - 1)
            if op in ('sitofp', 'uitofp', 'fptosi', 'fptoui'):
                return mk('cast', op, a)
            if op == 'sext' and ins.x['ft'] == 'i1':
                return -1 if a else 0
            return a
        if op in ('bitcast', 'inttoptr', 'ptrtoint', 'sext', 'addrspacecast'):
            if op == 'sext' and ins.x['ft'] == 'i1':
                return mk('cast', op, a)
            return a
        if op == 'zext':
            w = width(ins.x['ft'])
            if w == 1:
                return a
            lo, hi, ne = st.rng(a)
            if lo >= 0 and hi < (1 << w):
                return a
            if a.k == 'trunc' and a.a[1] == w:
                lo, hi, ne = st.rng(a.a[0])
                if lo >= 0 and hi < (1 << w):
                    return a.a[0]
            return mk('u', a, w)
        if op == 'trunc':
            w = width(ins.ty)
            lo, hi, ne = st.rng(a)
            if -(1 << (w - 1)) <= lo and hi < (1 << (w - 1)):
                return a
            if a.k == 'u' and a.a[1] <= w:
                return a.a[0] if a.a[1] == w else a
            if a.k in ('cmp', 'bool'):
                return a
            if w >= 32:
                return a        # 64->32: treated as value preserving (documented)
            if w == 1:
                return mk('and', a, 1) if a.k not in ('cmp', 'bool') else a
            return mk('trunc', a, w)
        return mk('cast', op, a)

    def do_call(self, st, ins):
        """returns False when the path ends"""
        prog = self.prog
        name = callee_name(ins)
        args = [self.val(st, x, ins) for x in ins.a]
        if name is None and ins.fn is not None:
            fv = self.val(st, ins.fn, ins)
            if isinstance(fv, V) and fv.k == 'fn':
                name = fv.a[0]
        r = self.rule.call(st, ins, name, args, self)
        if r is False:
            return False
        if name is not None and prog.is_noret(ins):
            return False
        res = None
        if ins.ty is not None:
            res = self.rule.call_value(st, ins, name, args, self)
            if res is None:
                if name and (name.startswith('llvm.expect')):
                    res = args[0]
                else:
                    res = mk('sym', ins.id, '%s()@%s' % (name or 'indirect', ins.line))
                    st.purge(res)
                    t = prog.resolve(name, ins.owner.tu) if name else None
                    if t is not None and t.dty:
                        self.enum_hull(st, res, t.dty[0])
        if r != 'noeffect':
            self.effects(st, ins, name, args)
        if res is not None:
            if name in NONNULL and isinstance(res, V):
                st.setr(res, 1, INF, frozenset())
            if (name in ALLOC0 or name in ALLOC) and isinstance(res, V):
                if name in ALLOC0:
                    st.zero = st.zero | frozenset([res])
            st.env[ins.id] = res
        self.rule.post_call(st, ins, name, args, res, self)
        return True

    def effects(self, st, ins, name, args):
        prog = self.prog
        if name is None:
            self._kill_args(st, args)
            st.kill_all(self.keep)
            return
        if name in PURE or name in self.purecalls or name.startswith(PURE_PREFIX):
            return
        if name.startswith('llvm.memset'):
            a = args[0]
            if isinstance(a, V):
                st.kill_prefix(a)
                if isconst(args[1]) and args[1] == 0:
                    st.zero = st.zero | frozenset([a])
                    st.mem.pop(mk('killed', a), None)
                    k = fkey(a)
            return
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove') or name in ('memcpy', 'memmove'):
            a, b = args[0], args[1]
            if isinstance(a, V):
                src = {}
                if isinstance(b, V):
                    for x, v in st.mem.items():
                        if x.k == 'fld' and x.a[0] is b:
                            src[x.a[1:]] = v
                st.kill_prefix(a)
                for t, v in src.items():
                    st.mem[mk('fld', a, *t)] = v
            return
        t = prog.resolve(name, ins.owner.tu)
        if t is not None:
            m = prog.modset(t)
            self._escape(st, args)
            if '*' in m:
                self._kill_args(st, args, allocas=True)
                st.kill_all(self.keep)
            else:
                keys = {k for k in m if k[0] not in ('?', '?mem')} - self.keep
                structs = {k[1] for k in m if k[0] == '?mem'}
                if ('?', '?') in m or structs:
                    self._kill_args(st, args)
                st.kill_keys(keys, structs)
            return
        # external library function
        self._escape(st, args)
        if name in ir.CALLBACK_TAKERS:
            self._kill_args(st, args)
            st.kill_all(self.keep)
            return
        self._kill_args(st, args)
        if name.startswith('g_string'):
            st.kill_keys((), {'_GString'})
        elif name.startswith('g_queue') or name.startswith('g_list'):
            st.kill_keys((), {'_GQueue', '_GList'})
        elif name.startswith('g_array') or name.startswith('g_byte_array') or name.startswith('g_ptr_array'):
            st.kill_keys((), {'_GArray', '_GPtrArray', '_GByteArray'})
        elif name.startswith('ev_'):
            st.kill_keys((), {s for s in prog.structs if isinstance(s, str) and s.startswith('ev_')})

    def _escape(self, st, args):
        for a in args:
            if isinstance(a, V):
                r = root(a)
                if isinstance(r, V) and r.k == 'alloca':
                    st.esc = st.esc | frozenset([r])

    def _kill_args(self, st, args, allocas=False):
        for a in args:
            if isinstance(a, V) and (a.k in ('fld', 'alloca', 'idx') or a.k == 'sym'):
                r = root(a)
                if not isinstance(r, V):
                    continue
                if r.k == 'alloca' or (not allocas and a.k in ('fld', 'idx')):
                    st.kill_prefix(a)
                    st.mem.pop(a, None)
                    if r.k == 'alloca':
                        st.esc = st.esc | frozenset([r])

    def step(self, st, ins):
        op = ins.op
        if op == 'getelementptr':
            st.env[ins.id] = self.gep(st, self.val(st, ins.a[0], ins), ins.p, ins)
        elif op == 'load':
            a = self.val(st, ins.a[0], ins)
            self.rule.preload(st, ins, a, self)
            v = self.read(st, a, ins)
            st.env[ins.id] = v
            self.rule.load(st, ins, a, v, self)
        elif op == 'store':
            v = self.val(st, ins.a[0], ins)
            a = self.val(st, ins.a[1], ins)
            self.rule.store(st, ins, a, v, self)
            self.write(st, a, v, ins)
        elif op == 'icmp':
            a, b = self.val(st, ins.a[0], ins), self.val(st, ins.a[1], ins)
            pr = ins.pr
            if isconst(a) and not isconst(b):
                a, b, pr = b, a, SWAP[pr]
            elif isinstance(a, V) and isinstance(b, V) and a.n > b.n:
                a, b, pr = b, a, SWAP[pr]
            # x != 0 for boolean x is x
            if isconst(b) and isinstance(a, V) and a.k in ('cmp', 'bool') and b in (0, 1) and pr in ('eq', 'ne'):
                if (b == 0) == (pr == 'ne'):
                    st.env[ins.id] = a
                    return True
                if a.k == 'cmp':
                    st.env[ins.id] = mk('cmp', NEG[a.a[0]], a.a[1], a.a[2])
                else:
                    st.env[ins.id] = mk('bool', 'not', a, 0)
                return True
            if pr in ('eq', 'ne') and isinstance(a, V) and a.k == 'sum' and isconst(b) and len(a.a) == 3 and a.a[2] == 1:
                a, b = a.a[1], b - a.a[0]
            r = st.evalcmp(pr, a, b)
            st.env[ins.id] = int(r) if r is not None else mk('cmp', pr, a, b)
        elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'):
            a, b = self.val(st, ins.a[0], ins), self.val(st, ins.a[1], ins)
            if self.rule.arith is not None:
                self.rule.arith(st, ins, op, a, b, self)
            st.env[ins.id] = self.binop(st, ins, op, a, b)
        elif op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'addrspacecast'):
            st.env[ins.id] = self.cast(st, ins, self.val(st, ins.a[0], ins))
        elif op == 'call':
            return self.do_call(st, ins)
        elif op == 'alloca':
            a = mk('alloca', ins.id, (ins.x or {}).get('vn') or '')
            st.env[ins.id] = a
        elif op == 'select':
            c = self.val(st, ins.a[0], ins)
            t = st.truth(c)
            if t is True:
                st.env[ins.id] = self.val(st, ins.a[1], ins)
            elif t is False:
                st.env[ins.id] = self.val(st, ins.a[2], ins)
            else:
                st.env[ins.id] = mk('select', c, self.val(st, ins.a[1], ins), self.val(st, ins.a[2], ins))
        elif op in ('atomicrmw', 'cmpxchg'):
            a = self.val(st, ins.a[0], ins)
            s = mk('sym', ins.id, 'atomic@%s' % ins.line)
            st.purge(s)
            st.env[ins.id] = s
            if isinstance(a, V):
                k = fkey(a)
                if k:
                    st.kill_keys({k})
            self.rule.store(st, ins, a, s, self)
        elif op == 'fcmp':
            st.env[ins.id] = mk('fcmp', ins.pr, self.val(st, ins.a[0], ins), self.val(st, ins.a[1], ins))
        elif op == 'fence':
            pass
        elif ins.ty is not None:
            s = mk('sym', ins.id, '%s@%s' % (op, ins.line))
            st.purge(s)
            st.env[ins.id] = s
        return True

    # ---- edges
    def edge(self, st, frm, to):
        """state entering block `to` (phis evaluated)"""
        blk = self.fn.blocks[to]
        isback = (frm, to) in self.back
        phis = [i for i in blk if i.op == 'phi']
        phiids = {i.id for i in phis}
        newv = {}
        facts = {}
        ren = []
        for i in phis:
            v = None
            for x, p in zip(i.a, i.b):
                if p == frm:
                    v = self.val(st, x, i) if x is not None else mk('sym', ('undef', i.id), 'void')
                    break
            if v is None:
                v = mk('sym', ('undef', i.id), 'undef')
            newv[i.id] = v
        if isback:
            for i in phis:
                v = newv[i.id]
                old = st.env.get(i.id)
                if v is old and not (isinstance(v, V) and v.k == 'sym' and v.a[0] == i.id):
                    continue
                if isinstance(v, V) and v.k == 'sym' and isinstance(v.a[0], int) and v.a[0] != i.id and v.a[0] not in phiids:
                    continue        # result of an instruction of the loop body: keep its identity
                s = mk('sym', i.id, 'phi@%s' % i.line)
                if v is s:
                    continue
                facts[s] = st.rng(v) if not isconst(v) else (v, v, frozenset())
                ren.append((s, v))
                newv[i.id] = s
            if facts:
                old = st.copy() if self.rule.joins else None
                for s in facts:
                    # other phis holding s in newv are stale
                    for j, v in list(newv.items()):
                        if isinstance(v, V) and s in v.syms and newv[j] is not s:
                            newv[j] = stale(v)
                    st.purge(s)
                    f = facts[s]
                    if f[0] != -INF or f[1] != INF or f[2]:
                        st.facts[s] = f
                if old is not None:
                    for s, v in ren:
                        self.rule.join(st, s, v, old, v, old)
                    self.rule.renamed(st, old, ren)
        st.env.update(newv)
        lv = self.live[to]
        st.env = {k: v for k, v in st.env.items() if k in lv}
        return st

    def pkey(self, st):
        """states are only ever joined within one class: same property state, same knowledge about the tracked results"""
        cl = []
        for k in st.env.keys() & self.split:
            v = st.env[k]
            if isconst(v):
                cl.append(('p', k, int(v)))
            else:
                lo, hi, ne = st.rng(v)
                if lo == hi:
                    cl.append(('p', k, lo))
                elif lo > 0 or hi < 0 or 0 in ne:
                    cl.append(('p', k, '+'))
        for t in st.tracked:
            lo, hi, ne = st.rng(t)
            if lo == hi:
                cl.append((t.n, lo))
            elif lo > 0 or hi < 0 or 0 in ne:
                cl.append((t.n, '+'))
        if not cl:
            return st.ps
        return (st.ps, tuple(sorted(cl, key=str)))

    def gc(self, st):
        live = set()
        for v in st.env.values():
            if isinstance(v, V):
                live |= v.syms
        # memory reachable: drop entries whose address mentions a dead symbol
        changed = True
        vals = {}
        for a, v in st.mem.items():
            vals[a] = v
        livea = set()
        while changed:
            changed = False
            for a, v in list(vals.items()):
                if a.syms <= live:
                    livea.add(a)
                    if isinstance(v, V) and not (v.syms <= live):
                        live |= v.syms
                        changed = True
                    del vals[a]
        tr = st.tracked
        for a in vals:
            if not (a.syms & tr):
                st.mem.pop(a)
        live |= tr
        st.facts = {f: r for f, r in st.facts.items() if f.syms <= live and not f.k.startswith('stale')
                    or f.k.startswith('stale')}
        # stale facts: only when still referenced
        used = set()
        for v in st.env.values():
            if isinstance(v, V):
                self._stales(v, used)
        for v in st.mem.values():
            if isinstance(v, V):
                self._stales(v, used)
        st.facts = {f: r for f, r in st.facts.items() if not f.k.startswith('stale') or f in used}

    def _stales(self, v, out):
        if v.k.startswith('stale'):
            out.add(v)
            return
        for x in v.a:
            if isinstance(x, V):
                self._stales(x, out)

    def leq(self, a, b):
        """a is covered by b"""
        if a.env != b.env:
            return False
        if b.dirty is not True and (a.dirty is True or not a.dirty <= b.dirty):
            return False
        if not (a.esc <= b.esc):
            return False
        if not (b.zero <= a.zero) or not (b.marks <= a.marks):
            return False
        for k, v in b.mem.items():
            if k.k == 'killed':
                continue
            w = a.mem.get(k)
            if w is not v and w != v:
                if w is None and isinstance(v, V) and v.k == 'init' and v.a[0] is k and not a.is_dirty(k, self.keep):
                    continue
                return False
        for k in a.mem:
            if k.k == 'killed' and k not in b.mem:
                return False
        for f, (lo, hi, ne) in b.facts.items():
            l2, h2, n2 = a.rng(f)
            if f.k == 'cmp' and lo == hi:
                if a.facts.get(f) is None:
                    r = a.evalcmp(*f.a)
                    if r is None or int(r) != lo:
                        return False
                    continue
            if l2 < lo or h2 > hi:
                return False
            for x in ne:
                if x not in n2 and l2 <= x <= h2:
                    return False
        return True

    def join(self, a, b, blk, widen):
        self.stats['joins'] += 1
        r = St()
        r.trail = a.trail
        r.ps = a.ps
        r.tracked = a.tracked | b.tracked
        r.esc = a.esc | b.esc
        r.zero = a.zero & b.zero
        r.marks = a.marks & b.marks
        r.dirty = True if (a.dirty is True or b.dirty is True) else (a.dirty | b.dirty)
        a = a.copy()
        b = b.copy()
        # which symbols will be created
        pairs = []
        env = {}
        newf = {}
        for k in a.env:
            va, vb = a.env[k], b.env.get(k)
            if vb is None:
                continue
            if va is vb or (isconst(va) and isconst(vb) and va == vb):
                env[k] = va
            else:
                s = mk('sym', ('j', blk, k), 'join@%d' % blk)
                ra = a.rng(va)
                rb = b.rng(vb)
                newf[s] = (ra, rb)
                env[k] = s
                pairs.append((s, va, vb))
        mem = {}
        for k in a.mem:
            if k.k == 'killed':
                mem[k] = 1
                continue
            va, vb = a.mem[k], b.mem.get(k)
            if vb is None:
                if isinstance(va, V) and va.k == 'init' and va.a[0] is k and not b.is_dirty(k, self.keep):
                    mem[k] = va
                continue
            if va is vb or (isconst(va) and isconst(vb) and va == vb):
                mem[k] = va
            else:
                s = mk('sym', ('jm', blk, k), 'joinmem %s' % (fkey(k) or '',)[0:1] if False else 'joinmem')
                newf[s] = (a.rng(va), b.rng(vb))
                mem[k] = s
                pairs.append((s, va, vb))
        for k in b.mem:
            if k.k == 'killed':
                mem[k] = 1
            elif k not in a.mem:
                vb = b.mem[k]
                if isinstance(vb, V) and vb.k == 'init' and vb.a[0] is k and not a.is_dirty(k, self.keep):
                    mem[k] = vb
                else:
                    kk = fkey(k)
                    if kk and r.dirty is not True:
                        r.dirty = r.dirty | frozenset([kk])
        for k in a.mem:
            if k.k != 'killed' and k not in mem:
                kk = fkey(k)
                if kk and r.dirty is not True:
                    r.dirty = r.dirty | frozenset([kk])
        facts = {}
        for f, (lo, hi, ne) in a.facts.items():
            if f not in b.facts and f.k == 'cmp' and lo == hi:
                x = b.evalcmp(*f.a)
                if x is not None and int(x) == lo:
                    facts[f] = (lo, hi, ne)
                continue
            l2, h2, n2 = b.rng(f)
            L, H = min(lo, l2), max(hi, h2)
            if widen:
                if l2 < lo:
                    L = wlo(L)
                if h2 > hi:
                    H = whi(H)
            N = frozenset(x for x in ne if x in n2 or x < l2 or x > h2) | frozenset(x for x in n2 if x < lo or x > hi)
            if f.k == 'cmp' and L != H:
                continue
            if L != -INF or H != INF or N:
                facts[f] = (L, H, N)
        created = set(newf)
        if self.rule.headjoin:
            r.marks = frozenset(m for m in r.marks if not any(isinstance(x, V) and x.syms & created for x in m))
        # anything else that mentions a re-created symbol would mix generations
        if created:
            for k, v in list(env.items()):
                if isinstance(v, V) and v not in created and (v.syms & created):
                    env[k] = mk('sym', ('j', blk, k), 'join@%d' % blk)
                    if env[k] not in created and k in a.env and k in b.env:
                        pairs.append((env[k], a.env[k], b.env[k]))
            for k, v in list(mem.items()):
                if (k.syms & created) and k.k != 'killed':
                    del mem[k]
                    kk = fkey(k)
                    if kk and r.dirty is not True:
                        r.dirty = r.dirty | frozenset([kk])
                elif isinstance(v, V) and v not in created and (v.syms & created):
                    del mem[k]
                    kk = fkey(k)
                    if kk and r.dirty is not True:
                        r.dirty = r.dirty | frozenset([kk])
            facts = {f: x for f, x in facts.items() if not (f.syms & created)}
        for s, (ra, rb) in newf.items():
            L, H = min(ra[0], rb[0]), max(ra[1], rb[1])
            if widen:
                if rb[0] < ra[0]:
                    L = wlo(L)
                if rb[1] > ra[1]:
                    H = whi(H)
            N = frozenset(x for x in ra[2] if x in rb[2] or x < rb[0] or x > rb[1]) | frozenset(x for x in rb[2] if x < ra[0] or x > ra[1])
            if self.rule.headjoin:
                # what lies between the two ranges
                g = (ra[1] + 1, rb[0]) if ra[1] < rb[0] else (rb[1] + 1, ra[0]) if rb[1] < ra[0] else (0, 0)
                if g[1] - g[0] <= 4:
                    N = N | frozenset(range(int(g[0]), int(g[1])))
            if ra[0] > 0 or ra[1] < 0:
                if 0 in rb[2]:
                    N = N | frozenset([0])
            if rb[0] > 0 or rb[1] < 0:
                if 0 in ra[2] or ra[0] > 0 or ra[1] < 0:
                    N = N | frozenset([0])
            if L != -INF or H != INF or N:
                facts[s] = (L, H, N)
        for s, va, vb in pairs:
            # what is known about the unsigned view of a byte
            fa, fb = self._ubyte(a, va), self._ubyte(b, vb)
            if fa and fb:
                N = frozenset(x for x in fa[2] if x in fb[2] or x < fb[0] or x > fb[1]) | frozenset(x for x in fb[2] if x < fa[0] or x > fa[1])
                facts[mk('u', s, 8)] = (min(fa[0], fb[0]), max(fa[1], fb[1]), N)
        r.env, r.mem, r.facts = env, mem, facts
        if pairs and self.rule.joins:
            for s, va, vb in pairs:
                self.rule.join(r, s, va, a, vb, b)
        return r

    @staticmethod
    def _ubyte(st, v):
        if isconst(v):
            return (v & 255, v & 255, frozenset()) if -128 <= v < 256 else None
        return st.facts.get(mk('u', v, 8)) if v.k != 'u' else None

    # ---- driver
    def run(self):
        t0 = time.time()
        st = St()
        st.env, st.mem, st.facts = {}, {}, {}
        st.dirty = frozenset()
        st.ps = None
        st.esc = frozenset()
        st.trail = None
        st.zero = frozenset()
        st.tracked = frozenset()
        st.marks = frozenset()     # things that happened on every path to this state
        self.rule.start(st, self.fn, self)
        import heapq
        seen = defaultdict(lambda: defaultdict(list))     # block -> ps -> [states]
        joined = {}
        visits = defaultdict(int)
        work = []
        tick = 0
        heapq.heappush(work, (0, 0, 0, st))
        n = 0
        heads = {to for frm, to in self.back}
        while work:
            _, _, b, st = heapq.heappop(work)
            n += 1
            if n > self.maxvisit or time.time() - t0 > self.maxtime:
                raise AnalysisBroken('abstract interpretation of %s did not converge (%d states, %.0fs)' % (self.fn.key, n, time.time() - t0))
            outs = [(b, to, s, 0) for to, s in self.block(st, b)]
            while outs:
                frm, to, s, th = outs.pop(0)
                s = self.edge(s, frm, to)
                if self.thread[to] and th < 4:
                    outs[0:0] = [(to, t2, s2, th + 1) for t2, s2 in self.block(s, to)]
                    continue
                K = self.K
                if self.rule.headjoin and to in heads:
                    K = int(self.rule.headjoin)
                    self.rule.head(s)
                self.gc(s)
                if self.final[to]:
                    self.block(s, to)
                    continue
                pk = self.pkey(s)
                lst = seen[to][pk]
                if any(self.leq(s, o) for o in lst):
                    continue
                visits[(to, pk)] += 1
                if len(lst) >= K:
                    # join everything known here into one
                    j = joined.get((to, pk))
                    wid = visits[(to, pk)] > K + 6
                    if j is None:
                        j = lst[0]
                        for o in lst[1:]:
                            j = self.join(j, o, to, False)
                    j2 = self.join(j, s, to, wid)
                    if (to, pk) in joined and self.leq(j2, j):
                        continue
                    joined[(to, pk)] = j2
                    lst.append(j2)
                    if len(lst) > K + 1:
                        del lst[K]
                    s = j2.copy()
                    s.trail = j2.trail
                else:
                    lst.append(s.copy())
                tick += 1
                heapq.heappush(work, (self.rpo.get(to, 0), tick, to, s))
        self.stats['states'] = n
        self.rule.end(self)
        return self

    def block(self, st, b, start=0):
        blk = self.fn.blocks[b]
        for n in range(start, len(blk)):
            ins = blk[n]
            op = ins.op
            if op == 'phi':
                continue
            if op == 'call' and ins.fn in DIGITS:
                # the cases of a library function that gives the value of a digit
                outs = []
                c = self.val(st, ins.a[0], ins)
                for lo, hi, d in DIGITS[ins.fn]:
                    s = st.copy()
                    if isconst(c):
                        if not lo <= c <= hi:
                            continue
                    elif not (s.assume(mk('cmp', 'sge', c, lo), True) and s.assume(mk('cmp', 'sle', c, hi), True)):
                        continue
                    s.env[ins.id] = -1 if d is None else c + d if isconst(c) else add(c, d)
                    s.trail = (st.trail, ins, '%d..%d' % (lo, hi))
                    if self.rule.branch(s, ins, 1, True, self) is False:
                        continue
                    outs += self.block(s, b, n + 1)
                return outs
            if op == 'select':
                c = self.val(st, ins.a[0], ins)
                if st.truth(c) is None:
                    outs = []
                    for truth in (True, False):
                        s = st.copy()
                        if not s.assume(c, truth):
                            continue
                        s.trail = (st.trail, ins, truth)
                        if self.rule.branch(s, ins, c, truth, self) is False:
                            continue
                        if not self.step(s, ins):
                            continue
                        outs += self.block(s, b, n + 1)
                    return outs
            if op == 'br':
                if not ins.a:
                    return [(ins.s[0], st)]
                c = self.val(st, ins.a[0], ins)
                if isinstance(c, V) and c.k == 'select':
                    pass
                outs = []
                t = st.truth(c)
                for truth, to in ((True, ins.s[0]), (False, ins.s[1])):
                    if t is not None and t != truth:
                        continue
                    s = st.copy()
                    if t is None:
                        if not s.assume(c, truth):
                            continue
                        s.trail = (st.trail, ins, truth)
                    if self.rule.branch(s, ins, c, truth, self) is False:
                        continue
                    outs.append((to, s))
                return outs
            if op == 'switch':
                v = self.val(st, ins.a[0], ins)
                outs = []
                groups = defaultdict(list)
                for cv, to in zip(ins.cv, ins.s[1:]):
                    groups[to].append(cv)
                allcv = list(ins.cv)
                for to, cvs in groups.items():
                    for cv in cvs:
                        s = st.copy()
                        if not s.assume(mk('cmp', 'eq', v, cv) if not isconst(v) else int(v == cv), True):
                            continue
                        s.trail = (st.trail, ins, 'case %d' % cv)
                        if self.rule.branch(s, ins, mk('cmp', 'eq', v, cv) if not isconst(v) else 1, True, self) is False:
                            continue
                        outs.append((to, s))
                s = st.copy()
                ok = True
                for cv in allcv:
                    if not s.assume(mk('cmp', 'ne', v, cv) if not isconst(v) else int(v != cv), True):
                        ok = False
                        break
                if ok:
                    s.trail = (st.trail, ins, 'default')
                    if self.rule.branch(s, ins, 1, True, self) is not False:
                        outs.append((ins.s[0], s))
                return outs
            if op == 'ret':
                self.stats['rets'] += 1
                self.rule.ret(st, ins, self.val(st, ins.a[0], ins) if ins.a else None, self)
                return []
            if op == 'unreachable':
                return []
            if not self.step(st, ins):
                return []
        return []


def trail_list(t, n=40):
    r = []
    while t is not None and len(r) < n:
        t, ins, truth = t
        r.append('%s:%s' % (ins.loc(), 'T' if truth is True else 'F' if truth is False else truth))
    r.reverse()
    return r


def same_tu(opaque=(), also=None, maxsize=4000):
    """inline policy: everything defined in the same translation unit (plus inline helpers from headers), except `opaque`"""
    op = set(opaque)

    def pol(t, ins, depth):
        if t.name in op:
            return False
        if also and also(t, ins, depth):
            return True
        if t.file and t.file.startswith('/usr/'):
            return False
        return t.tu == ins.owner.tu
    return pol


def analyse(prog, fn, rule, policy=None, **kw):
    depth = kw.pop('maxdepth', 10)
    f, inl = ir.inline(prog, fn, policy or same_tu(), depth, kw.pop('maxins', 60000))
    ai = AI(prog, f, rule, **kw)
    ai.inlined = inl
    ai.run()
    return ai
