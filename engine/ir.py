"""Program model over lixtract's JSON: functions, call graph, mod sets, inlining."""
import json, os, re, sys
from collections import defaultdict
import front
from front import AnalysisBroken

sys.setrecursionlimit(20000)


class Ins:
    __slots__ = ('id', 'op', 'ty', 'a', 'line', 'file', 'fn', 'p', 's', 'cv', 'b', 'pr', 'x', 'owner', 'ctx')

    def __repr__(self):
        return '<%s %%%s %s %s @%s>' % (self.op, self.id, self.fn or '', self.a, self.loc())

    def loc(self):
        return '%s:%s' % (relfile(self.file), self.line)


def relfile(f):
    if f is None:
        return '?'
    f = os.path.normpath(f)
    for pre in (front.REPO + '/',):
        if f.startswith(pre):
            return f[len(pre):]
    i = f.find('/inc/lighttpd/')
    if i >= 0:
        return 'include' + f[i + 4:]
    if '/repo/' in f:
        return f.split('/repo/')[-1]
    return f


class Fn:
    __slots__ = ('name', 'tu', 'file', 'line', 'blocks', 'args', 'dty', 'local', 'noret', 'nargs', 'rty', 'prog', 'key', '_preds', '_live', 'nextid', '_defs', 'inlined')

    def __init__(self):
        self._preds = None
        self._live = None
        self._defs = None

    def __repr__(self):
        return '<Fn %s>' % self.key

    def instrs(self):
        for b in self.blocks:
            for i in b:
                yield i

    def defs(self):
        if self._defs is None:
            self._defs = {i.id: i for i in self.instrs()}
        return self._defs

    def loc(self):
        return '%s:%s' % (relfile(self.file), self.line)

    def calls(self):
        for i in self.instrs():
            if i.op == 'call':
                yield i

    def preds(self):
        if self._preds is None:
            p = [[] for _ in self.blocks]
            for bi, b in enumerate(self.blocks):
                for s in succs(b):
                    p[s].append(bi)
            self._preds = p
        return self._preds


def succs(block):
    t = block[-1]
    return t.s or []


def callee_name(ins):
    f = ins.fn
    if isinstance(f, str) and f.startswith('@'):
        return f[1:]
    return None


def group_of(tu):
    return tu.split('/')[1]


class Program:
    """all translation units of the current tree"""

    def __init__(self, tus, mb=None, scr=None):
        self.tus = {}
        self.fns = {}            # key -> Fn ; key = name (external) or tu:name (static)
        self.ext = defaultdict(list)   # external name -> [Fn]
        self.static = {}         # (tu,name) -> Fn
        self.decls = {}          # name -> noret
        self.structs = {}
        self.enums = {}
        self.enumval = {}
        self.globals = {}        # (tu,name) -> dict
        self.mb = mb
        self.scr = scr
        for tu, js in tus:
            self._load(tu, json.load(open(js, encoding='utf8')))
        self._callers = None
        self._mod = None
        self._addr_taken = None

    def _load(self, tu, d):
        files = [os.path.normpath(x) if x else x for x in d['files']]
        self.tus[tu] = True
        for n, s in d['structs'].items():
            s['file'] = relfile(files[s['file']])
            if n not in self.structs or (len(s['fields']) and not self.structs[n]['fields']):
                self.structs[n] = s
            self.structs.setdefault((tu, n), s)
        for n, e in d['enums'].items():
            if n.startswith('anon'):
                n = tu + ':' + n
            self.enums.setdefault(n, e)
            for k, v in e.items():
                self.enumval.setdefault(k, v)
        for n, g in d['globals'].items():
            if 'file' in g:
                g['file'] = relfile(files[g['file']])
            g['tu'] = tu
            g['name'] = n
            self.globals[(tu, n)] = g
        for f in d['functions']:
            if f.get('decl'):
                self.decls[f['name']] = f['noret']
                continue
            F = Fn()
            F.prog = self
            F.name = f['name']
            F.tu = tu
            F.local = f['local']
            F.noret = f['noret']
            F.nargs = f['nargs']
            F.rty = f['rty']
            F.file = files[f['file']] if 'file' in f else None
            F.line = f.get('line')
            F.args = f['args']
            F.dty = f.get('dty', [])
            F.key = (tu + ':' + F.name) if F.local else F.name
            F.blocks = []
            mx = 0
            for b in f['blocks']:
                nb = []
                for i in b:
                    I = Ins()
                    I.id = i['i']
                    mx = max(mx, I.id)
                    I.op = i['o']
                    I.ty = i.get('t')
                    I.a = i['a']
                    I.line = i.get('l')
                    I.file = files[i['F']] if 'F' in i else None
                    I.fn = i.get('fn')
                    if isinstance(I.fn, str) and I.fn.startswith('@g_string_') and I.fn.endswith('_inline'):
                        I.fn = I.fn[:-7]     # inline variants in glib's headers
                    I.p = i.get('p')
                    I.s = i.get('s')
                    I.cv = i.get('cv')
                    I.b = i.get('b')
                    I.pr = i.get('pr')
                    I.x = {k: i[k] for k in ('aty', 'asz', 'vn', 'ix', 'rmw', 'at', 'vt', 'ft') if k in i} or None
                    I.owner = F
                    I.ctx = ()
                    nb.append(I)
                F.blocks.append(nb)
            F.nextid = mx + 1
            if F.local:
                self.static[(tu, F.name)] = F
                self.fns[F.key] = F
            else:
                self.ext[F.name].append(F)
                if F.name in self.fns:
                    self.fns[F.key + '#' + group_of(tu)] = F
                    F.key = F.key + '#' + group_of(tu)
                else:
                    self.fns[F.key] = F

    # ---- lookup
    def resolve(self, name, tu):
        """definition a direct call of `name` in `tu` reaches, or None"""
        f = self.static.get((tu, name))
        if f:
            return f
        c = self.ext.get(name)
        if not c:
            return None
        if len(c) == 1:
            return c[0]
        g = group_of(tu)
        for f in c:
            if f.tu == tu:
                return f
        for f in c:
            if group_of(f.tu) == g or (g == 'modules' and group_of(f.tu) == 'main'):
                return f
        for f in c:
            if group_of(f.tu) == 'common':
                return f
        for f in c:
            if group_of(f.tu) == 'main':
                return f
        return c[0]

    def callee(self, ins):
        n = callee_name(ins)
        if n is None:
            return None
        return self.resolve(n, ins.owner.tu)

    def fn(self, name, group=None):
        c = self.ext.get(name, [])
        if group:
            c = [f for f in c if group_of(f.tu) == group]
        if not c:
            raise AnalysisBroken('function %s not found' % name)
        return c[0]

    def enum(self, n):
        if n not in self.enumval:
            raise AnalysisBroken('enumerator %s not found' % n)
        return self.enumval[n]

    def enum_range(self, tyname):
        if not hasattr(self, '_er'):
            self._er = {}
            for n, e in self.enums.items():
                vs = set(e.values())
                if len(vs) >= 2 and max(vs) - min(vs) + 1 == len(vs):
                    self._er[n] = (min(vs), max(vs))
        return self._er.get(tyname)

    def field_type(self, S, f):
        if not hasattr(self, '_ft'):
            self._ft = {}
            for n, s in self.structs.items():
                if isinstance(n, str):
                    for x in s['fields']:
                        self._ft[(n, x[0])] = x[2]
        return self._ft.get((S, f))

    def worker_fns(self):
        return [f for f in self.fns.values() if group_of(f.tu) != 'angel']

    def is_noret(self, ins):
        n = callee_name(ins)
        if n is None:
            return False
        f = self.resolve(n, ins.owner.tu)
        if f:
            return f.noret
        return self.decls.get(n, False)

    # ---- address taken functions
    def addr_taken(self):
        """set of fn keys whose address is used as a value (args, stores, initialisers)"""
        if self._addr_taken is None:
            r = set()

            def see(v, tu):
                if isinstance(v, str) and v.startswith('@'):
                    f = self.resolve(v[1:], tu)
                    if f:
                        r.add(f.key)
                elif isinstance(v, list):
                    for x in v:
                        see(x, tu)
                elif isinstance(v, dict):
                    for x in v.get('st', []):
                        see(x[1], tu)
            for (tu, n), g in self.globals.items():
                if 'init' in g:
                    see(g['init'], tu)
            for f in self.fns.values():
                for i in f.instrs():
                    for v in i.a:
                        see(v, f.tu)
            self._addr_taken = r
        return self._addr_taken

    def callers(self):
        if self._callers is None:
            c = defaultdict(list)
            for f in self.fns.values():
                for i in f.calls():
                    t = self.callee(i)
                    if t:
                        c[t.key].append(i)
            self._callers = c
        return self._callers

    def reach(self, roots, through=None):
        """functions transitively reachable by direct calls"""
        seen = {}
        work = [(r, None) for r in roots]
        while work:
            f, via = work.pop()
            if f.key in seen:
                continue
            seen[f.key] = via
            for i in f.calls():
                t = self.callee(i)
                if t and t.key not in seen and (through is None or through(t)):
                    work.append((t, i))
        return seen

    # ---- mod sets: (struct, field) written, transitively; '*' when an indirect call may run anything
    def modset(self, f):
        if self._mod is None:
            self._compute_mod()
        return self._mod.get(f.key, frozenset())

    def _compute_mod(self):
        direct = {}
        calls = {}
        for f in self.fns.values():
            d = set()
            cs = set()
            defs = f.defs()
            for i in f.instrs():
                if i.op == 'store':
                    k = static_field(f, i.a[1])
                    d.add(k if k else ('?', '?'))
                elif i.op == 'atomicrmw' or i.op == 'cmpxchg':
                    k = static_field(f, i.a[0])
                    d.add(k if k else ('?', '?'))
                elif i.op == 'call':
                    t = self.callee(i)
                    if t:
                        cs.add(t.key)
                    elif callee_name(i) is None:
                        d.add('*')
                    else:
                        n = callee_name(i)
                        if n in CALLBACK_TAKERS:
                            d.add('*')
                        if n.startswith('llvm.mem') or n in ('memcpy', 'memset', 'memmove'):
                            k = static_struct(f, i.a[0])
                            d.add(('?mem', k) if k else ('?', '?'))
            direct[f.key] = d
            calls[f.key] = cs
        changed = True
        mod = {k: set(v) for k, v in direct.items()}
        # worklist
        rev = defaultdict(set)
        for k, cs in calls.items():
            for c in cs:
                rev[c].add(k)
        work = list(mod)
        inq = set(work)
        while work:
            k = work.pop()
            inq.discard(k)
            for c in rev[k]:
                n = len(mod[c])
                mod[c] |= mod[k]
                if len(mod[c]) != n and c not in inq:
                    work.append(c)
                    inq.add(c)
        self._mod = {k: frozenset(v) for k, v in mod.items()}

    # struct fields only ever stored through a freshly allocated object / alloca
    def immutable_fields(self):
        if not hasattr(self, '_immut'):
            bad = set()
            seen = set()
            for f in self.fns.values():
                for i in f.instrs():
                    if i.op == 'store':
                        k = static_field(f, i.a[1])
                        if k:
                            seen.add(k)
                            if not fresh_base(f, i.a[1]):
                                bad.add(k)
            self._immut = seen - bad
        return self._immut


CALLBACK_TAKERS = {'g_hash_table_foreach', 'g_queue_foreach', 'g_list_foreach', 'g_ptr_array_foreach', 'g_hash_table_remove_all',
                   'g_hash_table_destroy', 'g_hash_table_unref', 'g_hash_table_remove', 'ev_run', 'g_hash_table_foreach_remove',
                   'lua_pcall', 'lua_call', 'lua_pcallk', 'lua_callk', 'g_thread_pool_push', 'g_tree_foreach', 'qsort', 'g_ptr_array_free'}

ALLOCS = {'g_slice_alloc', 'g_slice_alloc0', 'g_malloc', 'g_malloc0', 'g_malloc_n', 'g_malloc0_n', 'malloc', 'calloc', 'g_slice_copy', 'g_realloc'}


def static_field(f, v, depth=0):
    """(struct, field) that address value v denotes, syntactically"""
    if depth > 8:
        return None
    if isinstance(v, list) and v and v[0] == 'gep':
        for st in reversed(v[2]):
            if st[0] == 'f':
                return (st[1], st[2])
            if st[0] == 'e':
                continue
            return None
        return None
    if not isinstance(v, str) or not v.startswith('%'):
        return None
    d = f.defs().get(int(v[1:]))
    if d is None:
        return None
    if d.op == 'getelementptr':
        for st in reversed(d.p):
            if st[0] == 'f':
                return (st[1], st[2])
            if st[0] in ('e', 'i'):
                continue
            return None
        return static_field(f, d.a[0], depth + 1)
    if d.op in ('bitcast', 'addrspacecast'):
        return static_field(f, d.a[0], depth + 1)
    if d.op in ('phi', 'select'):
        ks = {static_field(f, x, depth + 1) for x in (d.a if d.op == 'phi' else d.a[1:])}
        if len(ks) == 1:
            return ks.pop()
    return None


def static_struct(f, v):
    k = static_field(f, v)
    if k:
        st = f.prog.structs.get(k[0])
        if st:
            for n, off, ty, sz in st['fields']:
                if n == k[1]:
                    return ty
    return None


def root_of(f, v, depth=0):
    """follow geps/casts to the base value"""
    while isinstance(v, str) and v.startswith('%') and depth < 30:
        d = f.defs().get(int(v[1:]))
        if d is None:
            return v
        if d.op in ('getelementptr', 'bitcast'):
            v = d.a[0]
            depth += 1
            continue
        return v
    if isinstance(v, list) and v and v[0] == 'gep':
        return root_of(f, v[1], depth + 1)
    return v


def fresh_base(f, addr):
    r = root_of(f, addr)
    if isinstance(r, str) and r.startswith('%'):
        d = f.defs().get(int(r[1:]))
        if d is not None:
            if d.op == 'alloca':
                return True
            if d.op == 'call' and callee_name(d) in ALLOCS:
                return True
            if d.op == 'phi':
                # g_slice_new style: phi of allocs
                oks = []
                for x in d.a:
                    if isinstance(x, str) and x.startswith('%'):
                        e = f.defs().get(int(x[1:]))
                        oks.append(e is not None and e.op == 'call' and callee_name(e) in ALLOCS)
                    else:
                        oks.append(False)
                return bool(oks) and all(oks)
    return False


# ------------------------------------------------------------------ inlining
def clone_into(out, src, base_ids, argmap, ctx, prog):
    pass


def inline(prog, fn, policy, maxdepth=12, maxins=60000):
    """flatten fn: every direct call for which policy(callee, ins, depth) holds is replaced by the callee's body"""
    R = Fn()
    R.prog = prog
    R.name, R.tu, R.file, R.line = fn.name, fn.tu, fn.file, fn.line
    R.args, R.dty, R.local, R.noret, R.nargs, R.rty, R.key = fn.args, fn.dty, fn.local, fn.noret, fn.nargs, fn.rty, fn.key
    R.blocks = []
    cnt = [0]
    inlined = set()

    def newid():
        cnt[0] += 1
        if cnt[0] > maxins:
            raise AnalysisBroken('inlining %s exceeds %d instructions' % (fn.key, maxins))
        return cnt[0]

    def go(f, args, ctx, stack):
        """append f's blocks to R.blocks; returns (entry index, [(block index, retval)])"""
        idmap = {}
        for i in f.instrs():
            idmap[i.id] = newid()

        def mv(v):
            if isinstance(v, str):
                if v.startswith('%'):
                    return '%' + str(idmap[int(v[1:])])
                if v.startswith('$') and args is not None:
                    k = int(v[1:])
                    return args[k] if k < len(args) else '?'
                if v.startswith('@') and args is not None or v.startswith('@'):
                    return v
                return v
            if isinstance(v, list):
                if v and v[0] in ('s', 'f'):
                    return v
                return [mv(x) for x in v]
            return v
        first = {}      # orig block -> new index of its first part
        last = {}       # orig block -> new index of its last part
        rets = []
        pend = []
        # reserve blocks in order
        for bi, b in enumerate(f.blocks):
            cur = []
            R.blocks.append(cur)
            first[bi] = len(R.blocks) - 1
            ci = len(R.blocks) - 1
            for i in b:
                n = Ins()
                n.id = idmap[i.id]
                n.op, n.ty, n.line, n.file, n.pr, n.x, n.owner = i.op, i.ty, i.line, i.file, i.pr, i.x, i.owner
                n.cv, n.s, n.b = i.cv, i.s, i.b
                n.ctx = ctx
                n.fn = i.fn if (isinstance(i.fn, str) and i.fn.startswith('@')) else (mv(i.fn) if i.fn is not None else None)
                n.a = [mv(x) for x in i.a]
                if i.p is not None:
                    n.p = [st if st[0] == 'f' else [st[0], st[1], mv(st[2]), st[3]] if len(st) > 3 else st for st in i.p]
                else:
                    n.p = None
                if i.op == 'call':
                    t = prog.callee(i)
                    if t is not None and t.key not in stack and len(stack) < maxdepth and policy(t, i, len(stack)):
                        inlined.add(t.key)
                        ent, rr = go(t, n.a, ctx + (i,), stack + [t.key])
                        j = Ins()
                        j.id, j.op, j.ty, j.a, j.s = newid(), 'br', None, [], [ent]
                        j.line, j.file, j.fn, j.p, j.cv, j.b, j.pr, j.x, j.owner, j.ctx = i.line, i.file, None, None, None, None, None, {'abs': 1}, i.owner, ctx
                        R.blocks[ci].append(j)
                        R.blocks.append([])
                        ci = len(R.blocks) - 1
                        for bidx, rv in rr:
                            k = Ins()
                            k.id, k.op, k.ty, k.a, k.s = newid(), 'br', None, [], [ci]
                            k.line, k.file, k.fn, k.p, k.cv, k.b, k.pr, k.x, k.owner, k.ctx = i.line, i.file, None, None, None, None, None, {'abs': 1}, i.owner, ctx
                            R.blocks[bidx].append(k)
                        if n.ty is not None:
                            ph = Ins()
                            ph.id, ph.op, ph.ty = n.id, 'phi', n.ty
                            ph.a = [rv for _, rv in rr]
                            ph.b = [bidx for bidx, _ in rr]
                            ph.line, ph.file, ph.fn, ph.p, ph.cv, ph.s, ph.pr, ph.x, ph.owner, ph.ctx = i.line, i.file, None, None, None, None, None, {'abs': 1}, i.owner, ctx
                            R.blocks[ci].append(ph)
                        if not rr:
                            # callee never returns
                            u = Ins()
                            u.id, u.op, u.ty, u.a, u.s = newid(), 'unreachable', None, [], []
                            u.line, u.file, u.fn, u.p, u.cv, u.b, u.pr, u.x, u.owner, u.ctx = i.line, i.file, None, None, None, None, None, None, i.owner, ctx
                            R.blocks[ci].append(u)
                            R.blocks.append([])
                            ci = len(R.blocks) - 1
                        continue
                if i.op == 'ret' and args is not None:
                    rets.append((ci, n.a[0] if n.a else None))
                    continue
                R.blocks[ci].append(n)
            last[bi] = ci
        # fix up branch targets and phi preds (only for instructions of this f at this ctx)
        lo = first[0]
        for bi in range(len(f.blocks)):
            for idx in range(first[bi], last[bi] + 1):
                for n in R.blocks[idx]:
                    if n.ctx is not ctx and n.ctx != ctx:
                        continue
                    if n.x and n.x.get('abs'):
                        continue
                    if n.owner is not f and n.owner.key != f.key:
                        continue
                    if n.s is not None and not getattr(n, '_done', False):
                        n.s = [first[x] for x in n.s]
                    if n.op == 'phi' and n.b is not None:
                        n.b = [last[x] for x in n.b]
        return first[0], rets
    go(fn, None, (), [fn.key])
    # drop empty unreachable blocks
    for b in R.blocks:
        if not b or b[-1].op not in ('br', 'switch', 'ret', 'unreachable', 'indirectbr'):
            u = Ins()
            u.id, u.op, u.ty, u.a, u.s = newid(), 'unreachable', None, [], []
            u.line, u.file, u.fn, u.p, u.cv, u.b, u.pr, u.x, u.owner, u.ctx = None, None, None, None, None, None, None, None, fn, ()
            b.append(u)
    R.nextid = cnt[0] + 1
    R.inlined = None
    return R, inlined


_prog = None


def load_program(want=None):
    global _prog
    if _prog is None:
        scr = front.Scratch()
        tus, mb, inc = front.compile_all(scr, want)
        _prog = Program(tus, mb, scr)
    return _prog
