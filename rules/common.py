"""helpers shared by the property rules"""
import ir
from ir import callee_name, static_field, root_of
from absint import *
from front import AnalysisBroken

# logging only formats and queues a message; it does not change the state the rules reason about
LOGS = {'li_log_write', 'li_log_write_direct', 'li_log_split_lines', 'li_log_split_lines_', 'li_counter_format', 'li_event_loop_log_write', 'li_angel_log_write', 'li_server_state_str', 'g_strerror',
        'li_cur_ts', 'li_worker_current_timestamp', 'li_http_header_is', 'li_http_header_find_first', 'li_http_header_find_next',
        'li_http_header_find_last', 'li_http_header_lookup', 'li_http_header_key_is'}


def prog(want=None):
    return ir.load_program(want)


def const_arg_str(v):
    if isinstance(v, V) and v.k == 's':
        return v.a[0]
    return None


def is_fld(v, S, f):
    return isinstance(v, V) and v.k == 'fld' and v.a[1] == S and v.a[2] == f


def loaded_from(st, v, S, f):
    """v is the current/initial content of some field (S,f)"""
    if not isinstance(v, V):
        return False
    if v.k == 'init' and fkey(v.a[0]) == (S, f):
        return True
    for a, x in st.mem.items():
        if x is v and a.k == 'fld' and (a.a[1], a.a[2]) == (S, f):
            return True
    return False


def base_of(st, v, S, f):
    """object whose field (S,f) v was loaded from"""
    if not isinstance(v, V):
        return None
    for a, x in st.mem.items():
        if x is v and a.k == 'fld' and (a.a[1], a.a[2]) == (S, f):
            return a.a[0]
    if v.k == 'init' and fkey(v.a[0]) == (S, f):
        return v.a[0].a[0]
    return None


def mem_of(st, S, f):
    """[(addr, value)] currently known for field (S,f)"""
    return [(a, x) for a, x in st.mem.items() if a.k == 'fld' and a.a[1] == S and a.a[2] == f]


def fn_values(prog, v, tu):
    if isinstance(v, str) and v.startswith('@'):
        f = prog.resolve(v[1:], tu)
        return f
    return None


def stream_callbacks(p, S, f):
    """functions installed as callback of the embedded stream field (S,f)"""
    r = []
    for fn in p.fns.values():
        for i in fn.calls():
            if callee_name(i) in ('li_stream_init',) and static_field(fn, i.a[0]) == (S, f):
                t = fn_values(p, i.a[2], fn.tu)
                if t:
                    r.append(t)
    return r


def set_ps(st, **kw):
    d = dict(st.ps or ())
    d.update(kw)
    st.ps = tuple(sorted(d.items(), key=lambda x: x[0]))


def get_ps(st, k, d=None):
    for a, b in st.ps or ():
        if a == k:
            return b
    return d


def track(st, v):
    if isinstance(v, V):
        st.tracked = st.tracked | v.syms


def callers_of(p, name):
    r = []
    for fn in p.fns.values():
        for i in fn.calls():
            if callee_name(i) == name:
                r.append((fn, i))
    return r


def stores_to(p, S, f):
    r = []
    for fn in p.fns.values():
        for i in fn.instrs():
            if i.op == 'store' and static_field(fn, i.a[1]) == (S, f):
                r.append((fn, i))
    return r


def roots_calling(p, fn, stop=lambda f: False):
    """entry points (functions without direct callers, or address-taken) that reach fn by direct calls within its TU"""
    callers = p.callers()
    at = p.addr_taken()
    seen = set()
    out = set()
    work = [fn]
    while work:
        f = work.pop()
        if f.key in seen:
            continue
        seen.add(f.key)
        cs = [c for c in callers.get(f.key, []) if c.owner.tu == f.tu]
        if not cs or f.key in at or not f.local:
            out.add(f.key)
        for c in cs:
            if not stop(c.owner):
                work.append(c.owner)
    return [p.fns[k] for k in sorted(out)]


def unwritten(p, f, keys):
    """those of `keys` that no function reachable from f by direct calls outside f's own file stores to"""
    keys = set(keys)
    for k in p.reach([f]):
        g = p.fns[k]
        if g.tu == f.tu:
            continue
        for i in g.instrs():
            if i.op == 'store':
                keys.discard(static_field(g, i.a[1]))
    return keys


def byte_values(st, v):
    """values (0..255) the 8-bit value v can have under the facts of st"""
    if isconst(v):
        return {int(v) & 255}
    lo, hi, ne = st.rng(v)
    s = {x & 255 for x in range(-128, 128) if lo <= x <= hi and x not in ne}
    if hi > 127 and v.k in ('u', 'and'):
        s |= {x for x in range(128, 256) if lo <= x <= hi and x not in ne}
    views = [(v, False)]
    if v.k == 'u' and v.a[1] == 8:
        views.append((v.a[0], False))
    else:
        views.append((mk('u', v, 8), True))
    if v.k == 'trunc':
        views.append((mk('u', v, 8), True))
        l2, h2, n2 = st.rng(v.a[0])
        if l2 >= 0 and h2 <= 255:
            s = {x for x in s if l2 <= x <= h2 and x not in n2}
    for w, un in views:
        f = st.facts.get(w)
        if f and un:
            s = {x for x in s if f[0] <= x <= f[1] and x not in f[2]}
    ws = {w for w, _ in views}
    for f, r in st.facts.items():
        if f.k != 'cmp' or r[0] != r[1] or f.a[1] not in ws or not isconst(f.a[2]):
            continue
        pr, w, c = f.a
        z = w.k == 'u'

        def num(x):
            return x if z or pr[0] == 'u' or x < 128 else x - 256
        cc = c & 255 if pr[0] == 'u' and not z else c
        t = {'eq': lambda x: num(x) == c or x == c & 255 and not z, 'ne': lambda x: not (num(x) == c or x == c & 255 and not z), 'lt': lambda x: num(x) < cc, 'le': lambda x: num(x) <= cc,
             'gt': lambda x: num(x) > cc, 'ge': lambda x: num(x) >= cc}[pr if pr in ('eq', 'ne') else pr[1:]]
        s = {x for x in s if t(x) == (r[0] == 1)}
    for f, r in st.facts.items():
        # glib's character table
        if f.k == 'and' and isconst(f.a[1]) and (r[0] > 0 or 0 in r[2]) and contains(f, v) and 'g_ascii_table' in show(f):
            t = {1: str.isalnum, 2: str.isalpha, 8: str.isdigit}.get(f.a[1])
            if t:
                s = {x for x in s if x < 128 and t(chr(x))}
    return s


def contains(f, v):
    """expression f mentions v"""
    if f is v:
        return True
    return isinstance(f, V) and f.depth > v.depth and any(contains(x, v) for x in f.a if isinstance(x, V))


def operands(ai, v):
    """the values a stored phi/select merges"""
    d = ai.fn.defs().get(int(v[1:])) if isinstance(v, str) and v.startswith('%') else None
    if d is None:
        return []
    if d.op == 'phi':
        return [x for x in d.a if x is not None]
    if d.op == 'select':
        return d.a[1:3]
    return []


def table_strings(p, tu, addr):
    """the strings of the constant global table addr lies in"""
    r = root(addr)
    if not (isinstance(r, V) and r.k == 'g'):
        return []
    g = p.globals.get((tu, r.a[0].lstrip('@')))
    if g is None or not g.get('const') or 'init' not in g:
        return []
    out = []

    def walk(x):
        if isinstance(x, dict):
            for _, y in x.get('st', ()):
                walk(y)
        elif isinstance(x, list):
            if len(x) >= 2 and x[0] == 's' and isinstance(x[1], str):
                out.append(x[1])
            else:
                for y in x:
                    walk(y)
    walk(g['init'])
    return out
