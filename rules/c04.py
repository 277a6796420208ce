"""C04 nothing of one request leaks into the next one served by the same connection (object)"""
from common import *

EXPLAIN = ('Must-reset analysis: path-sensitive abstract interpretation (reset helpers inlined across files) collects what has been reset on '
           'every path to the three hand-over points: keep-alive reuse of a connection, return of a connection object to the pool, start '
           'of parsing the next request. Every per-request/per-connection field has to be covered there.')

RESETS = {'li_request_reset', 'li_response_reset', 'li_physical_reset', 'li_environment_reset', 'li_vrequest_reset',
          'li_http_request_parser_reset', 'li_vrequest_start', 'li_vrequest_filters_reset', 'li_chunk_parser_reset'}

# how a field counts as reset: an integer -> that value is stored; 'empty' -> emptied string/array; 'call' -> handed to a project function
# that resets the object it owns
REQUEST = {('liRequest', 'http_method'): 'LI_HTTP_METHOD_UNSET', ('liRequest', 'http_method_str'): 'empty', ('liRequest', 'http_version'): 'LI_HTTP_VERSION_UNSET',
           ('liRequest', 'headers'): 'li_http_headers_reset', ('liRequest', 'content_length'): -1}
for _f in ('raw', 'raw_path', 'raw_orig_path', 'scheme', 'authority', 'path', 'query', 'host'):
    REQUEST[('liRequestUri', _f)] = 'empty'
VR = {('liResponse', 'http_status'): 0, ('liResponse', 'transfer_encoding'): 'LI_HTTP_TRANSFER_ENCODING_IDENTITY', ('liResponse', 'headers'): 'li_http_headers_reset',
      ('liPhysical', 'path'): 'empty', ('liPhysical', 'doc_root'): 'empty', ('liPhysical', 'pathinfo'): 'empty',
      ('liEnvironment', 'table'): 'g_hash_table_remove_all',
      ('liVRequest', 'direct_out'): 0, ('liVRequest', 'backend_source'): 'released', ('liVRequest', 'backend_drain'): 'released',
      ('liVRequest', 'in_buffer_on_disk_stream'): 'released', ('liVRequest', 'wait_for_request_body_stream'): 'released',
      ('liVRequest', 'action_stack'): 'li_action_stack_reset', ('liVRequest', 'state'): 'LI_VRS_CLEAN',
      ('liVRequest', 'plugin_ctx'): 'empty', ('liVRequest', 'lua_server_env_ref'): -2, ('liVRequest', 'lua_worker_env_ref'): -2,
      ('liVRequest', 'options'): 'copied', ('liVRequest', 'log_context'): 'li_log_context_set'}
PARSER = {('liHttpRequestCtx', 'h_key'): 'empty', ('liHttpRequestCtx', 'h_value'): 'empty', ('liChunkParserCtx', 'bytes_in'): 0,
          ('liChunkParserCtx', 'cs'): 'const'}
CON = {('liConnection', 'response_headers_sent'): 0, ('liConnection', 'expect_100_cont'): 0, ('liConnection', 'out_has_all_data'): 0,
       ('liConInfo', 'keep_alive'): 1, ('liFilterChunkedDecodeState', 'parse_state'): 0}
DEAD = {('liConnection', 'srv_sock'): 0, ('liConInfo', 'is_ssl'): 0, ('liConInfo', 'aborted'): 0, ('liConInfo', 'remote_addr_str'): 'empty',
        ('liConInfo', 'local_addr_str'): 'empty', ('liConnection', 'keep_alive_requests'): 0, ('liConInfo', 'out_queue_length'): 0,
        ('liConnection.keep_alive_data', 'link'): 0, ('liConnection', 'io_timeout_elem'): 'li_waitqueue_remove'}

EMPTY = {'g_string_truncate': 1, 'g_string_set_size': 1, 'g_ptr_array_set_size': 1, 'g_byte_array_set_size': 1, 'g_array_set_size': 1}


class Resets(Rule):
    def __init__(self, p, tabs, final, final_assume=None):
        self.p = p
        self.tab = {}
        for t in tabs:
            for k, v in t.items():
                if isinstance(v, str) and v.startswith('LI_'):
                    v = p.enum(v)
                self.tab[k] = v
        self.final = final        # 'ret' with KEEP_ALIVE stored | name of the call that hands the object over
        self.KA = p.enum('LI_CON_STATE_KEEP_ALIVE')
        self.CLEAN = p.enum('LI_VRS_CLEAN')
        self.n = 0

    def start(self, st, fn, ai):
        set_ps(st, on=False)

    # ---- which fields does value v denote?
    def owner_of(self, st, v):
        if not isinstance(v, V):
            return None
        if v.k == 'init':
            return fkey(v.a[0])
        for a, x in st.mem.items():
            if x is v and a.k == 'fld':
                return fkey(a)
        return self.alias.get(v) if hasattr(self, 'alias') else None

    def load(self, st, ins, addr, val, ai):
        if fkey(addr) in self.tab and isinstance(val, V) and val.k == 'sym':
            if not hasattr(self, 'alias'):
                self.alias = {}
            self.alias[val] = fkey(addr)
        if self.final == 'li_http_request_parse' and fkey(addr) == ('liVRequest', 'state') and isinstance(val, V) and get_ps(st, 'on'):
            st.setr(val, self.CLEAN, self.CLEAN, frozenset())       # established when the connection entered keep-alive

    def branch(self, st, ins, cond, truth, ai):
        for a, x in st.mem.items():
            if a.k == 'fld':
                k = (a.a[1], a.a[2])
                w = self.tab.get(k)
                if isinstance(w, int) and st.const(x) == w:
                    st.mark(*k)
                elif w in ('released',) and st.const(x) == 0:
                    st.mark(*k)
        if self.final == 'li_http_request_parse' and not get_ps(st, 'on') and any(st.const(x) == self.KA for a, x in mem_of(st, 'liConnection', 'state')):
            set_ps(st, on=True)

    def store(self, st, ins, addr, val, ai):
        k = fkey(addr)
        if k == ('liConnection', 'state') and st.const(val) == self.KA and self.final == 'ret':
            set_ps(st, on=True)
        if k == ('_GString', 'len') and st.const(val) == 0:
            o = self.owner_of(st, addr.a[0])
            if self.tab.get(o) == 'empty':
                st.mark(*o)
        w = self.tab.get(k)
        if w is None:
            return
        if isinstance(w, int):
            if st.const(val) == w:
                st.mark(*k)
            elif get_ps(st, 'on') or self.final != 'ret' or True:
                st.unmark(*k)
        elif w == 'const' and st.const(val) is not None:
            st.mark(*k)
        elif w == 'released' and st.const(val) == 0:
            st.mark(*k)

    def call(self, st, ins, name, args, ai):
        if self.final == name and (name != 'li_http_request_parse' or get_ps(st, 'on')):
            self.n += 1
            self.verify(st, ins, ai)
        if not name:
            return
        if name.startswith('llvm.memset') and isinstance(args[0], V):
            k = fkey(args[0])
            if k in self.tab and st.const(args[1]) == 0:
                st.mark(*k)
            if k and self.tab.get(k) is None:
                # zeroing a whole object zeroes its fields
                for (S, f), w in self.tab.items():
                    if w == 0 and self.p.field_type(*k) == S:
                        st.mark(S, f)
            return
        if name.startswith('llvm.memcpy') or name in ('memcpy', 'g_memmove'):
            o = self.owner_of(st, args[0])
            if self.tab.get(o) == 'copied':
                st.mark(*o)
            return
        for n, a in enumerate(args):
            if not isinstance(a, V):
                continue
            ks = [fkey(a)] if a.k == 'fld' else []
            ks.append(self.owner_of(st, a))
            for k in ks:
                w = self.tab.get(k)
                if w == 'empty' and EMPTY.get(name) == 1 and n == 0 and st.const(args[1]) == 0:
                    st.mark(*k)
                elif w == 'empty' and name == 'g_string_assign' and n == 0 and const_arg_str(args[1]) == '':
                    st.mark(*k)
                elif w == 'released' and a.k == 'fld' and name == 'li_stream_safe_reset_and_release':
                    st.mark(*k)
                elif w == 'zeroed' and a.k == 'fld' and 'reset' in name:
                    st.mark(*k)
                elif w == name:
                    st.mark(*k)

    def verify(self, st, ins, ai):
        miss = sorted('%s.%s' % k for k in self.tab if k not in st.marks)
        for m in miss:
            ai.report(st, ins, '%s is not reset before %s' % (m, {'ret': 'the connection waits for its next request', 'li_worker_con_put': 'the connection object returns to the pool',
                                                                 'li_http_request_parse': 'the next request is parsed'}[self.final]))

    def ret(self, st, ins, val, ai):
        if self.final == 'ret' and get_ps(st, 'on'):
            self.n += 1
            self.verify(st, ins, ai)


def check(ctx):
    p = prog()
    ctx.rule('keep-alive', 'every path that leaves the connection in keep-alive state has reset response, path, environment, vrequest, parser and per-request connection fields')
    ctx.rule('pool', 'every path that returns a connection object to the pool has reset all of these, the request and the per-connection fields')
    ctx.rule('request', 'every path that parses a request on a reused connection has reset the request')
    also = lambda t, i, d: t.name in RESETS
    pol = same_tu(also=also, opaque=('li_response_send_headers',))
    for final, tabs, rule in (('ret', (VR, PARSER, CON), 'keep-alive'), ('li_worker_con_put', (REQUEST, VR, PARSER, CON, DEAD), 'pool'), ('li_http_request_parse', (REQUEST,), 'request')):
        if final == 'ret':
            sites = [f for f, i in stores_to(p, 'liConnection', 'state') if i.a[0] == p.enum('LI_CON_STATE_KEEP_ALIVE')]
            roots = {}
            for f in sites:
                for r in roots_calling(p, f):
                    if not f.local or r is not f:
                        roots[r.key] = r
            # entry points that reach the state change through the public "request done" function are analysed there
            if 'li_connection_request_done' in roots:
                roots = {'li_connection_request_done': roots['li_connection_request_done']}
        else:
            roots = {r.key: r for f, i in callers_of(p, final) for r in roots_calling(p, f)}
        n = 0
        for r in roots.values():
            m = Resets(p, tabs, final)
            ai = analyse(p, r, m, K=6, purecalls=LOGS, policy=pol)
            ctx.take(ai, rule)
            n += m.n
            for k in m.tab:
                ctx.ok(rule, '%s.%s [%s]' % (k[0], k[1], r.name))
        ctx.floor('hand_over_paths[%s]' % rule, n, 1)
