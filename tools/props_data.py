TRUST = 'Assumes the front end (clang IR, meson configuration of this sandbox) represents what is built, calls through unknown pointers may do anything to memory, and integer widths of 32 bits and more do not wrap unless a rule says otherwise.'

prop('C01', 'Refused request heads get an error response and never reach handling',
     'A request head that cannot be parsed, is refused by validation, is longer than 64 KB, or whose URI is longer than 8 KB is answered with a 4xx/5xx status. Request handling never starts for it, and the connection is closed after the response.',
     ['inputs'], 'every byte sequence sent by a client, however it is split into packets',
     'The http tests send a dozen malformed heads; the parser, limits and each refusal branch of the validator interact with arbitrary input and packetisation.',
     ['src/main/connection.c', 'src/main/request.c', 'src/main/http_request_parser.rl'],
     [('input callback refusal branches', 'src/main/connection.c:_connection_http_in_cb'), ('bad_request', 'src/main/request.c'), ('64 KB check', 'src/main/http_request_parser.rl:li_http_request_parse')],
     'path-sensitive abstract interpretation of the connection input callback, the validator and the head parser',
     'All paths of the analysed functions (helpers inlined) are covered by a fixpoint; ' + TRUST,
     '''The callback installed for the client input stream is found through its registration and interpreted with all helpers of its file inlined. A monitor follows the
     results of the head parser and of the validator; a path on which parsing failed, validation failed or the URI exceeds 8 KB must have a nonzero 4xx/5xx status,
     keep-alive off and the response-writing state at the moment the output side is woken, and must not have started request handling. The validator's failing returns may only
     leave a 4xx/5xx status (or none); the parser may report success only under a 64 KB bound.''',
     observe=['response bytes on the client socket'])

prop('C02', 'Only unambiguously framed requests are accepted',
     'A request is accepted only if its HTTP version is known, its URI is non-empty and parses, it has at most one Host and one Content-Length header, a host is present for HTTP/1.1, every Transfer-Encoding and Expect value is supported, and chunked is applied at most once. A Content-Length must be completely numeric, non-negative and not overflowed, and GET/HEAD requests must not announce a body. The body length used for an accepted request is the one its headers announce (chunked overrides Content-Length).',
     ['inputs'], 'every syntactically parsable request head',
     'Tests contain a handful of heads; request smuggling needs header combinations (duplicates, chunked plus length, signs, overflow) that no finite sample covers.',
     ['src/main/request.c'],
     [('li_request_validate_header', 'src/main/request.c')],
     'path-sensitive abstract interpretation of the request validator, one monitor per aspect',
     'Every accepting path of the validator is covered; what the URL and host name grammars accept is a matter of other properties. ' + TRUST,
     '''The validator is interpreted once per aspect (target, duplicate Host, duplicate Content-Length, Transfer-Encoding values, Expect values, numeric form, resulting length).
     The monitor tracks the results of header look-ups, string comparisons and the numeric conversion; every return that accepts the request must carry the facts the statement demands.''')

prop('C03', 'Connections are reused only when the previous exchange is complete',
     'A connection waits for a further request only if keep-alive was granted, the previous request body was read completely, the complete response was handed to the socket, and the server is running (not shutting down). The next request starts with an empty body and fresh request state.',
     ['inputs', 'schedules', 'histories'], 'every sequence of requests on a connection and every relative timing of body data, response data and server state changes',
     'Tests use short requests that arrive in one packet and read complete responses; the dangerous orders (response finished before the body arrived, shutdown in between) need specific interleavings.',
     ['src/main/connection.c', 'src/modules/mod_openssl.c', 'src/modules/mod_gnutls.c'],
     [('li_connection_request_done', 'src/main/connection.c'), ('callers in the socket callbacks', 'src/main/connection.c, src/modules/mod_openssl.c, src/modules/mod_gnutls.c')],
     'path-sensitive abstract interpretation of every entry point reaching the keep-alive transition',
     'All paths from every entry point are covered. ' + TRUST,
     '''Every store that puts a connection into the keep-alive state is found; each entry point reaching it is interpreted and every path must have established: keep-alive flag set, request body stream closed,
     server state running or warm-up. Every call that declares a response finished must be under "all data handed over" and "output queue empty or gone". Parsing on a connection in keep-alive state must be preceded by
     reopening the body queue and restarting the request.''')

prop('C04', 'No state of a request or client leaks into the next one',
     'When a connection is reused for another request, or a connection object is reused for another client, nothing of the previous request is visible to the next one: method, URI, headers, body length, response status and headers, physical path, environment, options, plugin and script contexts, parser and body decoder state all start from their initial values. A new client additionally starts without the previous peer addresses, TLS flag and counters.',
     ['histories'], 'every history of requests, clients, errors and aborts on a connection (object)',
     'Tests mostly use a new connection per request; leaks show only when a particular feature was used by the previous request on the same connection object.',
     ['src/main/connection.c', 'src/main/virtualrequest.c', 'src/main/request.c', 'src/main/response.c', 'src/main/environment.c', 'src/main/http_request_parser.rl'],
     [('li_connection_reset_keep_alive, li_connection_reset2', 'src/main/connection.c'), ('li_vrequest_reset, li_vrequest_start', 'src/main/virtualrequest.c'), ('li_request_reset, li_physical_reset', 'src/main/request.c')],
     'must-reset dataflow analysis (reset helpers inlined across files) at the three hand-over points',
     'Covers every path to the hand-over points for the listed fields; the contents of plugin-private objects are released by their close handlers, not analysed here. ' + TRUST,
     '''A table lists each per-request and per-connection field and its initial value (or how an owned object is emptied). Interpretation with the reset helpers inlined collects what has been reset on every path to
     (a) entering keep-alive, (b) returning the connection object to the pool, (c) parsing the next request on a reused connection; each field must be covered.''')

prop('C05', 'Request bodies are delimited and decoded exactly',
     'The request body handed to request processing consists of exactly the bytes the framing announces: with a Content-Length, precisely that many bytes after the head; with chunked coding, precisely the chunk data. Chunk lengths are the value of their hexadecimal digits (overflow is refused), line ends and trailers are never delivered as body, the body is complete exactly after the terminating empty line, malformed coding ends the connection with an error, and bytes behind the body are left for the next request. The result does not depend on how the bytes are split into packets.',
     ['inputs', 'schedules'], 'every chunked or plain body, correct or malformed, and every way to split it into packets',
     'Tests post a few short bodies; the decoder can be suspended in every state with every pending length, which tests cannot enumerate.',
     ['src/main/connection.c', 'src/main/filter_chunked.c'],
     [('_connection_http_in_cb', 'src/main/connection.c'), ('li_filter_chunked_decode', 'src/main/filter_chunked.c')],
     'abstract interpretation of the decoder in product with an independent automaton of the chunked grammar; typestate of the input cursor',
     'All decoder states reachable by suspension are inferred and analysed; chunk extensions (refused by the server) and characters after an isolated CR in trailers are left unspecified. ' + TRUST,
     '''The decoder is interpreted together with a grammar automaton that is stepped with the character class of every character the code reads. Suspension points (returns asking for more data) yield new entry states
     (decoder state, sign of the pending length, grammar state) until none is new. Delivering bytes is allowed only in the data state, for at most the pending length, which must be reduced by the delivered count; completion only in the
     end state; failure only on malformed input. A cursor typestate demands that consumed characters are counted once, removed once and never re-read. The input callback must request exactly (announced - received) bytes,
     use the decoder only for bodies of unannounced length and close the body only at the announced length.''')

prop('C06', 'Every response is framed so that the client can tell where it ends',
     'Each response has exactly one head, sent before its data, well-formed and ended by one empty line. Responses to HEAD and with status 1xx, 204, 205 or 304 carry no body. Any other body is delimited in exactly one way: a Content-Length equal to the complete body, chunked coding (only for HTTP/1.1 clients on a persistent connection, announced iff applied, never together with Content-Length, every chunk with the length of its data, one terminating chunk at the end), or closing the connection. The Connection header sent tells the client whether the connection stays open; Connection headers of backends are not forwarded. A response is complete only when its source has ended.',
     ['inputs', 'schedules'], 'every request, status, method, protocol version and every way the response body arrives from its producer',
     'Tests check a few complete responses; framing depends on method, version, status, keep-alive and on whether the body was complete when the head was written.',
     ['src/main/response.c', 'src/main/connection.c', 'src/main/filter_chunked.c'],
     [('li_response_send_headers', 'src/main/response.c'), ('_connection_http_out_cb, mainvr_connection_upgrade', 'src/main/connection.c'), ('li_filter_chunked_encode', 'src/main/filter_chunked.c')],
     'path-sensitive abstract interpretation of head writer, data callback and chunked encoder; width analysis of the chunk length',
     'All paths of the head writer, of every function sending a head, and of the encoder. Header names and values supplied by modules are not parsed here. ' + TRUST,
     '''The head writer is interpreted three times (framing, Connection header, syntax). At the point where the head is queued the path must prove one framing: output shut for bodyless responses, printed length loaded from a queue known to be closed,
     chunked bit set with header announced, Content-Length removed, HTTP/1.1 and keep-alive, or keep-alive cleared. The callback moving data must know the chunked bit for the transfer it uses, must have sent the head exactly once and must not
     send data after the end. The encoder is a small typestate (length, data, CRLF; terminator once, only when the input is closed) plus a search for truncations of the length.''')

prop('C07', 'Request paths stay below the configured roots',
     'The URL path is percent-decoded exactly once and its dot segments are removed after decoding, before any handler sees it, and again whenever an action rewrites it; decoding never produces control characters and always yields exactly the decoded part. The physical path is always a configured root followed by the normalised URL path, or by its part from a segment boundary on: alias prefixes match only whole segments. User names taken from the path for user directories contain only letters, digits, "_" and "-". Accepted host names (which may be inserted into document roots) contain no empty label and do not end in a dot. (Lua scripts count as configuration.)',
     ['inputs'], 'every URL, Host header and configuration of docroot, alias, index, pathinfo, userdir, vhost, rewrite',
     'Path traversal needs particular encodings and prefix configurations; a test shows only that the sampled ones are refused.',
     ['src/main/request.c', 'src/main/plugin_core.c', 'src/main/url_parser.rl', 'src/modules/mod_userdir.c', 'src/modules/mod_rewrite.c', 'src/common/utils.c'],
     [('request_parse_url', 'src/main/request.c'), ('core_handle_docroot, core_handle_alias, core_handle_index, core_handle_pathinfo', 'src/main/plugin_core.c'), ('userdir', 'src/modules/mod_userdir.c'), ('rewrite', 'src/modules/mod_rewrite.c'), ('li_url_decode', 'src/common/utils.c')],
     'path-sensitive abstract interpretation with a content class per path string (taint typestate)',
     'Every function that changes one of the three strings is found by searching the IR for mutations of strings loaded from those fields. That li_path_simplify itself removes every dot segment is a string-rewriting loop outside the reach of the analysis and assumed (see N01). ' + TRUST,
     '''Each of request path, document root and physical path has a content class (empty, configured, raw, decoded, normalised, below root, with host parts, unknown). Appends, assignments, truncations (also when inlined by the compiler), decoding and
     normalisation move between classes; provenance of pointers (string contents, configuration reachable from the action parameter, temporary strings) is tracked as must-facts through joins. A part of the URL path may be appended to a root only from an
     offset at which the byte is known to be '/' or the end of the string; user names only if every byte passed the character test. Successful returns must leave normalised / below-root classes. The validator must know, when it accepts, that the host has no
     leading dot, no ".." and does not end in a dot; the percent decoder is checked for the byte range it can store.''',
     observe=['files served', 'SCRIPT_FILENAME passed to backends'])

prop('C08', 'Backend responses are forwarded completely or aborted',
     'Data of a backend (HTTP proxy, FastCGI, SCGI) are forwarded only after its response head was parsed and accepted; heads with an unsupported or repeated transfer coding or with an invalid Content-Length are refused. The response body is exactly the decoded chunked body, exactly Content-Length bytes, or everything until the backend ends the response. It is marked complete only when that end was reached. When the backend fails or ends earlier - before the head is complete, within the body, before the response was connected to the client - the response is aborted: never completed, never left waiting. From a FastCGI connection exactly the contents of the stdout records before the end of data are response data, whatever the sizes of records, padding and packets.',
     ['inputs', 'schedules', 'faults'], 'every backend output, correct or not, every split into packets, and every point at which the backend closes or fails',
     'Tests use well-behaved backends; truncation and early close at arbitrary points and packet boundaries cannot be sampled.',
     ['src/main/stream_http_response.c', 'src/modules/fastcgi_stream.c', 'src/main/virtualrequest.c'],
     [('check_response_header, stream_http_response_data, stream_http_response_cb', 'src/main/stream_http_response.c'), ('fastcgi_decode, fastcgi_stream_in', 'src/modules/fastcgi_stream.c'), ('li_vrequest_state_machine', 'src/main/virtualrequest.c')],
     'path-sensitive abstract interpretation of the response stream, the FastCGI record decoder (byte accounting as typestate) and the connection of backend and client',
     'All paths of the named callbacks with their helpers inlined. The grammar of response heads (generated parser) and of chunked coding (C05 analyses the shared decoder) are not analysed here. ' + TRUST,
     '''The callback of the response stream is interpreted per event: transfers need an accepted head, the right framing flag, and for announced lengths the remaining length as limit, reduced by exactly the result of the transfer; completion needs
     the end condition of the framing; a return with a closed source needs an error, a reset or a disconnect. The head check is interpreted for transfer codings and for the numeric form. The FastCGI decoder is interpreted with an accounting typestate:
     bytes removed from the input must be bounded by the rest of the record (relational facts carried through joins) and the rest reduced by the amount really removed; header fields must be composed of the right header bytes. Every place that connects the
     backend stream to the client must know that the backend is still there or ended regularly.''',
     observe=['response bytes on the client socket', 'time until the client sees the end'])

prop('C09', 'Requests are passed to backends correctly delimited and encoded',
     'The request head sent to an HTTP backend consists of one request line, header lines and one empty line; its Content-Length is the length of the request body, and Transfer-Encoding, Connection, X-Forwarded-For and X-Forwarded-Proto of the client are never passed on but replaced by the server\'s own. SCGI heads are a netstring whose length is that of the variables, starting with CONTENT_LENGTH. Every FastCGI record announces exactly the content and padding that follow it, names and values are length-prefixed as the protocol demands, and the body ends with an empty record. The CGI variables describe this request, and client headers reach a backend only as variables starting with HTTP_ (or as CONTENT_TYPE), so no header can set another variable.',
     ['inputs'], 'every accepted request: any header names, values, lengths, bodies and packetisation',
     'Tests forward a few small requests; smuggling to backends and length truncation need particular headers, or sizes above 127, 255 or 65535 bytes.',
     ['src/modules/mod_proxy.c', 'src/modules/mod_scgi.c', 'src/modules/fastcgi_stream.c', 'src/main/environment.c'],
     [('proxy_send_headers, proxy_handle', 'src/modules/mod_proxy.c'), ('scgi_send_env', 'src/modules/mod_scgi.c'), ('stream_send_*, fastcgi_send_env, fastcgi_stream_out', 'src/modules/fastcgi_stream.c'), ('li_environment_dup2cgi, cgi_fix_header_name', 'src/main/environment.c')],
     'abstract interpretation with a symbolic text/byte emission model: what is appended is compared with the protocol grammar on every path',
     'All paths of the emitting functions with their helpers inlined; loops over headers are covered by a fixpoint. What the backend does with the data is outside. ' + TRUST,
     '''The strings and byte arrays built for backends are modelled as sequences of constant text and symbolic pieces (value of a field, number printed from a field, block of n bytes). Each completed header line is classified; a client header may be copied only where the path
     has excluded all names the server sets itself. For SCGI and FastCGI the announced lengths are compared, as linear expressions, with what is appended after them, including the width of the field they are stored in; the record loop must send each byte once. The variable writer
     must be called for each mandatory variable with the field it describes and, for client headers, only with a name produced by the HTTP_ rewriting, which must map every byte to an upper case letter, digit or underscore.''')

prop('C10', 'Access control fails closed',
     'auth.plain, auth.htpasswd and auth.htdigest let a request pass only if it was handled before or if the user named in its Authorization header exists in the configured file and the password matches that user\'s entry completely (the stored text, its crypt hash, or md5(user:realm:password)); any other request is answered with 401, and REMOTE_USER is set only for authenticated users. auth.deny and access.deny refuse every request not handled before with 403. access.check lets a request pass only if the most specific matching entry for the client address is an allow entry: addresses that are not listed are denied in both address families, entries are stored in the table of their family with the configured prefix, and clients of other families are refused. Membership of an IPv6 address in a network compares every bit of the prefix, and a configured IPv6 address is stored as given.',
     ['inputs'], 'every request, credential, user file and client address',
     'Tests try one right and one wrong password; fail-open paths depend on methods, missing or malformed headers and entries, hash failures and prefix lengths.',
     ['src/modules/mod_auth.c', 'src/modules/mod_access.c', 'src/common/utils.c', 'src/common/ip_parsers.rl'],
     [('auth_basic, auth_handle_deny, auth_backend_*', 'src/modules/mod_auth.c'), ('access_check, access_deny, access_check_create', 'src/modules/mod_access.c'), ('li_ipv6_in_ipv6_net', 'src/common/utils.c'), ('li_parse_ipv6', 'src/common/ip_parsers.rl')],
     'path-sensitive abstract interpretation: every path that lets a request pass needs an entitling fact',
     'All paths of every action and credential check of the two modules. The hash functions, the radix tree (longest prefix match) and the grammar of addresses are assumed. ' + TRUST,
     '''Actions are found through their registration. Each return that continues request processing must be covered by one of: request handled before, the credential check (indirect call) succeeded with user and password taken from the decoded header, an error status
     set on a request taken over, or a table look-up that excludes "deny". Each credential check may return success only under a whole-string comparison of the entry found under the user name with the secret belonging to its action. Table construction is a typestate
     (deny-all first; the value of each insertion follows the word just compared). The network test is interpreted once for each of the 129 prefix lengths.
     Limit of the analysis (found with our own refactorings): a digest that is fed from an array in a loop is not recognised as md5(user:realm:password), and would be reported.''')

prop('C11', 'Conditions and actions of the configuration are executed as written',
     'For every request a condition of the configuration has exactly the documented result: ==, =^, =$, =~, =/ and their negations compare the named property of the request with the configured string, prefix, suffix, regular expression or network, a negated operator gives the exact opposite of its positive form (also for clients without an address of that family), and <, <=, >, >= compare as numbers; the left side is taken from the part of the request, response or file system it names (phys.exists, phys.is_file, phys.is_dir, phys.size follow the stat result of the physical path). The interpreter runs the block of a true condition and the else block of a false one, never both; runs the actions of a list in order, each exactly once although actions may suspend the request or push further actions; stops and drops the remaining actions when an action fails; and never uses an element of the action stack after the stack may have been reallocated.',
     ['inputs', 'schedules'], 'every request, configuration tree and order of suspensions',
     'Tests contain a few conditions with one matching and one not matching request; wrong results appear for unusual values (other address family, special files, boundary numbers) or deep stacks.',
     ['src/main/condition.c', 'src/main/actions.c'],
     [('li_condition_check, li_condition_get_value', 'src/main/condition.c'), ('li_action_execute', 'src/main/actions.c')],
     'path-sensitive abstract interpretation: truth table of every operator, provenance of every left side, typestate of the action interpreter',
     'All paths of the condition evaluator for all 14 operators and 6 value types, all 23 left sides except request.scheme, all paths of the interpreter loop. The string, regular expression and network comparison functions themselves are assumed (network membership is decided by C10), so is the translation of the configuration file into the tree. ' + TRUST,
     '''The evaluator is interpreted symbolically; at each return the stored result is evaluated under every outcome of the comparison it performed and compared with the truth table of the operator. Left sides: the field path of the stored value must be the one its name stands for.
     Interpreter: typestate per executed action (result, finished mark, entered block, reset), list positions must advance by one from the element used, pointers into the stack array become stale at every call that can push. This rule found the stale element used after a balancer fallback.''')

prop('C12', 'Files are delivered exactly as announced',
     'Whenever a response body is taken from a file the server opened (static files, byte ranges, FLV seeking, cache hits, files added by Lua scripts): only a file that could be opened is sent, and by the static, flv and cache actions only a regular file; opening never blocks on a FIFO. A 200 response of the static handler carries the whole file exactly once, a 206 response carries exactly the requested satisfiable ranges, each announced by a Content-Range with its first byte, last byte and the length of the file, ranges outside of the file get 416 with the length, an invalid Range header gets the whole file; every range handed out by the parser satisfies 0 <= first <= last < length for any digits in the header, and no part outside the file is ever sent. Files are only sent for GET and HEAD and not for excluded extensions. 304 is sent exactly if no validator of the request (If-None-Match, If-Modified-Since) mismatches and at least one matches the current file; the entity tag covers inode, size and modification time as etag.use says. The status reported for an opened file belongs to that very file, and every opened file is sent or closed exactly once.',
     ['inputs', 'histories'], 'every request header, file type, file size and order of tests',
     'Tests request a few small files and ranges; overflowing numbers, special files, ranges that become invalid after a valid one, errors after opening and validator combinations are not sampled.',
     ['src/main/plugin_core.c', 'src/main/http_range_parser.rl', 'src/main/etag.c', 'src/main/stat_cache.c', 'src/modules/mod_flv.c', 'src/modules/mod_cache_disk_etag.c', 'src/main/chunk_lua.c'],
     [('core_handle_static', 'src/main/plugin_core.c'), ('li_parse_http_range_next', 'src/main/http_range_parser.rl'), ('li_etag_set_header, li_http_response_handle_cachable*', 'src/main/etag.c'), ('li_stat_cache_get', 'src/main/stat_cache.c'), ('flv', 'src/modules/mod_flv.c'), ('cache_etag_handle', 'src/modules/mod_cache_disk_etag.c'), ('_lua_chunkqueue_add_file', 'src/main/chunk_lua.c')],
     'path-sensitive abstract interpretation: descriptor typestate, provenance of offsets, lengths and announced numbers, interval analysis of the range parser',
     'All paths of every function that both opens a file through the stat cache and queues it, of the range parser and of the validators. Assumed: the file does not change between fstat and sending; strptime/mktime and strstr; what later sends the chunk (C05/C08 cover framing). ' + TRUST,
     '''Values read from st_size, the range state and the descriptor are tracked; at each append of a file chunk the offset and length must be provably the whole file, the announced range, or within the file. At each return the status, the queued data and the parser result must agree. The range parser must prove its bounds from its own tests.
     This check found that opening a FIFO below the document root blocked the whole worker, and that Lua add_file used the start offset as length and leaked the file on errors.''')

prop('C13', 'Client text and file names cannot become markup, log entries or script',
     'Text that comes from a request (path, host, query string, header values), from a file name or from a file that is to be shown encoded reaches a generated HTML page (directory listing, server status, connection debugging) only through HTML or URI encoding, and links are built only from URI-encoded names; HTML encoding lets no & < > quote or control character through, URI encoding additionally no % ? # space, backslash or byte above 0x7e, and URL decoding never produces a control character. An access log entry contains request and response text, file names and environment values only in escaped form: printable ASCII without quotes and backslashes, everything else as an escape sequence of known form, so nothing a client sends can forge or split entries. A JSONP callback name is used only if each of its characters is a letter, digit, dot, underscore or dollar sign. A directory listing contains no entry whose status is unknown, and none hidden by hide-dotfiles, hide-tildefiles, hide-directories, exclude-prefix, exclude-suffix, hide-header or hide-readme; HEADER.txt and README.txt are included only if configured.',
     ['inputs'], 'every request, header, file name and combination of options',
     'Tests request a few harmless paths and look at the status; hostile bytes at every place where text is copied are not sampled.',
     ['src/modules/mod_dirlist.c', 'src/modules/mod_status.c', 'src/modules/mod_debug.c', 'src/modules/mod_accesslog.c', 'src/modules/mod_progress.c', 'src/common/encoding.c', 'src/common/utils.c', 'src/main/response.c'],
     [('dirlist, try_append_file', 'src/modules/mod_dirlist.c'), ('status_info_full, status_info_runtime', 'src/modules/mod_status.c'), ('debug_collect_func', 'src/modules/mod_debug.c'), ('al_format_log, al_append_escaped', 'src/modules/mod_accesslog.c'), ('progress_collect_cb', 'src/modules/mod_progress.c'), ('li_string_encode_append', 'src/common/encoding.c'), ('li_url_decode', 'src/common/utils.c')],
     'path-sensitive taint analysis (abstract interpretation) with encoders as sanitizers; the sanitizers are themselves checked byte class by byte class against their tables and branches',
     'All functions of every translation unit that contains HTML markup, of the access log and of mod_progress, all paths. Text given by the administrator (css, content types, log format, server name) and addresses are trusted; the host name counts as harmless in log entries because the request parser restricts it (C01). Lua scripts and templates outside of the C code are not analysed. ' + TRUST,
     '''Sources are the request, header, physical path and directory entry fields; struct fields that tainted text is stored to become sources in the next round until nothing changes. A GString becomes a page when markup is appended. At each append the text must be untainted or come from an encoder. For the encoders the set of byte values that can reach a copying store or append is computed from the branches and constant tables.
     This check found six defects (path in directory listings, host/path/query in status and debug pages, quotes left by HTML encoding, unescaped %f %U %u in the access log, wrong escapes for bytes above 0x7f, and four listing options without effect), all repaired.''')

prop('C14', 'Shared state is used only under its lock and locks are always released',
     'Workers and other threads share backend pools, balancers, the angel connection, fetch caches, limit and throttle tables, password files, the server state queue, the TLS session cache and the log queue. Every access to such shared state is made while the lock that protects it is held. A lock that a function takes is released on every path before the function returns or calls something that takes it again; no lock is released without being held, destroyed while held or used without having been created; locks nest in one global order; the Lua state is released the same way.',
     ['schedules', 'inputs'], 'every interleaving of worker threads, the main thread and the log thread, and every error path while a lock is held',
     'The tests run one request at a time against one worker; races and a lock left held on an error path need concurrency or rare failures.',
     ['src/main/backends.c', 'src/common/angel_connection.c', 'src/common/fetch.c', 'src/main/server.c', 'src/main/log.c', 'src/main/throttle.c', 'src/main/config_lua.c', 'src/modules/mod_balance.c', 'src/modules/mod_limit.c', 'src/modules/mod_throttle.c', 'src/modules/mod_auth.c', 'src/modules/mod_gnutls.c'],
     [('all lock operations', 'g_mutex_lock, g_static_mutex_lock, li_lua_lock and their counterparts'), ('li_backend_get, li_backend_put, li_backend_wait_stop', 'src/main/backends.c'), ('balancer_act_select', 'src/modules/mod_balance.c'), ('mod_limit_action_handle', 'src/modules/mod_limit.c'), ('li_angel_call, angel_connection_io_cb', 'src/common/angel_connection.c')],
     'lockset analysis on a path-sensitive abstract interpreter, modular over lock contexts; lock-order graph',
     'Covers every function that takes a lock or touches a field in the guard table (which field needs which lock); fields that are not in the table, lock-free atomics and state confined to one thread by design are not judged. Locks are identified by struct field, not by object. ' + TRUST,
     '''A table states for each shared field its lock and whether reads, writes or the referenced object need it. Every function that operates on a lock or touches such a field is interpreted from its entry points with lock-operating helpers inlined; larger helpers are analysed once for each set of locks they are called with. Each access needs the lock in the lockset (or on the path that creates or destroys the lock, or an object allocated on the path). Returns are checked for locks left held or released too often, calls for re-acquisition, nesting edges for cycles, constructors for locks not created.
     This check found five defects, all repaired: a Lua lock left held after a script failed to load, a crash after a failing script, a NULL mutex in limit.req, a use-after-free race when a request stops waiting for a backend, and an unlocked deregistration of angel calls.''')

prop('C15', 'Every file descriptor has one owner, which closes it exactly once',
     'Sockets, pipes, files and directories that the server, the angel and the modules open are never leaked, closed twice or used after closing. On every path, including every error path, a descriptor that a function obtains is closed, stored in the object that owns it, returned or handed on before the function ends. A descriptor is not closed again or used after it was closed or handed on, a closed descriptor number is not left in the object that owned it, and an object that owns a descriptor is not freed before the descriptor is closed or handed on. A socket is non-blocking before it is watched by an event loop or given to a stream.',
     ['inputs', 'crash_points', 'histories'], 'every request, configuration, and failure of any system call between obtaining and closing a descriptor',
     'Leaks show up only after thousands of requests and on error paths (fork fails, connect times out, file disappears) that tests never reach; closing a number twice destroys some other connection.',
     ['src/main/backends.c', 'src/main/plugin_core.c', 'src/main/chunk.c', 'src/main/log.c', 'src/main/server.c', 'src/main/stream_simple_socket.c', 'src/main/stat_cache.c', 'src/common/memcached.c', 'src/common/angel_connection.c', 'src/angel/angel_proc.c', 'src/angel/angel_server.c', 'src/angel/angel_plugin_core.c', 'src/modules/mod_cache_disk_etag.c', 'src/modules/mod_openssl.c'],
     [('every call of open, socket, accept, pipe, socketpair, mkstemp, opendir, li_receive_fd, li_stat_cache_get and every close', 'all of src/'), ('li_iostream_reset', 'src/main/stream.c'), ('li_event_clear, li_event_io_set_fd', 'src/common/events.c')],
     'ownership typestate per descriptor on a path-sensitive abstract interpreter, with summaries of which functions take over or return a descriptor',
     'Every function that obtains, closes, stores or watches a descriptor, all paths with helpers of the same file inlined; descriptors passed between files by summaries. Descriptors kept in GArrays by the angel protocol, and in the libraries, are not followed once stored. The listening sockets are closed by li_server_free only. ' + TRUST,
     '''A descriptor is created by the source calls (only where they succeed), moves to an owner by a store to a field, or to a callee whose summary says it takes descriptors over on every path ("agree"), and ends with close. Owners are a table of struct fields and event watchers; overwriting or freeing an owner whose descriptor is not known to be -1, closed or handed on is reported. Summaries and functions that return descriptors are computed to a fixpoint.
     A stream borrows the descriptor of a backend connection while it is in use; li_memcached_con_release is not the last release where the connection is in hand (memcached_io_cb checks this); a request that waited for the stat cache has not opened its cache file.
     This check found two leaks, both repaired: the socket of a backend connect that timed out, and both ends of the socket pair when the angel cannot fork a worker.''')

prop('C16', 'Chunk queues neither lose, duplicate, reorder nor miscount data',
     'Every byte that is put into a chunk queue comes out of it exactly once and in order, however it is cut up on the way. The length, the counts of bytes that went in and out, and the memory usage (and with it the limit that stops reading) of a queue always agree with the chunks that are in it, after every operation and on every path. What is written to a socket or file, encrypted, compressed or copied from a queue is exactly the data at its front, no more than what is there; exactly what was handed on is then removed, also after partial writes, interruptions and fallbacks, and the number of bytes that may still be written is reduced by it.',
     ['inputs', 'schedules', 'histories'], 'every sequence of queue operations, mix of chunk types and offsets, and every possible result (partial, zero, interrupted, failed) of each write',
     'Tests write small responses whose writes all succeed at once; the arithmetic only matters for partial writes, chunks that are cut in the middle, and mixtures of chunk types.',
     ['src/main/chunk.c', 'src/main/network_write.c', 'src/main/network_writev.c', 'src/main/network_sendfile.c', 'src/main/filter_buffer_on_disk.c', 'src/modules/mod_deflate.c', 'src/modules/openssl_filter.c', 'src/modules/gnutls_filter.c', 'src/modules/mod_memcached.c', 'src/modules/mod_cache_disk_etag.c'],
     [('li_chunkqueue_append_*, li_chunkqueue_steal_*, li_chunkqueue_skip*, li_chunkqueue_reset', 'src/main/chunk.c'), ('li_network_backend_write, li_network_backend_writev, network_backend_sendfile', 'src/main/network_*.c'), ('bod_handle_data', 'src/main/filter_buffer_on_disk.c'), ('deflate_filter_*, do_ssl_write, do_gnutls_write, stream_bio_read, stream_pull, cache_etag_filter_miss, memcache_store_filter', 'src/modules')],
     'symbolic balance (affine relations between the fields of a queue, what is linked into it, and what was handed on) on a path-sensitive abstract interpreter with loop-head joins that keep the relation',
     'Every function that changes the list, length, counters or memory usage of a queue, and every function that hands on data of a queue and removes it; helpers of the same file inlined, all results of each write. Where the states of many paths are merged the balance of the send rule can become undetermined (listed as a note in the evidence, now one construct: the length of an iovec entry). li_chunkiter_read is taken to return the data at the start of the queue; what the libraries do with the data is trusted. ' + TRUST,
     '''"account": for each queue the differences between its fields and the contents (length, bytes in and out, memory) are kept as affine expressions over field values; each link, unlink, store to a field and offset change adjusts them, and at every return each must be zero. A chunk that is cut must stand for exactly the part that was cut off (same memory, file position or buffer offset and length), data goes in at the tail and out at the head only.
     "send": the difference between what was handed on and what was removed; a write result r adds max(r, 0), skip and steal subtract; the next write must start at the front plus that difference, must not exceed what was read, and the difference must be zero when more is read and at the end (unless the stream is aborted there).
     "length", "read": for each chunk type li_chunk_length is the length of its data minus the offset, and li_chunkiter_read yields the memory (or reads the file position) of the chunk at offset + start, and reports at most what there is and exactly what was read. "limit": after every update, reading is stopped if and only if a positive limit is reached, and the watcher and the owner are told each change. "receive": what a read call puts behind the used part of a buffer is appended to the queue exactly once, from where it was put and with the length the call returned.
     This check found four defects, all repaired: the disk buffer filter forwarded data twice after a partial write, li_chunkqueue_steal_chunk did not move the memory usage between queues with the same limit, li_chunkqueue_extract_to_memory took a GByteArray in its error path for what is plain memory, and sendfile took the 0 of its fallback to write for the end of the file (and looked at the socket instead of the file to see whether it shrank).
     Limit of the analysis (found with our own refactorings): if the peek for the next chunk is written twice, once before the loop and once at the end of its body, the relation between the chunk and the queue is not recovered, and the account rule would report it.''')

prop('C17', 'Load counters and limits count exactly what is there',
     'Every limit admits exactly as many as it says, and every counter of what is running counts exactly what is there: on every path, also when something fails halfway, what was counted is taken back once, and nothing is taken back that was not counted. For limit.con, limit.con_ip, limit.req and limit.req_ip: a request or connection is let in if and only if fewer than the limit are in, is counted once when it is, leaves no trace when it is not, and when it ends exactly what it was counted in is decreased (and an address that no longer has anything is forgotten). For connections: one is accepted only while the server is below its maximum, it is counted once for the server and its worker, and when it ends it is taken off both and off the list of active connections, in which every other connection stays and knows its place. For backends: the total of a pool is the number of its reserved, active, idle and pending connections, each the sum over the workers, and pending is what is in the connect queue. For the balancer: the load of a backend is the number of requests that selected it, and a request that is gone is not in the backlog.',
     ['inputs', 'schedules', 'histories'], 'every order of arriving, waiting, failing and ending requests, connections and backend connections, and every result of the operations in between',
     'Tests run few requests at once and never reach a limit; a counter that drifts by one per failed connect shows after hours, as a server that refuses to serve.',
     ['src/modules/mod_limit.c', 'src/modules/mod_balance.c', 'src/main/backends.c', 'src/main/server.c', 'src/main/worker.c'],
     [('mod_limit_action_handle, mod_limit_timeout_callback, mod_limit_vrclose', 'src/modules/mod_limit.c'), ('balancer_act_select, balancer_act_finished, balancer_context_free, _balancer_context_select_backend, _balancer_context_backlog_push', 'src/modules/mod_balance.c'), ('li_backend_get, li_backend_put, S_backend_pool_*', 'src/main/backends.c'), ('li_server_listen_cb', 'src/main/server.c'), ('worker_con_get, li_worker_con_put', 'src/main/worker.c')],
     'ledgers: sums of what each path adds to and takes off the counters, related to the objects whose state changes, on a path-sensitive abstract interpreter',
     'Every function that changes one of the counters (found by the field it writes, also atomically), with the helpers of its file inlined; a helper that does not balance alone is judged in the functions that call it, if it is only called directly. Two entries of the list of connections are taken to be different connections. Not covered: whether the total of a backend pool stays below max-connections over time, the rates of throttling, reference counts outside these counters. ' + TRUST,
     '''"pools": on each path the changes of total, reserved, active, idle and pending of a pool must satisfy total = sum of kinds, each kind of the pool must change with that of a worker, and pending with the connect queue. Functions whose sums are not zero are accepted only if all their callers (into which they are inlined) balance.
"balance": a request whose context gives up a backend takes one off its load, one that takes a backend adds one; links into and out of the backlog are followed, and a context that is freed must not be linked.
"limits": for each of the four kinds the comparison with the limit is evaluated on both sides (in iff count < limit, whether the count is looked at before or after it was raised, and for atomic and locked counters); whoever is let in must be counted once and remembered for the end; whoever is not must leave the counter as it was; at the end each kind takes back one. For the counters per address an entry that falls to zero must be removed from the tree, and one that does not must be kept.
"accept", "active": the accept path must be below the limit and raise both counters once before the connection goes to its worker; an ending connection lowers each once, its slot is filled by the last one, whose index is updated.
This check found one defect, repaired: limit.con N let in N+1 concurrent connections.''')

na('N01', 'li_path_simplify removes every dot segment and never lengthens the path',
   'For every input string the result of path simplification starts with "/", contains no ".", ".." or empty segment and denotes the same path as RFC 3986 dot-segment removal clamped at the root.',
   ['inputs'], 'every path string', 'Unit tests sample a few strings.', ['src/common/utils.c'], [('li_path_simplify', 'src/common/utils.c')],
   'The result is computed by an in-place string rewriting loop whose correctness depends on an inductive invariant over the unbounded output prefix; no static argument in reach of an interval/typestate analysis bounds it.')
