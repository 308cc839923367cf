"""Targets (harness executables) and jobs (what each property runs)."""
POOL = ['-Wl,--wrap=coap_mem_%s_%s' % (p, o) for p in ('small', 'medium', 'large') for o in ('alloc', 'free')]
SAN = ['-g', '-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize=nonnull-attribute', '-fno-sanitize-recover=all', '-w']
TSAN = ['-g', '-O1', '-fno-omit-frame-pointer', '-fsanitize=thread', '-w']
LIB = ['-IREPO/lib/include']

SIMW = ['-Wl,--wrap=' + x for x in ('socket setsockopt getsockopt getsockname getpeername shutdown write bind connect fcntl close sendto send recvfrom recv read select pselect poll timerfd_create '
        'timerfd_settime timerfd_gettime time clock_gettime gettimeofday rand srand random').split()]
SIM = ['sim.c', 'simlog.c', 'vc.c', 'refcoap.c', 'vmem.c', 'REPO/lib/src/coap_msg.c', 'REPO/lib/src/coap_mem.c']

HEAPW = ['-Wl,--wrap=' + x for x in 'malloc calloc realloc free strdup strndup'.split()]
PXF = SAN + LIB + ['-IREPO/proxy/common/include', '-IREPO/proxy/http_coap/include', '-D_GNU_SOURCE', '-fno-builtin-strdup', '-fno-builtin-strndup']
PX = 'REPO/proxy/common/src/'

TARGETS = {
    'h_msg': {'src': ['h_msg.c', 'vc.c', 'refcoap.c', 'vmem.c', 'REPO/lib/src/coap_msg.c', 'REPO/lib/src/coap_mem.c'],
              'flags': SAN + LIB, 'ld': POOL},
    'h_mem': {'src': ['h_mem.c', 'vc.c', 'REPO/lib/src/coap_mem.c'], 'flags': SAN + LIB, 'ld': ['-lpthread']},
    'h_thr_t': {'src': ['h_thr.c', 'vc.c', 'REPO/lib/src/coap_msg.c', 'REPO/lib/src/coap_mem.c'], 'flags': TSAN + LIB, 'ld': ['-lpthread']},
    'h_thr_a': {'src': ['h_thr.c', 'vc.c', 'REPO/lib/src/coap_msg.c', 'REPO/lib/src/coap_mem.c'], 'flags': SAN + LIB, 'ld': ['-lpthread']},
    'h_srv': {'src': ['h_srv.c', 'REPO/lib/src/coap_server.c'] + SIM, 'flags': SAN + LIB + ['-U_FORTIFY_SOURCE'], 'ld': POOL + SIMW + ['-lpthread']},
    'h_srv6': {'src': ['h_srv.c', 'REPO/lib/src/coap_server.c'] + SIM, 'flags': SAN + LIB + ['-U_FORTIFY_SOURCE', '-DCOAP_IP6'], 'ld': POOL + SIMW + ['-lpthread']},
    'h_cli': {'src': ['h_cli.c', 'REPO/lib/src/coap_client.c'] + SIM, 'flags': SAN + LIB + ['-U_FORTIFY_SOURCE'], 'ld': POOL + SIMW + ['-lpthread']},
    'h_cli6': {'src': ['h_cli.c', 'REPO/lib/src/coap_client.c'] + SIM, 'flags': SAN + LIB + ['-U_FORTIFY_SOURCE', '-DCOAP_IP6'], 'ld': POOL + SIMW + ['-lpthread']},
    'h_e2e': {'src': ['h_e2e.c', 'REPO/lib/src/coap_client.c', 'REPO/lib/src/coap_server.c'] + SIM, 'flags': SAN + LIB + ['-U_FORTIFY_SOURCE'], 'ld': POOL + SIMW + ['-lpthread']},
    'h_e2e6': {'src': ['h_e2e.c', 'REPO/lib/src/coap_client.c', 'REPO/lib/src/coap_server.c'] + SIM, 'flags': SAN + LIB + ['-U_FORTIFY_SOURCE', '-DCOAP_IP6'], 'ld': POOL + SIMW + ['-lpthread']},
}
TARGETS.update({
    'h_cfg': {'src': ['h_cfg.c', 'vc.c', 'vheap.c', 'simlog.c', PX + 'config.c', PX + 'data_buf.c', PX + 'util.c', 'REPO/proxy/http_coap/src/param.c'], 'flags': PXF, 'ld': HEAPW + ['-lpthread']},
    'h_uri': {'src': ['h_uri.c', 'vc.c', 'vheap.c', PX + 'uri.c'], 'flags': PXF, 'ld': HEAPW + ['-lpthread']},
    'h_http': {'src': ['h_http.c', 'vc.c', 'vheap.c', PX + 'http_msg.c', PX + 'util.c'], 'flags': PXF, 'ld': HEAPW + ['-lpthread']},
    'h_cross': {'src': ['h_cross.c', 'vc.c', 'vheap.c', 'vmem.c', PX + 'cross.c', PX + 'uri.c', PX + 'http_msg.c', PX + 'util.c', 'REPO/lib/src/coap_msg.c', 'REPO/lib/src/coap_mem.c'],
                'flags': PXF, 'ld': HEAPW + POOL + ['-lpthread']},
})

SMP = 'REPO/sample/'
_smp = lambda *d: {'src': ['h_samp.c', 'vc.c', 'vheap.c', 'vmem.c', 'simlog.c', 'REPO/lib/src/coap_msg.c', 'REPO/lib/src/coap_mem.c'] + [SMP + x for x in (
        'reg_server/reg_server.c', 'reg_server/registrar.c', 'time_server/time_server.c', 'transfer_server/transfer_server.c',
        'reg_client/reg_client.c', 'time_client/time_client.c', 'transfer_client/transfer_client.c')],
    'flags': SAN + LIB + ['-U_FORTIFY_SOURCE', '-D_GNU_SOURCE'] + ['-I' + SMP + x for x in ('reg_server', 'time_server', 'transfer_server', 'reg_client', 'time_client', 'transfer_client')] + list(d),
    'ld': HEAPW + POOL + ['-Wl,--wrap=time', '-Wl,--wrap=fopen', '-lpthread']}
TARGETS.update({'h_samp': _smp(), 'h_samp6': _smp('-DCOAP_IP6')})

GNUTLSW = ['-Wl,--wrap=' + x for x in (
        'gnutls_bye gnutls_certificate_get_peers gnutls_certificate_server_set_request gnutls_certificate_type_get '
        'gnutls_certificate_verify_peers2 gnutls_credentials_set gnutls_db_set_ptr gnutls_db_set_remove_function '
        'gnutls_db_set_retrieve_function gnutls_db_set_store_function gnutls_deinit gnutls_handshake gnutls_init gnutls_priority_set '
        'gnutls_record_check_pending gnutls_record_recv gnutls_record_send gnutls_transport_set_int2 gnutls_transport_set_ptr '
        'gnutls_x509_crt_deinit gnutls_x509_crt_get_activation_time gnutls_x509_crt_get_expiration_time gnutls_x509_crt_import '
        'gnutls_x509_crt_init ').split()]
SIMW2 = ['-Wl,--wrap=' + x for x in 'listen accept sleep usleep nanosleep pthread_create pthread_sigmask getaddrinfo'.split()]
RAW = ['-include', 'real.h']
DTLS = ['-DTLS_CLIENT_AUTH', '-DCOAP_PROXY', '-DCOAP_DTLS_EN', '-DCONNECTION_STATS']
HC = 'REPO/proxy/http_coap/src/'
TARGETS['h_conn'] = {
    'src': [('h_conn.c', RAW + DTLS), ('sim.c', RAW), 'origin.c', 'simlog.c', 'vc.c', 'refcoap.c', 'vmem.c', 'vheap.c']
           + [(HC + f, DTLS) for f in ('connection.c', 'listener.c')] + [HC + 'param.c'] + [(PX + f, DTLS) for f in ('tls_sock.c', 'tls.c', 'sock.c')]
           + [PX + f for f in ('config.c', 'data_buf.c', 'util.c', 'uri.c', 'http_msg.c', 'cross.c', 'thread.c')]
           + ['REPO/lib/src/' + f for f in ('coap_msg.c', 'coap_mem.c', 'coap_server.c')] + [('REPO/lib/src/coap_client.c', ['-Dcoap_client_create=plain_client_create'])],
    'flags': PXF + ['-U_FORTIFY_SOURCE'], 'ld': POOL + HEAPW + SIMW + SIMW2 + GNUTLSW + ['-lgnutls', '-lpthread']}

# the CoAP library with DTLS, real GnuTLS over the simulated network
SEC = ['-DCOAP_DTLS_EN', '-DCOAP_CLIENT_AUTH']
TARGETS.update({n: {'src': ['h_e2e.c', 'dtls.c', 'pki.c', 'REPO/lib/src/coap_client.c', 'REPO/lib/src/coap_server.c'] + SIM,
                    'flags': SAN + LIB + ['-U_FORTIFY_SOURCE', '-D_GNU_SOURCE'] + SEC + f,
                    'ld': POOL + SIMW + ['-Wl,--wrap=gnutls_dh_params_generate2', '-Wl,--wrap=gnutls_record_send', '-lgnutls', '-lpthread']}
                for n, f in (('h_e2es', []), ('h_e2es6', ['-DCOAP_IP6']))})

TARGETS.update({n: {'src': ['h_auth.c', 'dtls.c', 'pki.c', 'REPO/lib/src/coap_client.c', 'REPO/lib/src/coap_server.c'] + SIM,
                    'flags': SAN + LIB + ['-U_FORTIFY_SOURCE', '-D_GNU_SOURCE', '-DCOAP_DTLS_EN'] + f,
                    'ld': TARGETS['h_e2es']['ld']}
                for n, f in (('h_auth', ['-DCOAP_CLIENT_AUTH']), ('h_auth6', ['-DCOAP_CLIENT_AUTH', '-DCOAP_IP6']), ('h_authn', []))})

TLSW = ['-Wl,--wrap=' + x for x in 'gnutls_dh_params_generate2 gnutls_record_send gnutls_transport_set_ptr gnutls_transport_set_int2 gnutls_priority_init listen accept sleep usleep nanosleep'.split()]
TLSS = [PX + f for f in ('tls_sock.c', 'tls.c', 'sock.c', 'util.c')]
TLSF = LIB + ['-IREPO/proxy/common/include', '-U_FORTIFY_SOURCE', '-D_GNU_SOURCE']
TARGETS.update({n: {'src': ['h_tls.c', 'dtls.c', 'pki.c', 'sim.c', 'simlog.c', 'vc.c'] + TLSS, 'flags': SAN + TLSF + f, 'ld': SIMW + TLSW + ['-lgnutls', '-lpthread']}
                for n, f in (('h_tls', ['-DTLS_CLIENT_AUTH']), ('h_tls6', ['-DTLS_CLIENT_AUTH', '-DSOCK_IP6', '-DCOAP_IP6']), ('h_tlsn', []))})
TARGETS.update({n: {'src': ['h_tlsc.c', 'pki.c', 'vc.c', PX + 'tls.c', PX + 'util.c'], 'flags': f + TLSF + ['-DTLS_CLIENT_AUTH'], 'ld': ['-Wl,--wrap=gnutls_dh_params_generate2', '-lgnutls', '-lpthread']}
                for n, f in (('h_tlsc_t', TSAN), ('h_tlsc_a', SAN))})
# the whole proxy program with its real threads; the CoAP side is plain, see h_race.c
TARGETS['h_race'] = {
    'src': [('h_race.c', DTLS), 'vc.c', 'refcoap.c', 'pki.c', (HC + 'proxy.c', DTLS + ['-Dmain=proxy_main'])] + [(HC + f, DTLS) for f in ('connection.c', 'listener.c', 'param.c')]
           + [(PX + f, DTLS) for f in ('tls_sock.c', 'tls.c', 'sock.c', 'config.c', 'data_buf.c', 'util.c', 'uri.c', 'http_msg.c', 'cross.c', 'thread.c')]
           + ['REPO/lib/src/coap_msg.c', 'REPO/lib/src/coap_mem.c', ('REPO/lib/src/coap_client.c', ['-Dcoap_client_create=plain_client_create']),
              ('REPO/lib/src/coap_log.c', ['-O0', '-Dprintf=noprintf', '-Dvprintf=novprintf'])],
    'flags': TSAN + LIB + ['-IREPO/proxy/common/include', '-IREPO/proxy/http_coap/include', '-D_GNU_SOURCE', '-U_FORTIFY_SOURCE'],
    'ld': ['-Wl,--wrap=gnutls_dh_params_generate2', '-Wl,--wrap=gnutls_record_recv', '-lgnutls', '-lpthread']}

TARGETS['h_main'] = {
    'src': ['h_main.c', 'vc.c', 'pki.c', (HC + 'proxy.c', DTLS + ['-Dmain=proxy_main'])] + [(HC + f, DTLS) for f in ('connection.c', 'listener.c', 'param.c')]
           + [(PX + f, DTLS) for f in ('tls_sock.c', 'tls.c', 'sock.c', 'config.c', 'data_buf.c', 'util.c', 'uri.c', 'http_msg.c', 'cross.c', 'thread.c')]
           + ['REPO/lib/src/coap_msg.c', 'REPO/lib/src/coap_mem.c', ('REPO/lib/src/coap_client.c', DTLS), 'REPO/lib/src/coap_log.c'],
    'flags': SAN + LIB + ['-IREPO/proxy/common/include', '-IREPO/proxy/http_coap/include', '-D_GNU_SOURCE', '-U_FORTIFY_SOURCE'],
    'ld': ['-Wl,--wrap=' + x for x in 'gnutls_dh_params_generate2 sleep pause sigsuspend'.split()] + ['-lgnutls', '-lpthread']}


def job(target, mode, quick, thorough, **kw):
    d = {'target': target, 'mode': mode, 'quick': quick, 'thorough': thorough}
    d.update(kw)
    return d



def srv(mode, quick, thorough, h='h_srv', **kw):
    '''most cases over IPv4 addresses, some over IPv6'''
    six = dict(kw)
    six['need'] = {k: v // 10 for k, v in kw.get('need', {}).items()}
    return [job(h, mode, quick, thorough, **kw), job(h + '6', mode, quick // 6, thorough // 6, **six)]


JOBS = {
    'P01': [job('h_msg', 'parse', 400000, 6000000, need={'decoded': 1000, 'refused': 1000}),
            job('h_msg', 'parse_exh', 65536, 65536, need={'systematic': 65536}),
            job('h_msg', 'hdr', 256, 256)],
    'P02': [job('h_msg', 'format', 400000, 8000000, need={'encoded': 1000, 'too_small': 1000, 'illegal': 1000})],
    'P03': [job('h_msg', 'build', 400000, 8000000, need={'copies': 1000, 'uri_path': 1000})],
    'P04': [job('h_msg', 'block', 4096, 4096, need={'block3': 1 << 24}),
            job('h_msg', 'opclass', 256, 256, need={'block_lookup': 1000})],
    'P05': [job('h_mem', 'inst', 6000, 200000, need={'exhaustions': 1000, 'foreign_frees': 1000}),
            job('h_mem', 'glob', 12000, 400000, need={'exhaustions': 1000, 'foreign_frees': 1000, 'failed_creates': 1000})],
    'P06': [job('h_thr_t', 'threads', 400, 6000, par=2, shards=4, need={'thread_switches': 1000, 'out_of_memory': 100}),
            job('h_thr_a', 'threads', 400, 6000, par=2, shards=4, need={'thread_switches': 1000, 'out_of_memory': 100})],
    'P07': [job('h_msg', 'oom', 12000, 100000), job('h_srv', 'oom', 20000, 150000, need={'allocation_failures': 1000, 'strict_liveness_probes': 1000}),
            job('h_cli', 'oom', 12000, 200000, need={'allocation_failures': 1000, 'succeeded': 1000})],
    'P08': srv('dedup', 24000, 200000, need={'duplicates': 10000, 'new_requests': 10000}) + srv('hostile', 4500, 40000),
    'P09': srv('corr', 24000, 200000, need={'new_requests': 20000, 'retransmissions': 1000}) + srv('isolate', 4500, 40000),
    'P10': srv('retrans', 30000, 300000, need={'retransmissions': 10000, 'give_ups': 500, 'acks_resets': 1000}),
    'P11': srv('hostile', 12000, 100000, need={'malformed_or_misplaced': 1000, 'strict_liveness_probes': 1000})
           + srv('faults', 15000, 150000, need={'send_faults': 1000, 'call_faults': 1000, 'strict_liveness_probes': 1000}),
    'P12': srv('reject', 24000, 200000, need={'malformed_or_misplaced': 10000, 'critical_options': 1000}) + srv('hostile', 3000, 40000),
    'P13': srv('isolate', 12000, 100000, need={'duplicates': 1000, 'retransmissions': 1000}) + srv('lru', 12000, 100000, need={'definite_evictions': 1000, 'duplicates': 1000}),
    'P14': srv('block', 18000, 150000, need={'blocks_downloaded': 10000, 'uploads_completed': 1000, 'block_errors': 1000}),
    'P15': srv('corr', 30000, 900000, h='h_cli', need={'succeeded': 10000, 'decoys': 10000}) + srv('reply', 6000, 100000, h='h_cli'),
    'P16': srv('time', 30000, 900000, h='h_cli', need={'retransmissions': 10000, 'timed_out': 1000, 'succeeded': 1000}) + srv('faults', 6000, 100000, h='h_cli', need={'faults': 1000}),
    'P17': srv('reply', 30000, 900000, h='h_cli', need={'acks_sent': 1000, 'resets_sent': 1000, 'reset': 500}),
    'P18': srv('block', 16000, 400000, h='h_cli', need={'blocks': 10000, 'uploads': 1000, 'deviations': 1000, 'size_reductions': 1000}) + srv('faults', 3000, 50000, h='h_cli'),
    'P19': srv('lossy', 4000, 100000, h='h_e2e', need={'succeeded': 1000, 'failed': 500, 'lost': 10000, 'duplicated': 1000})
           + srv('bounded', 4000, 100000, h='h_e2e', need={'succeeded': 10000, 'lost': 10000}) + srv('dup', 1500, 20000, h='h_e2e', need={'duplicated': 1000}),
    'P20': srv('auth', 8000, 120000, h='h_auth', need={'accepted': 1000, 'bad_clients': 500, 'bad_servers': 1000, 'raw_clients': 1000})
           + [job('h_authn', 'auth', 1600, 20000, need={'accepted': 500, 'bad_servers': 500, 'raw_clients': 100})],
    'P21': srv('bounded', 600, 12000, h='h_e2es', need={'succeeded': 1000, 'lost': 1000, 'connected': 500, 'hostile': 1000})
           + srv('lossy', 2400, 60000, h='h_e2es', need={'succeeded': 1000, 'failed': 500, 'connected': 500, 'hostile': 1000}) + srv('dup', 400, 4000, h='h_e2es', need={'duplicated': 500}),
    'P30': srv('tls', 1500, 40000, h='h_tls', need={'opened': 500, 'bytes_read': 1000000, 'bad_servers': 500, 'bad_clients': 500, 'resumed': 100, 'timeouts': 100})
           + [job('h_tlsn', 'tls', 200, 4000, need={'opened': 50}), job('h_tlsc_t', 'cache', 400, 10000, par=2, shards=4, need={'found': 1000}), job('h_tlsc_a', 'seq', 4000, 100000, need={'found': 10000, 'refused': 100}), job('h_tlsc_a', 'cache', 400, 10000, par=2, shards=4, need={'found': 1000})],
    'P22': [job('h_http', 'pieces', 600000, 6000000, need={'complete': 10000, 'prefixes': 100000}), job('h_http', 'hostile', 800000, 8000000, need={'complete': 10000, 'malformed': 10000}),
            job('h_http', 'oom', 60000, 600000, need={'allocation_failures': 10000})],
    'P23': [job('h_http', 'gen', 1000000, 10000000, need={'truncated': 10000, 'parsed_back': 10000, 'chunks': 1000}), job('h_http', 'genoom', 100000, 1000000, need={'allocation_failures': 1000})],
    'P24': [job('h_uri', 'parse', 1600000, 16000000, need={'parsed_back': 10000, 'malformed': 1000}), job('h_uri', 'set', 600000, 6000000, need={'parsed_back': 10000}),
            job('h_uri', 'oom', 120000, 1200000, need={'allocation_failures': 10000})],
    'P25': [job('h_cfg', 'parse', 1200000, 12000000, need={'lexical_errors': 10000, 'syntax_errors': 10000, 'well_formed': 10000}),
            job('h_cfg', 'oom', 60000, 600000, need={'allocation_failures': 10000}), job('h_cfg', 'file', 80000, 600000, need={'good_files': 1000, 'bad_files': 1000})],
    'P26': [job('h_cross', 'req', 500000, 5000000, need={'translated': 10000, 'refused': 10000, 'large_bodies': 1000}), job('h_cross', 'req_oom', 40000, 400000, need={'allocation_failures': 10000}),
            job('h_cross', 'resp', 500000, 5000000, need={'translated': 10000, 'refused': 1000, 'blockwise_bodies': 1000}),
            job('h_cross', 'resp_oom', 40000, 400000, need={'allocation_failures': 10000}), job('h_cross', 'uri', 100000, 1500000, need={'uris': 10000, 'too_small': 1000}),
            job('h_cross', 'text', 8, 8)],
    'P27': [job('h_cfg', 'dbuf', 1000000, 10000000, need={'filled': 10000, 'failed_expansions': 1000, 'expansions': 1000})],
    'P28': [job('h_conn', 'serve', 6000, 80000, need={'responses': 10000, 'pieces': 100000, 'lost': 10000}),
            job('h_race', 'race', 480, 12000, retry=True, need={'responses': 4000, 'resumed': 100})],
    'P29': [job('h_conn', 'hostile', 10000, 120000, need={'responses': 10000, 'error_responses': 1000, 'injected_faults': 300}),
            job('h_conn', 'oom', 5000, 60000, need={'injected_faults': 1000, 'responses': 5000})],
    'P32': [job('h_main', 'main', 720, 12000, retry=True, need={'started': 50, 'bad_configurations': 50, 'command_lines': 50, 'signals_before_sleep': 5})],
    'P31': [job('h_samp', 'reg', 60000, 600000, need={'created': 10000, 'changed': 10000, 'failures_injected': 1000, 'error_answers': 10000}),
            job('h_samp', 'list', 60000, 600000, need={'additions': 10000, 'removals': 10000}),
            job('h_samp', 'time', 80000, 800000, need={'times': 10000, 'failures_injected': 1000}),
            job('h_samp', 'store', 80000, 800000, need={'saves': 10000, 'failed_saves': 1000}),
            job('h_samp', 'clients', 160000, 1600000, need={'good_answers': 10000, 'bad_answers': 10000, 'transfers': 10000, 'failures_injected': 1000}),
            job('h_samp6', 'reg', 10000, 120000), job('h_samp6', 'list', 10000, 120000)],
}
LEVEL = {}
ASSUME = {'*': ['the executions explored are those the generators and seeds produce; the monitors see only what they exercise']}
_AS = 'ASan/UBSan'
TECH = {
    'P01': _AS + ' with exactly sized buffers; online differential monitor against an independent RFC 7252 codec; random, mutated and systematic inputs',
    'P02': _AS + ' with exactly sized buffers; encodings compared with an independent RFC 7252 codec for every buffer length',
    'P03': _AS + '; online checker of operation histories against a list model',
    'P04': 'online checker against an independent RFC 7959 reading, run over all block values and option numbers',
    'P05': _AS + '; online checker of allocation histories against a set model, stamped buffers',
    'P06': 'ThreadSanitizer and AddressSanitizer on real threads; per-thread content stamps and conservation checks',
    'P07': _AS + ' under systematic allocation-failure injection; conservation monitor on the pools',
    'P19': _AS + '; simulated lossy network in virtual time; offline exactly-once checker over application and client logs',
    'P20': _AS + ' with real GnuTLS in virtual time; verdicts computed from how the certificates were made',
    'P21': _AS + ' with real GnuTLS over a simulated hostile network; offline exactly-once checker over application and client logs',
    'P25': _AS + '; differential monitor against an independent lexer, parser and parameter table; heap-failure injection',
    'P26': _AS + '; translated messages compared with reference tables; heap- and pool-failure injection',
    'P27': _AS + '; online checker of operation histories against a byte queue',
    'P28': _AS + ' on a seeded thread schedule in virtual time with response/origin log checker; ThreadSanitizer on the real threaded program',
    'P29': _AS + '/heap, pool, descriptor and session conservation monitors under hostile clients, failing origins, system calls and allocations',
    'P32': _AS + ' and leak check on the real program run as a process; monitor of exit status, listening socket and signal response',
    'P31': _AS + '; online checkers of request, answer and file histories against models; heap-, pool- and file-failure injection',
    'P30': _AS + ' with real GnuTLS over simulated TCP, certificate and byte-stream oracles; ThreadSanitizer on the session caches',
}
TECH.update({p: _AS + ' with exactly sized buffers; differential monitor against an independent reading of the syntax; heap-failure injection' for p in ('P22', 'P23', 'P24')})
TECH.update({'P%02d' % n: _AS + '; trace monitor (reference server model) over every datagram, timer and application call, on simulated sockets in virtual time' for n in range(8, 15)})
TECH.update({'P%02d' % n: _AS + '; trace monitor (reference client model) over every datagram, timer and result, on simulated sockets in virtual time' for n in range(15, 19)})
NOTE = {'*': 'every generated execution is judged; executions outside the generators (see DESIGN.md) are not; the oracle and the simulated system calls are trusted',
        'P04': 'all block values of up to 3 bytes and all option numbers are judged; encoder arguments are sampled',
        'P06': 'races between the accesses executed are reported whatever the actual interleaving (happens-before); other schedules are sampled',
        'P07': 'every allocation of each generated message workload is made to fail in turn; failures in client and server runs are sampled'}
for _p in ('P20', 'P21', 'P30'):
    NOTE[_p] = NOTE['*'] + '; GnuTLS itself is trusted'
NA = {}
HOOKS = None
