"""The units (programs) each property's check builds and runs."""
LEVEL = {}
ASSUME = {}
NEED = {}
_UNITS = {}

def unit(prop, name, src, quick, thorough, **kw):
    u = dict(name=name, src=src, quick=quick, thorough=thorough, **kw)
    _UNITS.setdefault(prop, []).append(u)

def units_for(prop, tier):
    r = []
    for u in _UNITS.get(prop, []):
        if tier != 'thorough' and u.get('thorough_only'): continue
        v = dict(u); v['cases'] = u['thorough'] if tier == 'thorough' else u['quick']
        if tier == 'thorough': v['shards'] = u.get('tshards', u.get('shards', 1))
        r.append(v)
    return r

# ---- C01 C02 C03: framing
for _p, _m, _q in (('C01', 1, (8000, 24000, 1000, 400)), ('C02', 2, (5000, 18000, 700, 300)), ('C03', 3, (16000, 60000, 4000, 4000))):
    for (_n, _d), _c in zip((('def', []), ('small', ['ST_ASIO_MSG_BUFFER_SIZE=64']), ('huge', ['ST_ASIO_MSG_BUFFER_SIZE=20000', 'ST_ASIO_HUGE_MSG']), ('big16', ['ST_ASIO_MSG_BUFFER_SIZE=70000', 'ST_ASIO_SCATTERED_RECV_BUFFER', 'ST_ASIO_RECV_BUFFER_TYPE=std::vector<boost::asio::mutable_buffer>'])), _q):
        unit(_p, 'frame%d-%s' % (_m, _n), 'frame.cpp', _c, _c * 60, san='asan+ubsan', defs=['VH_MODE=%d' % _m] + _d, shards=2, tshards=4)

# ---- C18: buffers
unit('C18', 'bufs', 'bufs.cpp', 300000, 3000000, san='asan+ubsan', shards=6, tshards=8)

# ---- C19: queue
unit('C19', 'queue-seq', 'queue.cpp', 20000, 2000000, san='asan+ubsan', defs=['VH_MODE=1'], shards=1, tshards=3)
unit('C19', 'queue-lin', 'queue.cpp', 30000, 3000000, san='asan', defs=['VH_MODE=2'], shards=2, tshards=2)
unit('C19', 'queue-tsan', 'queue.cpp', 6000, 300000, san='tsan', defs=['VH_MODE=2'], shards=1, tshards=2)
NEED['C19'] = {'overlapping_pairs': 1000}

# ---- C28: logging
for _n, _d in (('def', []), ('tiny', ['ST_ASIO_UNIFIED_OUT_BUF_NUM=90'])):
    unit('C28', 'logs-' + _n, 'logs.cpp', 12000, 400000, san='asan+ubsan', defs=_d, shards=2, tshards=4)

# ---- TCP traffic
WR = dict(perturb=True, wrap=['recv', 'recvmsg'], opt='-O0', light=True)
TRAFFIC = {
 'def': ['RIG_COPYABLE'],
 'single': ['RIG_COPYABLE', 'VH_SINGLE', 'ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY'],
 'notify': ['RIG_PACKER=ext::packer2<>', 'RIG_UNPACKER=ext::unpacker2<>', 'ST_ASIO_WANT_MSG_SEND_NOTIFY', 'ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY', 'VH_SINGLE'],
 'ps': ['RIG_PACKER=ext::prefix_suffix_packer', 'RIG_UNPACKER=ext::prefix_suffix_unpacker', 'RIG_PS', 'RIG_COPYABLE', 'ST_ASIO_DISPATCH_BATCH_MSG'],
 'sync': ['RIG_COPYABLE', 'ST_ASIO_SYNC_DISPATCH', 'ST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY', 'ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY'],
 'list': ['RIG_COPYABLE', 'RIG_STDLIST', 'ST_ASIO_INPUT_CONTAINER=vhlist', 'ST_ASIO_OUTPUT_CONTAINER=vhlist', 'ST_ASIO_FULL_STATISTIC'],
 'fix': ['RIG_PACKER=ext::fixed_length_packer', 'RIG_UNPACKER=ext::fixed_length_unpacker', 'RIG_FIXED=300', 'RIG_COPYABLE', 'ST_ASIO_SYNC_DISPATCH', 'ST_ASIO_DISPATCH_BATCH_MSG'],
 'huge': ['RIG_COPYABLE', 'ST_ASIO_HUGE_MSG', 'ST_ASIO_MSG_BUFFER_SIZE=70000', 'RIG_UNPACKER=ext::non_copy_unpacker'],
}
def traffic(prop, conf, quick, extra=[], **kw):
    unit(prop, 'traffic-' + conf, 'traffic.cpp', quick, quick * 40, defs=['VH_WRAP_RECV'] + TRAFFIC[conf] + extra, env={'VH_PROPS': prop}, std='gnu++17' if conf == 'list' else 'gnu++14', shards=12, tshards=12, **dict(WR, **kw))
for _p, _cs in (('C04', 'def notify ps sync list fix huge'), ('C05', 'def notify ps fix'), ('C06', 'def ps sync fix'), ('C17', 'def notify ps list sync fix')):
    for _c in _cs.split(): traffic(_p, _c, 24 if _c == 'huge' else 72)
for _c in ('def', 'huge'): unit('C04', 'traffic-parts-' + _c, 'traffic.cpp', 36, 3000, defs=['VH_WRAP_RECV'] + TRAFFIC[_c], env={'VH_PROPS': 'C04', 'VH_PARTS': '1'}, shards=12, tshards=12, **WR)
for _c in ('notify', 'single'): traffic('C24', _c, 96)
traffic('C24', 'sync', 72, extra=['VH_SINGLE'])
for _c in ('def',): traffic('C07', _c, 48)
IDLE = {'def': ['RIG_COPYABLE'], 'shrink': ['RIG_COPYABLE', 'ST_ASIO_SHRINK_SEND_BUFFER'], 'pk2': ['RIG_PACKER=ext::packer2<>', 'RIG_UNPACKER=ext::unpacker2<>']}
for _p, _cs in (('C07', 'def shrink pk2'), ('C17', 'def pk2'), ('C25', 'def shrink pk2')):
    for _c in _cs.split(): unit(_p, 'idle-' + _c, 'idle.cpp', 3000, 300000, defs=IDLE[_c], env={'VH_PROPS': _p}, shards=1, tshards=3)

# ---- C07 live, C25 live
for _n, _d in (('def', ['RIG_COPYABLE']), ('sync', ['RIG_COPYABLE', 'ST_ASIO_SYNC_DISPATCH']), ('batch', ['RIG_COPYABLE', 'ST_ASIO_DISPATCH_BATCH_MSG'])):
    unit('C07', 'flow-' + _n, 'flow.cpp', 48, 4000, defs=['VH_WRAP_RECV'] + _d, env={'VH_PROPS': 'C07'}, shards=12, tshards=12, **WR)
for _n, _d in (('shrink', ['RIG_COPYABLE', 'ST_ASIO_SHRINK_SEND_BUFFER', 'ST_ASIO_WANT_MSG_SEND_NOTIFY']), ('def', ['RIG_COPYABLE']), ('pk2', ['RIG_PACKER=ext::packer2<>', 'RIG_UNPACKER=ext::unpacker2<>', 'ST_ASIO_WANT_MSG_SEND_NOTIFY'])):
    unit('C25', 'loss-' + _n, 'loss.cpp', 72, 6000, defs=['VH_WRAP_RECV'] + _d, env={'VH_PROPS': 'C25'}, shards=12, tshards=12, **WR)

# ---- C08, C14: links coming and going, ways down
CHURN = {
 'def': ['RIG_COPYABLE', 'RIG_AUTO_STOP'],
 'reuse': ['RIG_COPYABLE', 'ST_ASIO_REUSE_OBJECT'],
 'clear': ['RIG_COPYABLE', 'ST_ASIO_CLEAR_OBJECT_INTERVAL=1', 'ST_ASIO_WANT_MSG_SEND_NOTIFY', 'ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY'],
 'delay': ['RIG_COPYABLE', 'ST_ASIO_DELAY_CLOSE=1'],
 'free': ['RIG_PACKER=ext::packer2<>', 'RIG_UNPACKER=ext::unpacker2<>', 'ST_ASIO_FREE_OBJECT_INTERVAL=1'],
 'sync': ['RIG_COPYABLE', 'ST_ASIO_SYNC_DISPATCH', 'ST_ASIO_DISPATCH_BATCH_MSG'],
}
for _n, _d in CHURN.items(): unit('C08', 'churn-' + _n, 'churn.cpp', 24 if _n == 'delay' else 48, 6000, defs=['VH_WRAP_RECV'] + _d, env={'VH_PROPS': 'C08'}, shards=12, tshards=12, **WR)
for _n in ('def', 'reuse'): unit('C14', 'churn-' + _n, 'churn.cpp', 36, 3000, defs=['VH_WRAP_RECV'] + CHURN[_n], env={'VH_PROPS': 'C14'}, shards=12, tshards=12, **WR)
DOWN = ['VH_WRAP_RECV', 'ST_ASIO_WANT_MSG_SEND_NOTIFY']
unit('C14', 'down-def', 'down.cpp', 240, 20000, defs=DOWN + ['RIG_COPYABLE', 'ST_ASIO_GRACEFUL_SHUTDOWN_MAX_DURATION=1'], env={'VH_PROPS': 'C14'}, shards=12, tshards=12, **WR)
unit('C14', 'down-reuse', 'down.cpp', 96, 8000, defs=DOWN + ['RIG_PACKER=ext::packer2<>', 'RIG_UNPACKER=ext::unpacker2<>', 'ST_ASIO_REUSE_OBJECT', 'ST_ASIO_GRACEFUL_SHUTDOWN_MAX_DURATION=2'], env={'VH_PROPS': 'C14'}, shards=12, tshards=12, **WR)
unit('C14', 'down-two', 'down.cpp', 48, 8000, defs=DOWN + ['RIG_COPYABLE', 'ST_ASIO_GRACEFUL_SHUTDOWN_MAX_DURATION=1'], env={'VH_PROPS': 'C14', 'VH_CTX2': '1'}, shards=12, tshards=12, **WR)
unit('C08', 'down-def', 'down.cpp', 96, 8000, defs=DOWN + ['RIG_COPYABLE', 'ST_ASIO_GRACEFUL_SHUTDOWN_MAX_DURATION=1'], env={'VH_PROPS': 'C08'}, shards=12, tshards=12, **WR)
NEED['C08'] = {'links_established': 500, 'user_timer_calls': 50, 'unpack_errors': 20}
NEED['C14'] = {'stops_under_load': 20, 'graceful_links': 30, 'stubborn_peers': 10, 'client_shutdowns': 10}

# ---- C10: links breaking and coming back
RECON = {
 'def': ['RIG_COPYABLE', 'ST_ASIO_WANT_MSG_SEND_NOTIFY'],
 'batch': ['RIG_COPYABLE', 'ST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY', 'ST_ASIO_DISPATCH_BATCH_MSG'],
 'auto': ['RIG_PACKER=ext::packer2<>', 'RIG_UNPACKER=ext::unpacker2<>', 'ST_ASIO_WANT_MSG_SEND_NOTIFY', 'RIG_AUTO_STOP', 'ST_ASIO_SYNC_DISPATCH'],
 'delay': ['RIG_COPYABLE', 'ST_ASIO_WANT_MSG_SEND_NOTIFY', 'ST_ASIO_DELAY_CLOSE=1'],
}
for _n, _d in RECON.items(): unit('C10', 'recon-' + _n, 'recon.cpp', 24 if _n == 'delay' else 60, 6000, defs=['VH_WRAP_RECV', 'ST_ASIO_GRACEFUL_SHUTDOWN_MAX_DURATION=1'] + _d, env={'VH_PROPS': 'C10'}, shards=12, tshards=12, **WR)
NEED['C10'] = {'links': 300, 'messages_on_later_links': 1000, 'failed_attempts': 100, 'reconnecting_ended': 40}

# ---- C11: service pump
for _n, _q, _d, _e in (('def', 60, ['RIG_COPYABLE'], {}), ('dec', 60, ['RIG_COPYABLE', 'ST_ASIO_DECREASE_THREAD_AT_RUNTIME'], {}), ('reuse', 40, ['RIG_COPYABLE', 'ST_ASIO_REUSE_OBJECT'], {}),
                      ('auto', 40, ['RIG_COPYABLE', 'RIG_AUTO_STOP', 'ST_ASIO_CLEAR_OBJECT_INTERVAL=1'], {}), ('natural', 40, ['RIG_AUTO_STOP'], {'VH_NATURAL': '1'})):
    unit('C11', 'pump-' + _n, 'pump.cpp', _q, 4000, defs=['VH_WRAP_RECV'] + _d, env=dict({'VH_PROPS': 'C11'}, **_e), shards=12, tshards=12, **WR)
NEED['C11'] = {'rounds': 200, 'callbacks': 20000, 'restarts': 80, 'thread_changes': 80, 'reference_checks': 200, 'exceptions': 30, 'messages': 10000, 'natural_ends': 60}

# ---- C12: timers
for _n, _d in (('def', []), ('steady', ['ST_ASIO_USE_STEADY_TIMER', 'VH_TRACKED']), ('aligned', ['ST_ASIO_ALIGNED_TIMER'])):
    unit('C12', 'timers-' + _n, 'timers.cpp', 360, 40000, defs=_d, shards=8, tshards=12, perturb=True, opt='-O0')
    unit('C12', 'timers-par-' + _n, 'timers.cpp', 180, 40000, defs=_d, env={'VH_PARALLEL': '1'}, shards=6, tshards=12, perturb=True, opt='-O0')
unit('C12', 'churn-def', 'churn.cpp', 36, 3000, defs=['VH_WRAP_RECV'] + CHURN['def'], env={'VH_PROPS': 'C12'}, shards=12, tshards=12, **WR)
NEED['C12'] = {'callbacks': 5000, 'parallel_callbacks': 20000, 'restarts_in_callback': 500, 'stops_of_started': 500, 'user_timer_calls': 20}

# ---- C09: object pool
for _n, _d in (('def', []), ('reuse', ['ST_ASIO_REUSE_OBJECT']), ('restore', ['ST_ASIO_RESTORE_OBJECT'])):
    unit('C09', 'pool-seq-' + _n, 'pool.cpp', 2400, 400000, san='asan+ubsan', defs=_d, shards=2, tshards=4)
    unit('C09', 'pool-con-' + _n, 'pool.cpp', 240, 40000, defs=_d, env={'VH_PARALLEL': '1'}, shards=2, tshards=6, perturb=True, opt='-O0')
unit('C09', 'churn-reuse', 'churn.cpp', 36, 3000, defs=['VH_WRAP_RECV'] + CHURN['reuse'], env={'VH_PROPS': 'C09'}, shards=12, tshards=12, **WR)
NEED['C09'] = {'sockets_reused': 100, 'reused': 200, 'ids_taken_over': 100, 'freed': 2000}

# ---- C15: synchronous sending and receiving
for _n, _d in (('send-def', []), ('send-shrink', ['ST_ASIO_SHRINK_SEND_BUFFER', 'ST_ASIO_WANT_MSG_SEND_NOTIFY']), ('recv-def', ['VH_RECV']),
               ('recv-passive', ['VH_RECV', 'ST_ASIO_PASSIVE_RECV']), ('recv-dispatch', ['VH_RECV', 'ST_ASIO_SYNC_DISPATCH'])):
    unit('C15', 'sync-' + _n, 'sync.cpp', 36, 3000, defs=_d, shards=12, tshards=12, perturb=True, opt='-O0', light=True)
NEED['C15'] = {'sync_calls': 5000, 'sync_ok': 1000, 'sync_confirmed': 1000, 'sync_timeout': 30, 'sync_failed_by_end': 20, 'withdrawn': 1, 'sync_received': 5000, 'sync_recv_timeout': 30, 'sync_recv_duplicate': 20, 'handled': 200, 'cuts': 5}

# ---- C16: UDP
for _n, _d in (('ip', []), ('unix', ['UDP_UNIX']), ('pk2', ['UDP_PACKER=ext::packer2<>', 'UDP_UNPACKER=ext::udp_unpacker2<>', 'ST_ASIO_DISPATCH_BATCH_MSG']), ('sync', ['ST_ASIO_SYNC_DISPATCH', 'ST_ASIO_WANT_MSG_SEND_NOTIFY']), ('unix-notify', ['UDP_UNIX', 'ST_ASIO_WANT_MSG_SEND_NOTIFY']), ('passive', ['ST_ASIO_PASSIVE_RECV'])):
    unit('C16', 'udp-' + _n, 'udp.cpp', 60, 5000, defs=_d, env={'VH_PROPS': 'C16'}, shards=12, tshards=12, perturb=True, opt='-O0', light=True)
NEED['C16'] = {'datagrams': 20000, 'foreign_datagrams': 500, 'empty_datagrams': 50, 'over_limit': 200, 'send_errors': 200, 'to_nowhere': 50, 'while_peer_away': 50, 'opened_again': 100, 'sent_notifications': 2000}

# ---- C26: passive receiving
for _n, _d in (('def', []), ('batch', ['ST_ASIO_DISPATCH_BATCH_MSG']), ('dispatch', ['ST_ASIO_SYNC_DISPATCH']), ('sync-recv', ['ST_ASIO_SYNC_RECV'])):
    unit('C26', 'passive-' + _n, 'passive.cpp', 72, 6000, defs=_d, env={'VH_PROPS': 'C26'}, shards=12, tshards=12, perturb=True, opt='-O0', light=True)
NEED['C26'] = {'messages': 3000, 'reads': 2000, 'unpackers_changed': 150, 'held_back': 100, 'exact': 60, 'heartbeats': 200, 'ended_by_peer': 50}

# ---- C13: heartbeats (lives on the clock, hardly uses the processor)
for _n, _q, _d in (('def', 16, []), ('always', 8, ['ST_ASIO_ALWAYS_SEND_HEARTBEAT']), ('auto', 8, ['ST_ASIO_HEARTBEAT_INTERVAL=1', 'ST_ASIO_HEARTBEAT_MAX_ABSENCE=3'])):
    unit('C13', 'heart-' + _n, 'heart.cpp', _q, 600, defs=_d, env={'VH_PROPS': 'C13'}, shards=_q, tshards=16, perturb=True, opt='-O0', light=True)
NEED['C13'] = {'dead_closed': 80, 'dead_closed_again': 5, 'live_links': 60, 'congested_links': 8, 'heartbeats_from_library': 300, 'heartbeats_to_library': 300, 'messages_to_library': 1000, 'pairs': 6}

# ---- C21: SOCKS proxies
for _n, _d in (('def', []), ('batch', ['ST_ASIO_DISPATCH_BATCH_MSG', 'ST_ASIO_SYNC_DISPATCH'])):
    unit('C21', 'socks-' + _n, 'socks.cpp', 96, 6000, san='asan+ubsan', defs=_d, env={'VH_PROPS': 'C21'}, shards=12, tshards=12, perturb=True, opt='-O0', light=True)
NEED['C21'] = {'requests': 1500, 'granted4': 150, 'granted5': 400, 'coalesced': 150, 'refused': 50, 'malformed': 80, 'truncated': 80, 'silent': 80, 'fragments': 20000, 'messages_from_target': 5000, 'messages_to_target': 3000}

# ---- C27: accepting
for _n, _d in (('def', []), ('reuse', ['ST_ASIO_REUSE_OBJECT']), ('batch', ['ST_ASIO_DISPATCH_BATCH_MSG', 'ST_ASIO_FULL_STATISTIC'])):
    unit('C27', 'accept-' + _n, 'accept.cpp', 288, 20000, defs=_d, env={'VH_PROPS': 'C27'}, shards=12, tshards=12, perturb=True, wrap=['accept'], opt='-O0', light=True)
NEED['C27'] = {'served': 3000, 'surplus': 800, 'left': 800, 'misbehaving': 4000, 'refused': 1200, 'unlistened': 300, 'listened_again': 300, 'refused_unlistened': 150, 'failed_accepts': 1000, 'service_again': 100, 'compared': 10000}
