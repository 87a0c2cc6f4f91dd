"""Which harness runs decide which property."""
from vf import Shard

CHECKS = {}
META = {}


def check(pid, technique="", note=""):
    def deco(f):
        CHECKS[pid] = f
        META[pid] = (technique, note)
        return f
    return deco


def spread(harness, variant, mode, n, k, c, mult=8, **kw):
    """k shards of n cases each (thorough: mult times the cases)"""
    if c.tier == "thorough":
        n *= mult
        kw["timeout"] = kw.get("timeout", 120) * 6
    base = abs(hash((harness, variant, mode))) % 1000
    import zlib
    base = zlib.crc32(("%s|%s|%s" % (harness, variant, mode)).encode()) % 100000 * 10
    return [Shard(harness, variant, mode, n, seed_off=base + i, **kw) for i in range(k)]


@check("C01", "runtime monitoring: exactly-once/order ledgers over real-thread stress with perturbed atomics, TSan, ASan",
       "explores random thread programs and perturbed schedules of the real queues; does not enumerate interleavings")
def c01(c):
    H = "c01_queue.cpp"
    c.run(spread(H, "perturb", "mpsc", 25, 2, c) + spread(H, "perturb", "evsc", 60, 2, c) +
          spread(H, "perturb", "mpmc", 25, 2, c) + spread(H, "perturb", "evmc", 40, 2, c) +
          spread(H, "plain", "mpsc", 60, 2, c) + spread(H, "plain", "evsc", 120, 2, c) +
          spread(H, "plain", "mpmc", 50, 1, c) + spread(H, "plain", "evmc", 80, 1, c) +
          spread(H, "asan", "mpsc", 15, 1, c) + spread(H, "asan", "destroy", 60, 1, c) + spread(H, "asan", "evsc", 25, 1, c) + spread(H, "asan", "capacity", 40, 1, c) +
          spread(H, "tsan", "mpsc", 8, 1, c) + spread(H, "tsan", "evsc", 15, 1, c) + spread(H, "tsan", "mpmc", 8, 1, c))
    # blocks of 8 elements: the recycling of blocks is exercised all the time
    c.run(spread(H, "sbperturb", "mpsc", 60, 3, c) + spread(H, "sbperturb", "mpmc", 60, 3, c) + spread(H, "sbperturb", "evsc", 60, 2, c) + spread(H, "sbperturb", "evmc", 60, 1, c) +
          spread(H, "sbplain", "mpsc", 100, 2, c) + spread(H, "sbplain", "mpmc", 100, 2, c) +
          spread(H, "sbpasan", "mpsc", 20, 1, c) + spread(H, "sbpasan", "mpmc", 20, 1, c) + spread(H, "sbpasan", "destroy", 60, 1, c) + spread(H, "sbpasan", "capacity", 60, 1, c) +
          spread(H, "sbtsan", "mpsc", 20, 1, c) + spread(H, "sbtsan", "mpmc", 20, 1, c) + spread(H, "sbtsan", "evsc", 20, 1, c))
    return c.finish("exploration",
        "random producer/consumer programs (thread counts, lengths around the 4096-element block, bounded/unbounded, "
        "rewinds, bursts) on real threads with perturbed atomics; non-trivial: at least two elements in flight; "
        "distinct by configuration and seed", required=("enqueued", "dequeued", "wakeups", "rejected", "rewound", "idle_checks"), min_eval=100)


@check("C02", "runtime monitoring: per-call ledgers over concurrent callers and loops, perturbed atomics, TSan, ASan",
       "explores random call programs and schedules; the loop is kept running, callers never call on their own loop")
def c02(c):
    H = "c02_tcall.cpp"
    c.run(spread(H, "perturb", "calls", 25, 2, c) + spread(H, "perturb", "stop", 40, 1, c) +
          spread(H, "asan", "calls", 15, 2, c) + spread(H, "asan", "stop", 30, 1, c) + spread(H, "asan", "destroy", 60, 1, c) +
          spread(H, "tsan", "calls", 8, 2, c) + spread(H, "tsan", "stop", 15, 1, c) +
          spread(H, "plain", "calls", 40, 2, c) + spread(H, "plain", "stop", 60, 1, c))
    return c.finish("exploration",
        "random programs of synchronous/asynchronous/nested calls from several threads onto one to three loops (burst sizes, "
        "results, exceptions), stop() under concurrent callers, destruction with pending calls; distinct by configuration and seed",
        required=("calls_executed", "sync_calls", "exceptions_returned", "refused_after_stop", "destroyed_with_pending"), min_eval=100)


@check("C09", "runtime monitoring: model-based random operation sequences against a byte-vector oracle under ASan/UBSan (container annotations)",
       "explores random operation sequences and boundary lengths; integers are compared in host byte order")
def c09(c):
    H = "data.cpp"
    c.run(spread(H, "asan", "stream", 6000, 4, c) + spread(H, "asan", "hex", 1500, 1, c) + spread(H, "asan", "cstream", 4000, 2, c))
    return c.finish("exploration", "random sequences of writes, reads (also beyond the end), copies, moves, conversions, hashes and hex "
        "round trips; distinct by operation sequence", required=("operations", "overreads", "hex_malformed", "hex_valid"), min_eval=1000)


@check("C10", "runtime monitoring: independent encoder/OpenSSL digests as oracle over random messages, alterations and hostile lists, ASan/UBSan",
       "explores random payloads/opcodes/magics; a checksum collision (2^-32 per alteration) would be reported as violation")
def c10(c):
    H = "data.cpp"
    c.run(spread(H, "asan", "msg", 250, 6, c) + spread(H, "asan", "hashlist", 500, 2, c))
    return c.finish("exploration", "random messages for 1/2/4-byte opcodes, payload alterations, copies/moves, header parsing, hash lists "
        "valid, truncated and hostile; distinct by payload", required=("messages", "altered", "hostile_lists"), min_eval=300)


@check("C11", "runtime monitoring: bit/byte model oracle over random vectors, blobs and hostile encodings, ASan/UBSan",
       "explores random lengths and operations; ordering of blobs is compared as little-endian numbers")
def c11(c):
    H = "data.cpp"
    c.run(spread(H, "asan", "bits", 500, 6, c))
    return c.finish("exploration", "random vectors and blobs with set/clear/flip, copies, round trips, truncated and hostile encodings; "
        "distinct by content", required=("bit_ops", "hostile_bits", "blob_pairs"), min_eval=300)


@check("C25", "runtime monitoring: byte-stream model oracle over random segment/byte pops, rewinds, copies and moves, ASan/UBSan",
       "explores random operation sequences; popping a whole segment from an empty buffer is outside the interface")
def c25(c):
    H = "data.cpp"
    c.run(spread(H, "asan", "seg", 8000, 4, c) + spread(H, "asan", "wbuf", 60, 2, c))
    return c.finish("exploration", "random sequences of push, rewind, pop(n), pop-segment, copy, move, swap, clear; distinct by sequence",
        required=("operations",), min_eval=1000)


@check("C16", "runtime monitoring: object life-cycle ledger and handle-count model, live-heap accounting, TSan/ASan with perturbed atomics",
       "explores random handle programs and concurrent drop/upgrade races; handles themselves are not shared between threads")
def c16(c):
    H = "c16_ref.cpp"
    c.run(spread(H, "asan", "seq", 400, 2, c) + spread(H, "pasan", "conc", 300, 3, c) + spread(H, "perturb", "conc", 500, 2, c) +
          spread(H, "tsan", "conc", 150, 2, c) + spread(H, "tsan", "seq", 60, 1, c))
    return c.finish("exploration", "random programs over strong/weak/box handles checked against an ownership model after every step; "
        "rounds in which several threads drop, cast and upgrade the same object at once; distinct by configuration and seed",
        required=("handle_operations", "concurrent_objects", "weak_upgrades", "weak_upgrade_refused"), min_eval=200)


@check("C19", "runtime monitoring: option/address/text models as oracle over random configurations and malformed input, descriptor accounting, ASan/UBSan",
       "explores random option sets, files, command lines, address and text inputs; host resolution is delegated to gethostbyname")
def c19(c):
    H = "misc.cpp"
    c.run(spread(H, "asan", "config", 1500, 3, c) + spread(H, "asan", "addr", 6000, 2, c) + spread(H, "asan", "text", 1200, 3, c))
    return c.finish("exploration", "random option sets with configuration files and command lines (valid and malformed), address texts, "
        "formatted texts of any length, splits, trims, error codes, log files; distinct by generated input",
        required=("config_valid", "config_malformed", "option_values", "addresses_malformed", "log_files"), min_eval=1000)


@check("C23", "runtime monitoring: OpenSSL one-shot digests and parsers as oracle over random splits, stored and damaged keys, descriptor and live-heap accounting, ASan/UBSan",
       "explores RSA keys and self-signed certificates; trailing garbage after a DER object is outside the interface")
def c23(c):
    H = "misc.cpp"
    c.run(spread(H, "asan", "digest", 1500, 3, c) + spread(H, "asan", "keys", 500, 4, c))
    return c.finish("exploration", "random update splits and resets; save/load/DER round trips, encrypted keys, damaged files and encodings, "
        "mismatching pairs; distinct by content", required=("digests", "key_operations", "encrypted_loads", "damaged_inputs", "tls_pairs"), min_eval=1000)


@check("C17", "runtime monitoring: online model of armed events checked in every callback (loop clock, poll() state), operations inside callbacks, ASan/UBSan",
       "explores random event programs on one loop at a time; delays count in whole milliseconds of the loop's clock")
def c17(c):
    H = "c17_event.cpp"
    c.run(spread(H, "asan", "default", 250, 6, c) + spread(H, "plain", "default", 400, 2, c))
    return c.finish("exploration", "random programs of arm/cancel/clear/destroy/move/swap/replace-callback on five kinds of events, between "
        "iterations and inside callbacks; non-trivial: at least one event fired; distinct by operation and firing history",
        required=("fired_timer", "fired_fd", "fired_timed-fd", "fired_signal", "fired_check", "timeouts", "operations_in_callbacks", "moves"), min_eval=200)


NET = "net_msg.cpp"
HOST = "net_hostile.cpp"


@check("C03", "runtime monitoring: per-sender exactly-once/order/content ledgers over real sockets with injected short/blocked I/O, remote closes, perturbed atomics, TSan, ASan",
       "explores random configurations, traffic and faults on the loopback; a close is judged when the incoming queue was not full")
def c03(c):
    c.run(spread(NET, "plain", "deliver", 40, 3, c) + spread(NET, "asan", "deliver", 20, 2, c) + spread(NET, "tsan", "deliver", 15, 1, c) +
          spread(NET, "perturb", "deliver", 20, 2, c) +
          spread(NET, "plain", "duplex", 12, 2, c) + spread(NET, "asan", "duplex", 8, 1, c) + spread(NET, "perturb", "duplex", 8, 1, c) +
          spread(NET, "asan", "close", 40, 2, c) + spread(NET, "plain", "close", 60, 2, c) + spread(NET, "perturb", "close", 30, 1, c))
    return c.finish("exploration",
        "random connections, senders, payload shapes (empty to maximum, around the chunk size), chunk/buffer/burst/worker settings and "
        "injected short or blocked socket calls in both directions; remotes that send and close at once; remotes that never stop sending while "
        "they are answered; distinct by configuration and traffic",
        required=("messages_delivered", "messages_before_close", "closed_by_remote", "duplex_replies"), min_eval=100)


@check("C04", "runtime monitoring: per-sender exactly-once/order/content ledgers over TLS connections with tiny socket buffers and slow readers, perturbed atomics, TSan, ASan",
       "explores random configurations and traffic over TLS 1.2/1.3 of the installed OpenSSL on the loopback")
def c04(c):
    c.run(spread(NET, "plain", "tls", 50, 3, c) + spread(NET, "asan", "tls", 20, 2, c) + spread(NET, "tsan", "tls", 12, 1, c) +
          spread(NET, "plain", "tlsduplex", 12, 2, c) + spread(NET, "asan", "tlsduplex", 8, 1, c) + spread(HOST, "plain", "tlshostile", 25, 1, c) +
          spread(NET, "perturb", "tls", 20, 2, c) + spread(NET, "plain", "tlsqueue", 6, 1, c) +
          spread(NET, "asan", "tlsclose", 40, 2, c) + spread(NET, "plain", "tlsclose", 60, 1, c))
    return c.finish("exploration",
        "random TLS connections, senders, payload shapes and settings with small kernel buffers and slow loops, so writes stop in the middle of "
        "records; remotes that send and close, that never stop sending while they are answered, that ask for new keys; certificates larger than the socket buffers; distinct by configuration and traffic",
        required=("messages_delivered", "messages_before_close", "duplex_replies", "key_updates", "large_certificates"), min_eval=100)


@check("C05", "runtime monitoring: accepted/refused ledger against what a stalled receiver finally reads, memory/queue bounds, deferred error reports, TSan, ASan",
       "the bound is judged with the queue's block granularity (4096 entries per end) plus kernel buffers")
def c05(c):
    c.run(spread(NET, "plain", "bounded", 14, 3, c) + spread(NET, "asan", "bounded", 8, 1, c) + spread(NET, "tsan", "bounded", 5, 1, c) +
          spread(NET, "plain", "queue", 20, 3, c) + spread(NET, "asan", "queue", 10, 1, c) + spread(NET, "tsan", "queue", 6, 1, c) + spread(NET, "perturb", "queue", 8, 1, c) +
          spread(NET, "plain", "tlsqueue", 12, 2, c) + spread(NET, "asan", "tlsqueue", 6, 1, c) +
          spread(NET, "plain", "pause", 60, 2, c) + spread(NET, "asan", "pause", 25, 1, c) + spread(NET, "perturb", "pause", 25, 1, c) +
          spread(NET, "plain", "hoard", 12, 1, c) + spread(NET, "asan", "hoard", 5, 1, c))
    return c.finish("exploration",
        "receivers that stop reading or whose loop is blocked or slow, for random send-buffer, receive-buffer and message-queue limits; every "
        "accepted message has to arrive once the receiver goes on; distinct by configuration",
        required=("accepted", "refused", "pushed_back", "queued_messages", "deferred_failures_reported", "paused_with_empty_socket", "paused_with_data_left", "output_while_paused", "output_stuck_over_the_release", "flood_pushed_back"), min_eval=60)


@check("C24", "runtime monitoring: counters of both ends compared with the traffic ledger at quiescent points, with clears, concurrent senders and several connections, TSan, ASan",
       "explores random traffic; counters are compared when everything sent has been handed over")
def c24(c):
    c.run(spread(NET, "plain", "stats", 30, 3, c) + spread(NET, "asan", "stats", 15, 1, c) + spread(NET, "tsan", "stats", 10, 1, c) +
          spread(NET, "perturb", "stats", 15, 1, c) + spread(NET, "plain", "tlsstats", 25, 1, c) + spread(NET, "plain", "bounded", 10, 2, c))
    return c.finish("exploration", "random traffic over several connections and senders, counters compared, cleared and compared again; "
        "bounded buffers with refused messages; distinct by configuration and traffic",
        required=("counters_compared", "counters_cleared", "refused", "unhandled_messages"), min_eval=60)



@check("C06", "runtime monitoring: scripted hostile clients/servers with known effects next to an exact healthy stream, allocation and live-heap monitors, ASan/UBSan, TSan",
       "explores generated byte streams (not all); the healthy peer's address is never impersonated; stalled TLS handshakes are not timed out by design")
def c06(c):
    c.run(spread(HOST, "asan", "hostile", 40, 3, c) + spread(HOST, "asan", "flood", 12, 1, c) + spread(HOST, "asan", "peerhostile", 15, 3, c) +
          spread(HOST, "asan", "tlshostile", 15, 2, c) + spread(HOST, "plain", "tlshostile", 40, 2, c) + spread(HOST, "tsan", "tlshostile", 6, 1, c) + spread(HOST, "plain", "hostile", 60, 2, c) + spread(HOST, "plain", "flood", 20, 1, c) +
          spread(HOST, "plain", "peerhostile", 15, 2, c) + spread(HOST, "tsan", "hostile", 10, 1, c) + spread(HOST, "tsan", "peerhostile", 8, 1, c) +
          spread(NET, "plain", "hoard", 12, 1, c))
    return c.finish("exploration", "hostile connections with generated scripts: wrong checksums, unknown opcodes, oversized and unparsable messages, truncated and random bytes, "
        "handshake/heartbeat sequences with arbitrary identities and nonces, hostile servers being dialled, floods into a full queue; a healthy "
        "connection runs beside them; distinct by script seed and outcome",
        required=("hostile_clients", "hostile_servers", "oversized", "bad_checksums", "unknown_opcodes", "unparsable", "garbage", "flood_messages", "healthy_messages", "proper_tls_clients", "broken_records", "key_updates"), min_eval=60)


@check("C07", "runtime monitoring: callback/life-cycle ledger per connection over random connects, terminations and injected failures, descriptor accounting, TSan, ASan, perturbed atomics",
       "explores random life cycles; connections still being set up at stop() are judged by C18")
def c07(c):
    H = "net_life.cpp"
    c.run(spread(H, "asan", "life", 20, 2, c) + spread(H, "plain", "life", 25, 3, c) + spread(H, "tsan", "life", 10, 1, c) + spread(H, "perturb", "life", 15, 1, c) +
          spread(H, "asan", "tlslife", 10, 1, c) + spread(H, "plain", "tlslife", 15, 2, c) + spread(H, "tsan", "tlslife", 6, 1, c))
    return c.finish("exploration", "random connects (also refused, unreachable, with injected errors), terminations from either side at random moments, "
        "resets, messages; distinct by configuration and history", required=("connected", "disconnected", "never_connected", "messages", "attempts_without_descriptor", "injected_io_errors"), min_eval=60)


@check("C08", "runtime monitoring: independent OpenSSL clients and servers with known identities; callback/message ledger, ASan/UBSan, TSan",
       "explores client kinds (certificates, none, refused, unverified, plain text, broken handshakes) with TLS 1.2 and 1.3 of the installed OpenSSL")
def c08(c):
    c.run(spread(HOST, "asan", "auth", 40, 2, c) + spread(HOST, "plain", "auth", 60, 2, c) + spread(HOST, "tsan", "auth", 15, 1, c) + spread(HOST, "asan", "construct", 25, 1, c))
    return c.finish("exploration", "TLS clients and servers of every kind against a network with and without certificate verification, slow and refusing "
        "application callbacks, concurrent bursts; construction with unusable material; distinct by seed",
        required=("accepted_clients", "refused_clients", "unverified_clients", "anonymous_clients", "plaintext_clients", "broken_handshakes", "dialled_servers", "bad_pairs", "untrusted_clients"), min_eval=60)


PEER = "net_peer.cpp"


@check("C12", "runtime monitoring: peer up/down ledger per node over simultaneous dialling, cuts, stalls, restarts and manual connections through a fault proxy; convergence watched by a progress watchdog; ASan, TSan, perturbed atomics",
       "explores random histories; convergence is judged for pairs of which one side keeps trying, after the last fault")
def c12(c):
    c.run(spread(PEER, "plain", "interrupted", 10, 2, c) + spread(PEER, "asan", "interrupted", 6, 2, c) +
          spread(PEER, "plain", "odd", 15, 2, c) + spread(PEER, "asan", "odd", 9, 1, c) + spread(PEER, "tsan", "odd", 6, 1, c) +
          spread(PEER, "plain", "pair", 5, 6, c) + spread(PEER, "asan", "pair", 4, 4, c) + spread(PEER, "perturb", "pair", 4, 3, c) + spread(PEER, "tsan", "pair", 3, 3, c) +
          spread(PEER, "plain", "takeover", 12, 2, c) + spread(PEER, "asan", "takeover", 8, 1, c) + spread(PEER, "tsan", "takeover", 5, 1, c) +
          spread(PEER, "plain", "stale", 60, 1, c) + spread(PEER, "asan", "stale", 40, 1, c), par=16)
    return c.finish("exploration", "two to four peers (plain, TLS, address- and certificate-based identities) that dial each other simultaneously or one-sidedly, with cuts, "
        "delays, black holes, terminations, deletions and restarts at random moments; restarted peers that dial once over a channel the other side still believes in, also when that is interrupted half-way; channels set up by plain connections, addresses that change while dialled, remotes that connect from the address they listen on; handshakes "
        "on connections that are already gone; distinct by configuration and history of reports",
        required=("convergences", "cuts", "restarts", "connected_reports", "disconnected_reports", "terminations", "takeovers", "stale_handshakes", "welcomed_afterwards", "interrupted_takeovers", "unaddressed", "manual_channels", "address_changes", "dialled_from_own_port"), min_eval=100)


@check("C13", "runtime monitoring: per-sender order/at-most-once/content ledgers across reconnects, backlog hand-over and multicast; ASan, TSan, perturbed atomics",
       "explores random traffic and cuts; messages in flight when a channel breaks may be lost, never duplicated or reordered within a channel")
def c13(c):
    c.run(spread(PEER, "plain", "traffic", 3, 4, c) + spread(PEER, "asan", "traffic", 2, 2, c) + spread(PEER, "tsan", "traffic", 2, 1, c) + spread(PEER, "perturb", "traffic", 2, 2, c) +
          spread(PEER, "plain", "backlog", 20, 3, c) + spread(PEER, "asan", "backlog", 10, 2, c) + spread(PEER, "tsan", "backlog", 6, 1, c) + spread(PEER, "perturb", "backlog", 10, 1, c) +
          spread(PEER, "plain", "multicast", 20, 3, c) + spread(PEER, "asan", "multicast", 12, 1, c) + spread(PEER, "tsan", "multicast", 5, 1, c), par=14)
    return c.finish("exploration", "random senders on both sides while connections are cut and re-established, messages sent while disconnected, backlogs handed over "
        "between connections, multicasts to random peer sets; distinct by configuration and traffic",
        required=("messages_delivered", "offline_phases_delivered", "stable_phases_delivered", "backlogs_handed_over", "multicasts", "cuts", "late_peers", "multicasts_with_a_full_peer"), min_eval=60)


@check("C14", "runtime monitoring: timed observation of healthy, slow, silent and never-finishing peers (real nodes and scripted ones) against the configured periods",
       "a late reaction is judged only if the machine itself was not delayed (measured scheduling hiccups); 0.6 s slack")
def c14(c):
    c.run(spread(PEER, "plain", "heartbeat", 5, 16, c) + spread(PEER, "asan", "heartbeat", 5, 4, c), par=20)
    return c.finish("exploration", "heartbeat periods 0.05 to 0.3 s, timeouts 0.8 to 1.6 s, answers delayed up to the timeout, peers that fall silent or keep talking without "
        "answering, dialled and accepted connections that never finish the handshake; distinct by configuration",
        required=("healthy_channels_kept", "silent_peers_dropped", "unfinished_handshakes_dropped", "heartbeats_seen"), min_eval=40)


@check("C15", "runtime monitoring: model of the peer set against the outcome of every request, attempt counts seen by a listening observer, admission ledger, impostors with other identities; ASan, TSan",
       "explores random request sequences; attempts are counted on the wire")
def c15(c):
    c.run(spread(PEER, "plain", "manage", 40, 3, c) + spread(PEER, "asan", "manage", 25, 2, c) + spread(PEER, "tsan", "manage", 15, 1, c) +
          spread(PEER, "plain", "attempts", 10, 4, c) + spread(PEER, "asan", "attempts", 8, 2, c) +
          spread(PEER, "plain", "admit", 10, 3, c) + spread(PEER, "asan", "admit", 6, 2, c) + spread(PEER, "tsan", "admit", 4, 1, c) +
          spread(PEER, "plain", "impostor", 10, 2, c) + spread(PEER, "asan", "impostor", 6, 1, c) +
          spread(PEER, "plain", "expel", 60, 2, c) + spread(PEER, "asan", "expel", 40, 1, c) + spread(PEER, "tsan", "expel", 25, 1, c), par=16)
    return c.finish("exploration", "random sequences of add/delete/address/connect requests (also invalid ones) with queries, attempt limits and delays against listening, refusing "
        "and silent addresses, known and unknown peers dialling in, deletions during traffic, impostors; distinct by configuration and history",
        required=("failing_requests", "successful_requests", "queries", "attempts", "admitted", "deleted", "unknown_reports", "impostor_attempts", "strangers_dialled", "channels_closed_by_deletion", "attempts_closed_by_deletion", "inbound_after_giving_up", "unknown_remotes_closed"), min_eval=150)


@check("C20", "runtime monitoring: ThreadSanitizer and a deadlock watchdog over concurrent use of the whole public interface, plus perturbed atomics",
       "data races are those ThreadSanitizer observes on executed schedules; networks are created and destroyed on their loop's thread")
def c20(c):
    c.run(spread(PEER, "tsan", "race", 8, 4, c) + spread(PEER, "plain", "race", 25, 3, c) + spread(PEER, "perturb", "race", 12, 2, c) + spread(PEER, "asan", "race", 10, 2, c) +
          spread(PEER, "tsan", "traffic", 2, 1, c) + spread(PEER, "tsan", "manage", 15, 1, c) + spread(PEER, "tsan", "pair", 2, 1, c) +
          spread(NET, "tsan", "deliver", 12, 1, c) + spread(NET, "tsan", "tls", 8, 1, c) + spread(NET, "tsan", "stats", 8, 1, c) + spread("net_life.cpp", "tsan", "life", 8, 1, c) + spread("net_client.cpp", "tsan", "own", 10, 1, c), par=12)
    return c.finish("exploration", "several threads calling every documented thread-safe operation (sends, deferred sends, multicast, peer management, queries, connects, terminations, "
        "logging, addresses) on running networks, with traffic and churn; distinct by seed and events",
        required=("operations", "peer_events", "messages_delivered"), min_eval=60)


@check("C18", "runtime monitoring: stop/destroy at random moments in random states; accounting of threads, descriptors, heap, callbacks, remote ends and ports; a bystander network on the same loop; ASan, TSan, perturbed atomics",
       "stop() is called on the loop's thread or after the loop has ended; destruction is not concurrent with other uses of the object")
def c18(c):
    H = "net_stop.cpp"
    c.run(spread(H, "plain", "any", 40, 4, c) + spread(H, "asan", "any", 25, 3, c) + spread(H, "tsan", "any", 15, 2, c) + spread(H, "perturb", "any", 25, 2, c) +
          spread(H, "plain", "peer", 30, 2, c) + spread(H, "asan", "peer", 20, 2, c) + spread(H, "plain", "tls", 30, 2, c) + spread(H, "asan", "tls", 20, 1, c) +
          spread(H, "asan", "client", 20, 1, c) + spread(H, "asan", "leak", 8, 3, c), par=12)
    return c.finish("exploration", "networks of every kind stopped, destroyed, stopped from a handler, stopped repeatedly or after their loop ended, while never started, idle, being connected, "
        "shaking hands, exchanging traffic, with full queues, with stalled or reset remotes, with reconnecting peers; distinct by configuration",
        required=("networks_destroyed", "remote_ends_closed", "ports_reused", "bystander_echoes", "stopped_by_message", "repeated_for_leaks", "messages_before_stop", "listened_again", "failed_listens", "failed_networks"), min_eval=200)


@check("C22", "runtime monitoring: address/generation-tagged messages to clients with known addresses, immediate address reuse after resets and terminations, concurrent senders; ASan, TSan, perturbed atomics",
       "explores random client histories; 'connected' is what the connection callback reported")
def c22(c):
    H = "net_client.cpp"
    c.run(spread(H, "plain", "own", 40, 4, c) + spread(H, "asan", "own", 20, 3, c) + spread(H, "tsan", "own", 12, 2, c) + spread(H, "perturb", "own", 20, 3, c) +
          spread(H, "plain", "net", 40, 2, c) + spread(H, "asan", "net", 20, 1, c) + spread(H, "tsan", "net", 10, 1, c) +
          spread(H, "plain", "full", 12, 1, c) + spread(H, "asan", "full", 6, 1, c) + spread(H, "tsan", "full", 5, 1, c), par=12)
    return c.finish("exploration", "random clients that connect, are sent messages by several threads, close, reset or are terminated and come back from the same address at once or later; "
        "TLS client networks; distinct by configuration and history",
        required=("clients", "addresses_reused_at_once", "gone_clients", "messages_delivered", "sends_to_nobody", "deferred_delivered", "closed_by_server", "network_clients", "neighbouring_addresses", "refused_sends", "refused_deferred"), min_eval=100)


@check("C21", "runtime monitoring: differential execution of every C function next to the C++ operation it wraps, exception guard around every call, ASan/UBSan, heap balance over repetitions",
       "explores random call sequences and arguments, valid and failing; exhaustion of memory or descriptors is not explored; order between deferred and immediate sends is not compared")
def c21(c):
    H = "capi.cpp"
    c.run(spread(H, "asan", "data", 2400, 5, c) + spread(H, "asan", "event", 40, 2, c) + spread(H, "plain", "event", 80, 1, c) +
          spread(H, "asan", "net", 60, 4, c) + spread(H, "tsan", "event", 30, 1, c) + spread(H, "plain", "net", 150, 3, c) + spread(H, "perturb", "net", 60, 2, c))
    return c.finish("exploration", "random operation sequences on C objects mirrored in C++ (streams, numbers, addresses, messages, keys, certificates, identifiers, settings), C event programs, "
        "and C message/client/peer networks with failing calls; distinct by outcome", required=("c_calls", "balance_checks", "settings_compared", "async_errors", "peers_connected", "unknown_peers", "bad_networks", "c_attempts", "c_fatal_errors", "refused", "c_refused", "calls_after_failure"), min_eval=1000)
