"""What decides each property: harnesses by unit (Kani/CBMC), SMT queries over MIR."""

PROPS = {}


class Prop:
    def __init__(self, pid, kani=(), thorough=(), smt=(), smt_thorough=(), bounds="", assumptions=(), explain="", technique="Kani: bounded symbolic execution of the compiled source to SAT (CBMC)"):
        self.technique = technique
        self.pid, self._k, self._t, self._s, self._st = pid, list(kani), list(thorough), list(smt), list(smt_thorough)
        self.bounds, self.assumptions = bounds, list(assumptions)
        self.explain = explain or ("Bounded symbolic execution of the real functions (Kani to CBMC to SAT): every obligation "
                                   "is decided for all values of the symbolic inputs within the bounds.")
        PROPS[pid] = self

    def harnesses(self, thorough):
        out = {}
        for u, ns in self._k + (self._t if thorough else []):
            out.setdefault(u, []).extend(ns)
        return list(out.items())

    def smt(self, thorough):
        return self._s + (self._st if thorough else [])


FSTD = ["File system: in-memory stand-in (shims/vstd/fs); writes succeed in full unless the harness injects a fault.",
        "Memory safety of safe Rust is not re-checked (--no-memory-safety-checks)."]

Prop("S01", kani=[("datafile", ["datafile_write_first", "datafile_read_first", "datafile_set_len_first", "datafile_refill", "datafile_regrow"])],
     bounds="initial file 0..5 bytes, 3 operations of 5 kinds, transfers up to 3 bytes; read buffer 4, write buffer 3 bytes (16 KiB in the source)",
     assumptions=FSTD)

PK = "read and write buffer 64 bytes (16 KiB in the source), MAX_RECORD_SIZE 8 (16 MiB), files up to 64 bytes, records Option<u8>; "
PKA = FSTD + ["zstd: a stand-in codec (magic, repeat count, bytes); CRC-32 is the real polynomial, computed bitwise.",
              "async functions run without suspension (async/.await taken out of the copy)."]

def pk(*names):
    return [("pack", ["pack_" + n for n in names])]

Prop("S02", kani=pk("append_fetch_a", "append_fetch_b", "append_fetch_c", "append_fetch_za", "append_fetch_zb"),
     bounds=PK + "two records of arbitrary value, plain and compressed, with and without a commit between", assumptions=PKA)
Prop("S03", kani=pk("iters_agree_0", "iters_agree_1", "iters_agree_2", "iters_agree_torn", "iters_agree_body", "iters_agree_huge", "iters_agree_z", "iters_agree_zbomb"),
     bounds=PK + "arbitrary bytes after the header, 3 to 13 of them, with claimed lengths 0, 1, 2, 4, 5 and 2^24", assumptions=PKA)
Prop("S04", kani=pk("crash_0", "crash_2", "crash_4", "crash_5", "crash_8", "crash_9", "crash_10"),
     bounds=PK + "two records of arbitrary value, a commit between, every kind of cut of the second", assumptions=PKA)
Prop("S05", kani=pk("corruption_4", "corruption_5", "corruption_6", "corruption_z4", "corruption_z6", "corruption_z8"),
     bounds=PK + "every non-zero pattern over any four neighbouring bytes of a record's contents and checksum", assumptions=PKA)
Prop("S06", kani=pk("header_gate"), bounds=PK + "all versions, epochs 0..255, type, application number, compression and checksum bytes", assumptions=PKA)
Prop("S07", kani=[("packfull", ["pack_failed_latch_0", "pack_failed_latch_3", "pack_failed_latch_7"])],
     bounds=PK + "write buffer 8; the disk takes 0, 3 or 7 more bytes", assumptions=PKA)
Prop("S08", kani=pk("bounded_fetch", "bounded_size", "bounded_iter", "bounded_async", "bounded_bomb", "bounded_bomb_max", "bounded_frame", "bounded_ranges"),
     bounds=PK + "any claimed length for the iterators; limit+1 and 2^32-1 for fetch; any raw range", assumptions=PKA)

PX = "three items at most, u64 and pairs of u64; "
Prop("S09", kani=[("posidx", ["posidx_save_load", "posidx_save_reload", "posidx_pairs", "posidx_wrong_key", "posidx_iters", "posidx_iters_reopened"] + [f"posidx_truncate_{x}" for x in (0, 1, 2, 3, 4, "all")])],
     bounds=PX + "every key for a lookup, iterators over 0 to 4 of 3 items, truncation to keys 0 to 4 and to nothing; buffers of 64 bytes", assumptions=FSTD)
Prop("S10", kani=[("posidx", ["posidx_gate", "posidx_other_pack", "posidx_field_type", "posidx_field_version", "posidx_field_uid", "posidx_field_app", "posidx_torn_0", "posidx_torn_1", "posidx_torn_7", "posidx_torn_not", "posidx_empty_ro"])],
     bounds=PX + "every change of one header field with a matching checksum, every burst of 32 bits, every version, epochs 0..255, tails of 0, 1, 5 and 7 bytes", assumptions=FSTD)
HX = "one bucket at first, 2 elements per bucket, 2 cached buckets, Bloom filter of 8 bytes, 8-byte keys (1000, 32, 400000, 2 MiB and 32 in the source); "
HXA = FSTD + ["Hasher: the index is instantiated with a stable hasher whose hash is the key's first byte, so that the harness chooses the buckets.",
              "Except where damage is decided, the checksum is one of the length only (crc.rs is decided by itself under S13)."]
Prop("S11", kani=[("hdx", ["hdx_one", "hdx_overflow", "hdx_again", "hdx_shadowed", "hdx_reopened", "hdx_reopened_overflow", "hdx_split_overflow", "hdx_stranger", "hdx_dropped", "hdx_synced"])],
     bounds=HX + "up to 5 saves of fixed keys, all positions, a reopen in between", assumptions=HXA)
Prop("S12", kani=[("hdx", ["hdx_reader", "hdx_damaged_overflow"]),
                  ("hdxcrc", ["hdx_header_" + x for x in ("h0", "h8", "h26", "h40", "h64", "o0", "o9", "o22")] + ["hdx_field_" + x for x in ("type", "version", "uid", "app", "geometry", "salt", "otype", "oversion", "ouid", "oapp")] + ["hdx_other_pack", "hdx_other_hasher"])],
     bounds=HX + "every change of one field of either header with a matching checksum, bursts of 32 bits at 8 places, every version, epochs 0..255", assumptions=HXA)
Prop("S13", kani=[("bloom", ["bloom_no_false_negative", "bloom_reloaded", "bloom_size", "crc_detects", "crc_keeps"])],
     bounds="Bloom filter of 64 bytes (2 MiB in the source), all pairs of 256-bit digests; buffers of 6 to 10 bytes, all bursts of up to 32 bits", assumptions=["CRC-32 is the real polynomial, computed bitwise."])

TA = ["std collections: array-backed stand-ins (shims/vstd/collections); identifiers and keys are 2- and 1-byte stand-ins; the hash is a stand-in without collisions."]
Prop("T01", kani=[("types", ["committee_thresholds_small", "committee_thresholds_mid", "committee_thresholds_large", "committee_thresholds_larger", "committee_threshold_all"])],
     bounds="committees built with 2 to 7, 10 and 13 members, every voting power; the closed form for every size below 2^20", assumptions=TA)
Prop("T02", kani=[("types", ["committee_lookup_a", "committee_lookup_b", "committee_lists", "committee_equal", "committee_unequal", "committee_bootstrap"])],
     bounds="committees of 2 and 3 members, fixed keys in sorted and unsorted order; the key asked for, addresses and epochs arbitrary bytes", assumptions=TA)
Prop("T03", kani=[("types", ["reputation_order", "reputation_sums"])],
     bounds="three authorities, all 8-bit scores; two updates of all 32-bit amounts for members and strangers", assumptions=TA)
Prop("T04", kani=[("types", ["committee_rpc"])], bounds="URLs of every length, six schemes", assumptions=["The url crate: a URL is its length and its scheme."])

CA = ["BLS (blst): ideal signatures (shims/blst): a signature is the list of (key, message) it sums, possibly with a component outside the group; keys are valid, outside the group or infinity.",
      "eyre, bs58 and libp2p identities: stand-ins; bcs is the real crate without the text of its errors."]
Prop("C01", kani=[("crypto", ["crypto_intent_bytes", "crypto_intent_distinct", "crypto_intent_default", "crypto_intent_decode"])],
     bounds="all scopes and applications, 16- and 32-bit values, all three-byte strings", assumptions=CA)
Prop("C02", kani=[("crypto", ["crypto_verify", "crypto_verify_raw", "crypto_verify_infinity"])],
     bounds="all intents, keys (256), 16-bit values, messages of 2 and 3 bytes", assumptions=CA)
Prop("C03", kani=[("crypto", ["crypto_aggregate_1", "crypto_aggregate_2", "crypto_aggregate_outside", "crypto_aggregate_refuse"])],
     bounds="aggregates of one and two signatures, one or two keys, all intents, 8-bit values", assumptions=CA)
Prop("C04", kani=[("cryptobig", ["encoding_pop_message", "encoding_pop_verify", "encoding_network_pop"])],
     bounds="all keys of the ideal scheme, all addresses (two symbolic bytes for verification), 16-bit genesis values", assumptions=CA)
Prop("C05", kani=[("cryptobig", ["encoding_key_screen", "encoding_key_literal_96", "encoding_key_literal_192", "encoding_key_order", "encoding_key_codec", "encoding_key_codec_short",
                                 "encoding_sig_codec", "encoding_digest_codec", "encoding_digest_codec_2", "encoding_digest_codec_4", "encoding_digest_text_2", "encoding_digest_text_3", "encoding_digest_text_4"])],
     bounds="encodings with two to four symbolic bytes; digests of 3 bytes from 2 to 4", assumptions=CA)

NA = ["tokio channels, parking_lot: stand-ins (shims/tokio, shims/parking_lot); a second thread's operation runs at one event (lock taken or released, channel operation) of the first's."]
def nr(*names):
    return ["notify_read_" + n for n in names]
Prop("N01", kani=[("sync", ["notifier_waits", "notifier_waits_fresh", "notifier_polls", "notifier_shut_waits", "notifier_shut_polls"] + [f"notifier_{f}_{i}" for f in ("subs", "shut_subs") for i in range(8)] + [f"notifier_shut_fresh_{i}" for i in range(9)])],
     bounds="two subscribers and a third that comes later; the other thread's poll, subscription or notification at any event of the first's operation", assumptions=NA)
Prop("N02", kani=[("sync", nr("same", "shards", "none", *(f"drop_race_{i}" for i in range(6)), "register_race_0", *(f"register_race_{i}" for i in (3, 4)), *(f"cleanup_race_{i}" for i in range(5)))),
                  ("syncv", nr("register_race_1", "register_race_2")), ("syncm", nr("one"))],
     bounds="two registrations, all 16-bit values, two shards; a drop, registration or notification by another thread at each event", assumptions=NA)
Prop("N03", kani=[("sync", ["channels_broadcast_fits", "channels_broadcast_lag", "channels_broadcast_nobody", "channels_queue"])],
     bounds="up to four values of 16 bits, broadcast capacity 2, queue capacity 1", assumptions=NA)
Prop("N04", kani=[("sync", ["latch_first", "latch_empty_name"])], bounds="three errors of 32 bits", assumptions=NA)

PB = lambda *n: ["banned_" + x for x in n]
Prop("P01", kani=[("peers", PB("expire", "renew", "renew_evict", "remove", "evict", "one", "zero", "readd", "any_rr", "any_iii", "any_h", "any_one"))],
     bounds="up to five operations on up to three peers, limits 0 to 3, all 8-bit delays and ban times", assumptions=["std collections, time: stand-ins (shims/vstd); the clock moves only between operations."])

KA = ["bincode: the real crate."]
Prop("K01", kani=[("keys", ["keys_u32", "keys_u64", "keys_pair", "keys_digest_round", "keys_round_digest"])],
     bounds="all pairs of keys of five shapes (4 to 8 bytes)", assumptions=KA)
Prop("K02", kani=[("keys", ["keys_value_plain", "keys_value_some", "keys_value_none", "keys_value_list", "keys_canonical_option", "keys_canonical_bool"])],
     bounds="all values of four shapes; all strings of 3 bytes read as two others", assumptions=KA + ["bcs: the real crate without the text of its errors."])
Prop("E01", kani=[("slots", ["slots_nonce"])], bounds="all nonces")

VA = ["Identifiers are one byte, signatures and hashes ideal, a committee is as T01 describes it (shims/tnt); std collections are in-place stand-ins."]
pre = lambda p, *n: [f"{p}_{x}" for x in n]
Prop("V01", kani=[("certs", pre("votes", "quorum", "first", "few", "all", "again", "bad", "bad_again", "stranger", "none", "five", "two_thirds"))],
     bounds="committees of 4 to 6, up to four votes of fixed voters and then any vote", assumptions=VA)
Prop("V02", kani=[("certs", pre("certificate", "made", "made_all", "made_repeat", "made_stranger", "made_few", "verified_3", "verified_4", "verified_5", "received"))],
     bounds="committees of 3 to 5, all bitmaps of six bits, any ideal signature", assumptions=VA)
Prop("V03", kani=[("certs", pre("epoch", "certified_4", "certified_5", "vote", "seed"))],
     bounds="committees of 4 and 5, all bitmaps of six bits, any ideal signature", assumptions=VA)
Prop("V04", kani=[("certs", pre("epoch_committee", "equal", "shrunk", "limit", "below", "three", "grown"))],
     bounds="committees of 3 to 5 out of 8 keys against expected ones of 4 to 7", assumptions=VA)

MIRSMT = "Symbolic execution of rustc's MIR to SMT over integers (z3, cvc5)"
MIREX = "The MIR rustc makes of the function and of the harness is executed symbolically, path by path; every overflow, division, cast and assertion is an SMT query over all integer values (no bound on them)."
Prop("G01", smt=[("penalty", pre("penalty", "value", "bound", "falls", "total"))], bounds="none on the values: all 64-bit limits and amounts", explain=MIREX, technique=MIRSMT)
Prop("G02", smt=[("basefee", pre("base_fee", "formula", "total", "strategy"))], bounds="none on the values: all 64-bit fees, amounts and targets", explain=MIREX, technique=MIRSMT,
     assumptions=["alloy's calc_next_block_base_fee and its constants: copied from its source into the unit."])

SA = ["redb itself: a stand-in that keeps rows sorted by the repository's own KeyWrap::compare, one write transaction at a time on a copy that commit puts in place.",
      "Encodings of keys are those property K01 decides: most significant byte first. Values are one byte.",
      "The struct the ouroboros macro generates for iterators is replaced by one of the same fields."]
SB = "three insertions of any 16-bit keys (equal or not, in any order) and any 8-bit values, any key asked for; "
Prop("D01", kani=[("store", ["store_get", "store_remove", "store_clear", "store_multi"])], bounds=SB + "one removal or clearing, two tables", assumptions=SA)
Prop("D02", kani=[("store", ["store_iter", "store_reverse", "store_skip", "store_prior"])], bounds=SB, assumptions=SA)
Prop("D03", kani=[("store", ["store_txn", "store_txn_clear"])], bounds=SB + "one transaction with an insertion and a removal, or a clearing and an insertion", assumptions=SA)

LA = ["The physical store and the memory store: stand-ins that keep rows and fail as planned (a write, or a commit); beginning a transaction does not fail.",
      "The mpsc and oneshot channels and the thread: stand-ins; the background thread runs to the end of what was sent each time it is waited for, in the order sent."]
Prop("D04", kani=[("layered", pre("layered", "bare", "txn", "overlap", "abandon", "left_open"))],
     bounds="two rows, two barriers, up to two transactions (nested, dropped, left open); any of the first writes and commits fails", assumptions=LA)
Prop("D05", kani=[("layered", pre("layered", "cache_bare", "cache_txn_none", "cache_txn_first", "cache_txn_second", "cache_txn_commit", "cache_again_commit", "cache_again_insert", "cache_again_late"))],
     bounds="two rows of different keys, one or two transactions one after the other, each of the four places a write or commit fails", assumptions=LA)
