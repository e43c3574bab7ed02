"""The properties: what must hold, and where it is anchored."""

ALL = []


def P(pid, title, statement, over, text, why, files, mech, na=None, note=""):
    ALL.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                    mech=mech, na=na, note=note))


A = "crates/storage/src/archive/"

P("S01", "A data file behaves as an append-only byte array under every mix of calls",
  "Whatever sequence of reads, seeks, writes, flushes and truncations a data file sees, every read returns exactly the bytes "
  "most recently written at that position, whether they are still buffered or already on disk. Writes always go to the end, "
  "the reported length counts buffered bytes, and a flush leaves nothing only in memory.",
  ["histories", "inputs"], "every sequence of three operations (write, read, seek+read, flush, set_len), all bytes, all positions, "
  "files that start with 0 to 5 bytes, buffers smaller than the data",
  "Read and write buffering interact per operation order; tests use a few fixed orders and data far smaller than the 16 KiB buffers.",
  [A + "data_file.rs"], [dict(name="read buffer, write buffer and their hand-over", where=A + "data_file.rs")])
P("S02", "Every appended record reads back identical at the position append returned",
  "A record appended to a pack is returned unchanged by a fetch at the position the append gave, immediately, after a commit, "
  "and after the file is reopened, plain or compressed. Iterating a pack yields exactly the appended records in order and then "
  "ends, and a commit makes all of them durable.",
  ["inputs", "histories"], "all record values within two sizes, both compressions, with and without a commit between two appends",
  "Tests append fixed strings; buffering, framing and compression combine with where a record falls in the buffers.",
  [A + "pack.rs", A + "pack_iter.rs", A + "data_file.rs", "crates/types/src/codec.rs"],
  [dict(name="record framing", where=A + "pack.rs"), dict(name="record reader", where=A + "pack_iter.rs")])
P("S03", "Fetch, the file iterator and the stream iterator agree on any bytes",
  "For whatever bytes follow a pack's header, fetching, iterating over the file and iterating over a stream from a peer give "
  "the same record or all fail, with the same kind of error from both iterators, without panicking. A record is given out only "
  "if it lies wholly within the bytes and carries the checksum of its length and contents; the end is reported only where "
  "no further record's length can be read.",
  ["inputs"], "all bytes after the header (3 to 13 of them) for several claimed lengths, streams that deliver in small pieces",
  "Two hand-written readers of one format; tests feed both only well-formed files.",
  [A + "pack.rs", A + "pack_iter.rs"], [dict(name="sync and async record readers", where=A + "pack_iter.rs")])
P("S04", "After a crash a pack keeps all committed records and gives out no torn one",
  "After a crash that keeps the committed bytes and any part of what was written later, every committed record is still "
  "readable and an incompletely written record is never given out. Truncating to the last good position and appending again "
  "gives a log that reads back as if the crash had not happened.",
  ["crash_points", "inputs"], "all record values, the crash at every kind of byte offset in the uncommitted record",
  "Tests crash nowhere, or at one byte; the torn tail can end in the length, the contents or the checksum.",
  [A + "pack.rs", A + "data_file.rs"], [dict(name="commit (flush, sync)", where=A + "pack.rs"), dict(name="truncate", where=A + "pack.rs")])
P("S05", "A damaged record is never returned as data",
  "If any burst of up to four adjacent bytes within a record's contents or checksum is altered on disk, a fetch of the record "
  "fails, its size query fails and iteration reports an error at it, while other records stay readable. This holds for plain "
  "and compressed records.",
  ["fault_sequences", "inputs"], "all record values, every non-zero alteration of any four adjacent bytes",
  "Tests flip one bit of one record; CRC coverage must be over the whole frame for all values.",
  [A + "pack.rs", A + "crc.rs", A + "pack_iter.rs"], [dict(name="CRC over length and contents", where=A + "crc.rs")])
P("S06", "A pack opens only for its own epoch, type, version and intact header",
  "A file opens as a pack, for reading, writing or streaming, only if its header is intact and has the expected type, epoch, "
  "application number and a known compression; a header with a version newer than the caller supports is refused on "
  "opening for use. An accepted file reports the version as written and opening adds nothing to it.",
  ["inputs", "configurations"], "all versions, epochs 0 to 255, all type, application and compression bytes, any checksum damage",
  "Tests try one wrong epoch; acceptance is a conjunction over all header fields.",
  [A + "pack.rs", A + "pack_iter.rs"], [dict(name="header check on open", where=A + "pack.rs")])
P("S07", "After a failed append a pack writes nothing more and repeats the first cause",
  "When an append fails part-way (the disk is full), every later append and commit fails with that same first cause and "
  "writes nothing, even once there is room again. What was committed before stays readable.",
  ["fault_sequences"], "all record values, the disk filling up at several byte offsets of the record",
  "Tests have no failing disk.", [A + "pack.rs", A + "data_file.rs"], [dict(name="failed latch", where=A + "pack.rs")])
P("S08", "Reading a hostile file never allocates beyond the limits",
  "Whatever length a record claims, reading it never reserves memory beyond the record limit or the file's buffers, a record "
  "that claims more than the limit is refused for its size, and a small compressed frame cannot expand beyond the limit. "
  "Raw reads give exactly the bytes of ranges within the file and refuse every other range without reserving memory for it.",
  ["inputs"], "every claimed length, every expansion factor of a frame, every raw range",
  "Sizes come from an untrusted peer; tests use sizes that fit.", [A + "pack.rs", A + "pack_iter.rs"],
  [dict(name="size limits before allocation", where=A + "pack_iter.rs"), dict(name="bounded decompression", where=A + "pack_iter.rs")])

TY = "crates/types/src/"
CR = TY + "crypto/"
P("S09", "A position index gives back the value saved under each key, in order",
  "A position index takes a value only under the next key and returns exactly it for every key below its length and nothing for "
  "others, before and after a reopen. Its iterators give the first, or from the end the last, items up to the number asked for, "
  "in order. Truncating to a key keeps that key and all below, and does nothing beyond the end.",
  ["inputs", "histories"], "all values and lookup keys, up to three items, truncation at every key, iterators of every length, with and without a reopen",
  "Tests save i*100 under i; stride, header offset and truncation boundaries can be off for other lengths.",
  [A + "position_index/index.rs", A + "data_file.rs"], [dict(name="fixed-stride index", where=A + "position_index/index.rs")])
P("S10", "A position index opens only for its own pack, and never misaligned",
  "A position index opens only with an intact header of the expected type, version, application number and uid. A tail that is not "
  "a whole item is dropped when opening for writing, so that later items stay aligned, and refused when opening read-only; "
  "a reader refuses an empty file.",
  ["inputs", "crash_points"], "every single-field change of the header, every 32-bit burst, every version, torn tails of several lengths",
  "Acceptance is a conjunction over header fields, and the torn tail only follows a crash.",
  [A + "position_index/index.rs"], [dict(name="header and geometry check on open", where=A + "position_index/index.rs")])
P("S11", "A digest index finds every saved digest at the position saved last",
  "Whatever digests are saved in whatever order, looking one up gives the position saved last under it, through bucket splits, "
  "overflow records, cache eviction and reopening, and a digest never saved is not found. A sync makes all of it durable, and an index "
  "dropped without one writes itself out.",
  ["histories", "inputs"], "all positions, fixed sequences of up to five digests that force splits, overflows, shadowing and eviction",
  "Splitting, overflow chains, shadowing and eviction interact; tests insert many distinct digests and check counts and lookups.",
  [A + "digest_index/index.rs", A + "digest_index/bucket_iter.rs", A + "digest_index/bloom.rs"],
  [dict(name="linear hashing with an overflow log", where=A + "digest_index/index.rs")])
P("S12", "A digest index opens only for its own pack and reports damage",
  "Both files of a digest index open only with intact headers of the expected type, version, application number and uid, the "
  "bucket geometry of this binary and the hasher it was made with. A reader can save and sync nothing. A damaged overflow "
  "record gives an error, never a position or a plain not-found.",
  ["inputs", "fault_sequences"], "every single-field change of either header, 32-bit bursts, every version, damaged overflow records",
  "Acceptance is a conjunction over two headers; tests damage one byte.",
  [A + "digest_index/index.rs", A + "digest_index/odx_header.rs", A + "digest_index/bucket_iter.rs"],
  [dict(name="header checks on open", where=A + "digest_index/index.rs"), dict(name="overflow iteration", where=A + "digest_index/bucket_iter.rs")])
P("S13", "The Bloom filter has no false negatives and checksums see short bursts",
  "A digest added to the Bloom filter is contained from then on, also in a filter loaded from its bytes; only exactly the filter's "
  "size loads. A stamped buffer passes its checksum check, one with any change within four adjacent bytes fails, stamping leaves "
  "the contents alone, and a buffer too short to hold a checksum never passes.",
  ["inputs"], "all pairs of digests, all contents of small buffers, all bursts of up to 32 bits",
  "A false negative hides a stored record; it depends on the digest's bits.",
  [A + "digest_index/bloom.rs", A + "crc.rs"], [dict(name="Bloom filter", where=A + "digest_index/bloom.rs"), dict(name="CRC-32", where=A + "crc.rs")])

P("T01", "Quorum and validity thresholds are the byzantine ones for every committee",
  "For a committee of n members with f = (n-1)/3 (rounded down), the quorum threshold is exactly n - f and the validity threshold exactly "
  "f + 1: two quorums share an honest member and the honest members alone reach a quorum. A voting power reaches a quorum or "
  "validity exactly from its threshold on, and the free quorum function agrees with the committee.",
  ["inputs", "configurations"], "committees of 2 to 7, 10 and 13 members and every voting power; the free function for all sizes below 2^20",
  "Agreement rests on quorum intersection for every size; tests use committees of four.",
  [TY + "committee.rs"], [dict(name="threshold calculation", where=TY + "committee.rs")])
P("T02", "A committee finds exactly its members, by key and by identifier alike",
  "A member is found by its key and by the identifier derived from the key, with its own execution address and one vote; everyone else is "
  "not found and has no vote. The lists of authorities, keys and others hold each member exactly once, in identifier or key order and without "
  "the caller. A key added twice counts once, with the last address; bootstrap servers are found by key but are not members. Two committees are "
  "equal exactly if their epoch, keys and addresses are.",
  ["inputs", "histories"], "committees of 2 and 3 members in several orders of addition, every key asked for, all addresses and epochs",
  "The two indexes must agree for any keys and insertion order; tests look up members in one order.",
  [TY + "committee.rs"], [dict(name="key and identifier indexes", where=TY + "committee.rs")])
P("T03", "Reputation scores add up and rank authorities in one total order",
  "An authority's score is the sum of all that was added for it, starting from zero for every committee member and also for one that was not listed "
  "before. The ranking lists every authority once with its score, by score descending and among equal scores by identifier descending; the scores are all zero "
  "exactly if nothing positive was added.",
  ["inputs", "histories"], "all 8-bit scores of three authorities, all 32-bit amounts of two updates for members and strangers",
  "The leader schedule is derived from this order on every node; ties and strangers are rare in tests.",
  [TY + "primary/reputation.rs"], [dict(name="score update and ranking", where=TY + "primary/reputation.rs")])
P("T04", "An advertised RPC endpoint is accepted only with its own scheme and length",
  "RPC information is valid exactly if its http endpoint has the scheme http or https, its ws endpoint (if any) has the scheme ws or wss, and neither URL is longer than "
  "2048 bytes.",
  ["inputs"], "URLs of every length and six schemes, with and without a ws endpoint",
  "The records come from untrusted peers; boundary lengths and scheme mixes are not all tested.",
  [TY + "committee.rs"], [dict(name="RpcInfo::validate", where=TY + "committee.rs")])
P("C01", "What is signed for one purpose is never a message of another purpose",
  "A signed message is encoded as three bytes, scope, version and application, followed by exactly the encoding of its value, so that two messages are equal only if "
  "both their intents and their values are. Consensus digests are wrapped with the consensus application and digest scope. Only known scopes, versions and "
  "applications decode.",
  ["inputs"], "all scopes and applications, 16- and 32-bit values, all three-byte prefixes",
  "Domain separation is about all pairs of messages; tests sign one kind.",
  [CR + "intent.rs", CR + "mod.rs"], [dict(name="Intent, IntentMessage", where=CR + "intent.rs")])
P("C02", "A signature verifies for its own key, purpose and message only",
  "Every way to verify a single signature accepts exactly if the key is a valid key (in its group, not infinity), the signature is a point of its group, and it was made "
  "with that key for that intent and value, or for those bytes. The default (infinity) signature verifies nothing.",
  ["inputs"], "all keys, intents and values of an ideal signature scheme, including points outside the groups and infinity",
  "Verification flags (group checks, key validation) matter only for malformed points that tests never make.",
  [CR + "bls_signature.rs"], [dict(name="verify_secure, verify_raw, bls_verify_secure, verify_secure_bytes", where=CR + "bls_signature.rs")])
P("C03", "An aggregate signature verifies only for exactly the keys that signed",
  "An aggregate verifies for a list of keys and a message exactly if it is the sum of one signature of that very message by each of these keys, all valid. It never verifies "
  "for an empty list, for another purpose, or with a component outside the group, and checked aggregation refuses such a component and an empty input.",
  ["inputs"], "aggregates of one and two signatures against zero to two keys, all intents and values of an ideal scheme",
  "Certificates and epoch records rest on this for every subset; tests verify one honest aggregate.",
  [CR + "bls_signature.rs"], [dict(name="BlsAggregateSignature", where=CR + "bls_signature.rs")])
P("C04", "A proof of possession is bound to its key and address, or genesis",
  "The validator's proof of possession message is exactly three zero bytes, the 96-byte compressed key and the 20-byte address; the proof verifies exactly for a valid key and address that signed it. "
  "A network proof of possession signs the proof-of-possession purpose, the key and the genesis, and verifies exactly for that key and genesis.",
  ["inputs"], "all keys and addresses (20 arbitrary bytes in the message), points outside the groups, all 16-bit genesis values",
  "The layout is rebuilt on-chain and must hold for all keys; tests try one wrong key and address.",
  [CR + "bls_signature.rs", CR + "network.rs"], [dict(name="construct_proof_of_possession_message", where=CR + "bls_signature.rs"),
  dict(name="generate_proof_of_possession_network", where=CR + "network.rs")])
P("C05", "Keys, signatures and digests decode only from their exact encoding",
  "The length screen passes exactly 96 and 192 bytes; a key parses exactly if it is a point, and keeps the compressed bytes; equality and order of keys are those of the compressed bytes. "
  "Keys and signatures encode as their length and bytes and decode back to the same; digests decode, in binary and as text, only from exactly their own number of bytes.",
  ["inputs"], "lengths around the right one and arbitrary leading and trailing bytes",
  "Lenient decoding shows only on malformed input of the right shape.",
  [CR + "bls_public_key.rs", CR + "bls_signature.rs", CR + "mod.rs"], [dict(name="serde implementations", where=CR + "mod.rs")])

P("N01", "A notification reaches everyone who subscribed before it",
  "When a notification returns, everyone who subscribed before it is noticed and ready, and a task that was waiting, with whatever waker it polled last, has been woken; nobody is noticed before a notification. "
  "A subscription made after a plain notification waits for the next one; one made during or after a shutdown notification is noticed.",
  ["schedules"], "every place in a notification at which another task polls or subscribes, and every place in a poll at which another task notifies",
  "A lost wake-up needs a poll or subscription exactly between two steps of the notification; tests run the tasks one after the other.",
  [TY + "notifier.rs"], [dict(name="Notifier, ShutdownNotifier and Noticer", where=TY + "notifier.rs")])
P("N02", "Every registration for a key is fulfilled and counted while it is pending",
  "A notification for a key gives its value to every registration for that key made before it, wakes the ones that wait, and touches no other key; a registration made meanwhile gets it or the next one. "
  "The number of pending registrations is exactly the number neither fulfilled nor dropped, whichever way drops and notifications cross, and nothing is kept of the others.",
  ["schedules", "histories"], "two registrations on equal and different keys, all values, a drop, registration or notification at every step of another's",
  "The pending count and the clean-up race with notifications; tests do one after the other.",
  ["crates/tn-utils/src/notify_read.rs"], [dict(name="NotifyRead and Registration", where="crates/tn-utils/src/notify_read.rs")])
P("N03", "The channel wrappers lose nothing and end only when the senders are gone",
  "Through the channel traits a value sent is received once and in order. A broadcast receiver that lagged goes on with the oldest value still held and ends only when all senders are gone; sending to nobody succeeds. "
  "A full or closed queue gives the value back, and empty, disconnected and lagged are told apart.",
  ["histories", "inputs"], "all values of up to four sends over a broadcast channel for two and a queue for one, open and closed",
  "Lag, closing and full queues combine; tests cover a lag and a close.",
  [TY + "sync.rs"], [dict(name="TnSender, TnReceiver and their errors", where=TY + "sync.rs")])
P("N04", "The first error latched is the one that stays",
  "Of several errors latched into one slot the first stays, readers are told of it once, and later ones change nothing.",
  ["histories"], "three errors of arbitrary value", "The latch must hold for every later error.",
  ["crates/storage/src/error_latch.rs"], [dict(name="latch_first_error", where="crates/storage/src/error_latch.rs")])

P("P01", "A temporarily banned peer stays banned for its time and no longer",
  "The cache of temporarily banned peers holds exactly the peers put in, each from its last insertion until it is removed, expires or makes room. An insertion tells whether the peer is new and which peer, "
  "the oldest, made room; a heartbeat gives up exactly the peers whose time has passed, oldest first; there are never more peers than allowed (at least one).",
  ["histories"], "every sequence of the listed shapes with all delays and ban times, limits 0 to 3",
  "Renewal, eviction and expiry interact over histories; tests use one order each.",
  ["crates/network-libp2p/src/peers/cache.rs"], [dict(name="BannedPeerCache", where="crates/network-libp2p/src/peers/cache.rs")])
P("K01", "Database keys sort like the values they encode",
  "A key encodes to a fixed number of bytes for its type, the bytes compare as the values do (whole numbers and tuples with digests alike), decoding gives the value back, and a key with a byte missing or too many does not decode.",
  ["inputs"], "all pairs of keys of five shapes", "Range scans by round and epoch rely on the order for every pair; tests compare a few.",
  [TY + "codec.rs"], [dict(name="encode_key, decode_key, try_decode_key", where=TY + "codec.rs")])
P("K02", "A value has one encoding, and only that decodes",
  "Encoding into a new buffer, into a given buffer and the announced size agree; decoding gives the value back; bytes with one missing or one too many, or that are not the encoding of any value, do not decode.",
  ["inputs"], "all values of four shapes, all strings of three bytes as two others", "Digests are taken of the encoding, so a second encoding of one value splits the network; tests round-trip samples.",
  [TY + "codec.rs"], [dict(name="encode, encode_into_buffer, encoded_size, decode, try_decode", where=TY + "codec.rs")])
P("E01", "A block's nonce gives back its epoch and its round",
  "The nonce holds the epoch in its upper and the round in its lower 32 bits; taking it apart gives exactly these, for every nonce.",
  ["inputs"], "all 64-bit nonces", "Recovery reads the position from the nonce for all epochs and rounds.",
  [TY + "helpers.rs"], [dict(name="deconstruct_nonce", where=TY + "helpers.rs")])

PR = TY + "primary/"
P("V01", "Votes become a certificate exactly at a quorum of distinct members",
  "A vote counts exactly if it is the author's first, the author is a committee member, and it carries that member's signature of this very header. A certificate is formed exactly when the votes that count "
  "reach the quorum, is of this header, names exactly the members whose votes counted, and verifies.",
  ["inputs", "histories"], "any vote (author, digest, signature) after any of the listed sequences of votes in committees of four to six",
  "Safety of the whole protocol rests on it for every vote a peer can send; tests send well-formed ones.",
  ["crates/consensus/primary/src/aggregators/votes.rs", PR + "certificate.rs"], [dict(name="VotesAggregator::append", where="crates/consensus/primary/src/aggregators/votes.rs")])
P("V02", "A certificate verifies exactly with a quorum's signature over its header",
  "A certificate is made of votes exactly if members holding a quorum are among them, and names exactly those. Whatever a certificate says of itself, it verifies exactly if its signature is the aggregate of the "
  "signatures of the members it names, a quorum, over its header; one that a peer sent is not taken as verified until then, must be of the committee's epoch and have a valid header, and cannot claim to be genesis unless it equals a genesis certificate.",
  ["inputs"], "every bitmap, every claimed state, every ideal signature, every epoch of 8 bits",
  "A forged bitmap or state must fail for every combination; tests forge one field at a time.",
  [PR + "certificate.rs"], [dict(name="new_unverified, verify_cert, validate_and_verify, validate_fetched_certificate", where=PR + "certificate.rs")])
P("V03", "An epoch record is certified exactly by over two thirds of its committee",
  "An epoch record with a certificate verifies exactly if the certificate is for that record's digest and carries the aggregate signature of more than two thirds of the record's committee, as the bitmap names them. "
  "A vote on a record is good exactly with the signature of the key it names, made for this purpose; a seed contribution verifies exactly for its own key, epoch, round and prior record.",
  ["inputs"], "every record of that shape, every bitmap, every ideal signature",
  "A node that syncs trusts these checks for whatever it is sent.",
  [PR + "epoch.rs"], [dict(name="verify_with_cert, check_signature, EpochSeedMessage::verify", where=PR + "epoch.rs")])
P("V04", "A next committee is accepted only if it is the expected one or most of it",
  "A record's committee is compatible with the expected keys exactly if it is all of them, or some of them without repetition and without others, that are at least four and at least two thirds.",
  ["inputs"], "all committees of three to five of eight keys, against expected sets of four to seven",
  "Off-by-one in the two-thirds rule shows at one size only.",
  [PR + "epoch.rs"], [dict(name="committee_compatible", where=PR + "epoch.rs")])

P("G01", "The gas penalty is the documented formula for every limit and use",
  "The penalty is nothing for gas limits up to 210000 and from a tenth of the limit used on; below it is ((10^8 - 10^9*used/limit)^2 * unused) / 10^16, each division rounding down. "
  "It never exceeds the unused gas, never rises with more gas used at the same limit, and is computed without overflow for every pair of values.",
  ["inputs"], "all 64-bit gas limits and amounts of gas used", "It changes balances, so every node must get the same for every value; tests check a table.",
  ["crates/tn-reth/src/evm/utils.rs"], [dict(name="calculate_gas_penalty", where="crates/tn-reth/src/evm/utils.rs")])
P("G02", "The next base fee moves by at most an eighth and never below the minimum",
  "The next epoch's base fee is the EIP-1559 formula over the epoch's gas and target (elasticity 2, denominator 8): at least 1 up above the target, down or equal below it, by at most an eighth of the fee, never below 7, "
  "without overflow for every value; without a target it stays, and a fixed fee is exactly what governance set.",
  ["inputs"], "all 64-bit fees, amounts of gas and targets", "A wrapped fee is a consensus value every node agrees on; tests try the edges they think of.",
  [TY + "gas_accumulator.rs"], [dict(name="compute_next_base_fee_eip1559, next_base_fee_for_config", where=TY + "gas_accumulator.rs")])

RD = "crates/storage/src/redb/"
DT = "crates/types/src/database_traits.rs"
P("D01", "The store gives back what was last inserted under a key, table by table",
  "In the redb store, get returns the value last inserted under exactly that key or nothing, contains_key agrees with it, multi_get gives each key's answer in the order asked, "
  "remove takes away its key only, and clear_table empties its own table only, which takes rows again afterwards. A table is empty exactly when it has no rows, and opening a table again keeps them.",
  ["inputs", "histories"], "all keys and values of three insertions, every key asked for or removed",
  "A map's behaviour has to hold for every combination of keys; tests use a few ascending ones.",
  [RD + "database.rs", RD + "wraps.rs", DT], [dict(name="ReDB, ReDbTxMut", where=RD + "database.rs")])
P("D02", "Iterating the store visits every row once, in key order",
  "iter gives every row of the table exactly once in ascending key order and reverse_iter the same in descending order; skip_to gives exactly the rows at or after a key; "
  "record_prior_to gives the last row strictly before a key and nothing if there is none; last_record gives the row with the largest key.",
  ["inputs", "histories"], "all keys and values of three insertions in any order, every key asked for",
  "Recovery and garbage collection walk these iterators; off-by-one at an existing key shows for particular keys only.",
  [RD + "database.rs", RD + "wraps.rs"], [dict(name="iter, skip_to, reverse_iter, record_prior_to, last_record", where=RD + "database.rs")])
P("D03", "A store transaction is seen by itself at once and by others all at once",
  "A write transaction of the redb store reads its own insertions, removals and clearings; nobody else sees any of them before the commit and everybody all of them after it; "
  "dropped without a commit it leaves nothing. A read transaction keeps seeing the store as it was when it began.",
  ["histories", "inputs"], "all keys and values, a commit or a drop, reads before, during and after",
  "Atomicity is about what is seen between the steps; tests read after the last one.",
  [RD + "database.rs"], [dict(name="ReDbTx, ReDbTxMut", where=RD + "database.rs")])
LY = "crates/storage/src/layered_db.rs"
P("D04", "The durability barrier answers yes only when what went before is on disk",
  "LayeredDatabase::persist answers success only if every row inserted before it was called is in the physical store, committed. While a write transaction is open (also one of several begun, or one dropped without a commit) "
  "it waits for the transaction's end and then answers. After any write to or commit of the physical store has failed, no later persist answers success; and it fails only after such a failure.",
  ["histories", "faults", "schedules"], "rows inserted bare and in transactions, nested, dropped and left open, failure of any one write or commit, the barriers polled after every message",
  "Certificates are only sent after this barrier; a failure or an open transaction has to meet it at the right moment for a wrong yes.",
  [LY], [dict(name="db_run, end_txn, persist", where=LY)])
P("D05", "A row handed to the layered store can be read from then on, whatever fails",
  "A row inserted once into a LayeredDatabase and not removed is returned by get at every moment from its insertion on, while the background thread writes, commits and clears its mirror in memory, "
  "also if the physical write or the commit fails, and also if a later transaction commits. If nothing fails, every row is on disk when all messages are dealt with and no transaction is open.",
  ["histories", "faults", "schedules"], "cache mode, rows inserted bare and in one or two transactions, any one write or commit failing, every row read after every message",
  "The window between clearing the mirror and the row being on disk shows only after a failed write or commit at one particular place.",
  [LY], [dict(name="db_run, end_txn, clear_insert_mem", where=LY)])
