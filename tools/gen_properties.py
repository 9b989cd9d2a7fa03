#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": hook}})

LIB, HS, FS, IO, FU = ("protocol/src/lib.rs", "protocol/src/handshake.rs",
                       "protocol/src/fschacha20poly1305.rs", "protocol/src/io.rs", "protocol/src/futures.rs")
TL, TI, TF = "traffic/src/lib.rs", "traffic/src/io.rs", "traffic/src/futures.rs"

prop("C01", "Honest peers agree on a session and deliver everything in order",
 "Two honest endpoints with complementary roles and the same network magic always complete the handshake, whatever legal garbage and decoys each side sends (unless a public key happens to start with the network magic, which reads as a V1 peer), and end with the same session id and complementary keys. Afterwards every payload written on one side is read on the other exactly once, in order, with the same contents and the same genuine/decoy marking, in both directions independently and for any number of packets.",
 ["inputs", "histories", "configurations"],
 "All roles, magics, ephemeral keys, garbage lengths 0..4095, decoy lists, and all interleaved histories of packets in the two directions.",
 "The tests run a handful of fixed handshakes with tiny garbage and one or two messages; they never run a handshake with boundary garbage, many decoys, or a two-way history that crosses several re-keys.",
 [HS, LIB, FS, IO, FU],
 [("Handshake typestate machine", HS), ("CipherSession::new role -> cipher assignment", LIB), ("SessionKeyMaterial::from_ecdh", LIB)],
 ["Handshake::*", "CipherSession::{id,inbound,outbound}", "io::Protocol", "futures::Protocol"],
 [("inbound/outbound cipher counters", "packets processed per direction", LIB)])

prop("C02", "Delivered packets are exactly a prefix of what the peer sent",
 "Whatever an attacker does to the encrypted stream after the handshake (flip, drop, duplicate, reorder, truncate, splice or reflect packets back to their sender), the sequence of packets an endpoint accepts is a prefix of the sequence its peer sealed, with unaltered contents, packet type and associated data. A packet is accepted only at its own position, in its own direction, and with exactly the associated data it was sealed with.",
 ["inputs", "histories", "fault_sequences"],
 "All sequences of seal/deliver/tamper/replay/reflect/reorder steps, at any packet position including around re-keys, for every decryption entry point.",
 "No existing test tampers with a packet, replays one, reflects one or presents wrong associated data: every test only decrypts honest packets.",
 [LIB, FS],
 [("AEAD tag check over header, contents and aad", FS), ("counter advances only on success", FS), ("separate keys per direction", LIB)],
 ["InboundCipher::decrypt / decrypt_in_place / decrypt_to_vec", "io::ProtocolReader::read", "futures::ProtocolReader::read"],
 [("message_counter", "position in the stream, selects the nonce", FS)])

prop("C03", "No handshake completes over a modified or mismatched transcript",
 "If any byte the peer sent during the handshake (public key, garbage, terminator, length prefix, decoy or version packet) is altered, removed, reordered or inserted in transit, or the two sides use the same role or different network magics, then the endpoint that received the modified transcript never reports a completed handshake. In particular the garbage is authenticated by the first packet after the terminator, be it a decoy or the version packet, and by that packet only.",
 ["inputs", "fault_sequences", "configurations"],
 "Every modification position in the handshake transcript, any garbage and decoy configuration, every role/magic pairing.",
 "Tests only complete honest handshakes; no test modifies a single transit byte or pairs mismatched roles/magics, so dropping the garbage authentication on both sides is invisible to them.",
 [HS, LIB, IO, FU],
 [("garbage as aad of the first packet", HS), ("network magic in HKDF salt", LIB), ("both public keys in the ECDH hash", LIB)],
 ["Handshake::receive_key", "Handshake::receive_garbage", "Handshake::receive_version", "io::handshake", "futures::handshake"])

prop("C04", "Everything on the wire is BIP-324, interoperable with an independent peer",
 "For every key pair, role, magic, garbage, decoy list and payload, the bytes an endpoint emits are those BIP-324 prescribes (public key and garbage, the role's garbage terminator, packets framed as encrypted 3-byte length, header byte, contents and tag), sealed under the session keys, nonces and associated data BIP-324 prescribes for that position. Symmetrically, everything an independent BIP-324 implementation emits is understood.",
 ["inputs", "histories", "configurations"],
 "All session keys, both roles, all magics, all packet sizes and types, any packet position including past many re-keys.",
 "The BIP vectors in the tests pin six fixed positions of fixed keys and often compare only the tail of a packet, and all other tests run the library against itself, so a change made alike on both sides (length-cipher re-key, late nonce bytes, key labels for one role, aad placement) passes.",
 [LIB, HS, FS],
 [("HKDF expansion labels and salt", LIB), ("packet layout in OutboundCipher::encrypt", LIB), ("FSChaCha20 / FSChaCha20Poly1305 nonces", FS)],
 ["bytes written by Handshake::send_key/send_version, OutboundCipher::encrypt*, Protocol::write", "bytes accepted by the matching readers"])

prop("C05", "Keys rotate every 224 packets and no key/nonce pair is ever reused",
 "In each direction the length cipher and the packet cipher each switch to a fresh key derived from the previous one after exactly 224 packets, for as long as the session lives, and no two packets of a session are ever sealed under the same key and nonce. Sender and receiver stay in step at every packet count, and failed operations never shift, skip or repeat a position.",
 ["histories", "inputs"],
 "Every packet count (unbounded), any mix of packet types, sizes, associated data and failed calls.",
 "Tests reach at most 1,025 packets and compare little of the result after a re-key; counters that wrap or truncate beyond (epoch above 255 or 65535, 2^32 length chunks) are never reached.",
 [FS, LIB],
 [("REKEY_INTERVAL and rekey()", FS), ("nonce derivation from counter", FS), ("block/chunk counters of the length cipher", FS)],
 ["OutboundCipher::encrypt*", "InboundCipher::decrypt_packet_len", "InboundCipher::decrypt*"],
 [("message_counter, chunk_counter, block_counter", "position within and number of key epochs", FS)])

prop("C06", "Garbage terminator search accepts 0..4095 garbage bytes, never more",
 "An endpoint accepts any peer garbage of 0 to 4095 bytes, ending exactly at the first occurrence of the peer's terminator, and reports precisely how many bytes it consumed. Without a terminator it asks for more data while fewer than 4111 bytes are present and fails with the no-terminator error from 4111 bytes on, regardless of what follows; locally, garbage longer than 4095 bytes is refused before anything is sent.",
 ["inputs", "histories"],
 "All garbage lengths and contents (including partial or repeated terminator bytes and terminators straddling the limit), all buffer lengths presented, all sequences of growing buffers.",
 "Tests use 0, 3, 5 and a few hand-picked buffer lengths with all-zero contents; no test has garbage near the limit that is followed by a real terminator, or garbage containing terminator prefixes.",
 [HS, IO, FU],
 [("split_garbage bounded window search", HS), ("send_key length check", HS), ("driver accumulation loop", IO)],
 ["Handshake::receive_garbage", "Handshake::send_key", "io::handshake", "futures::handshake"])

prop("C07", "Results do not depend on how the transport fragments the byte stream",
 "For the blocking and the asynchronous interface alike, the outcome of the handshake and the sequence of packets read afterwards depend only on the bytes received, never on how they are split over reads, on retriable interruptions, or on how much of the following traffic arrives glued to the handshake. No received byte is lost, duplicated or reordered at the handover from handshake to session, including when the session reader is taken out and used directly.",
 ["schedules", "inputs"],
 "All partitions of the incoming byte stream into reads (including one byte at a time and everything at once), all garbage/decoy/packet layouts, both interfaces, both roles.",
 "Tests feed whole buffers or an in-memory duplex with default chunking; one test leaves a single leftover byte. Other cut positions (inside terminator, length, tag, across handshake end) are not exercised.",
 [IO, FU, HS],
 [("ProtocolSessionReader leftover chaining", IO), ("poll_read leftover position", FU), ("garbage accumulation loop", IO)],
 ["io::Protocol::new/read", "futures::Protocol::new/read", "io::handshake + ProtocolSessionReader", "ProtocolReader::into_inner"])

prop("C08", "Cancelling an async read never loses or corrupts data",
 "Dropping a pending asynchronous packet read at any await point and reading again later yields exactly the packets that an uncancelled reader would have produced, in order and unaltered. This holds for any number of cancellations at any byte position, for cancellations between a length prefix and its packet, and for leftover handshake bytes.",
 ["schedules", "histories"],
 "All interleavings of byte arrivals, polls and cancellations over any packet sequence.",
 "No test cancels a read: cancellation points exist only between partial deliveries, which the tests never produce.",
 [FU],
 [("DecryptState kept across await points", FU), ("leftover_pos in ProtocolSessionReader", FU)],
 ["futures::ProtocolReader::read", "futures::Protocol::read", "traffic futures::ShapedProtocolReader::read"],
 [("DecryptState", "bytes of the current length/packet read so far", FU)])

prop("C09", "A refused call changes nothing and the stated buffer sizes are exact",
 "A sealing or opening call that is refused because a buffer is too small, the ciphertext is too short, or authentication fails leaves the session exactly as it was, so that the corrected call then succeeds and both sides remain in step. The size helpers are exact: a buffer of the stated size suffices, one byte less is refused with the required size, and bytes beyond it are left untouched.",
 ["inputs", "histories"],
 "All sequences of failing and succeeding calls with any payload sizes and buffer sizes at any stream position.",
 "Tests never make a call after a failed one; buffer-too-small is tested once, for the key buffer only.",
 [LIB, HS],
 [("capacity checks before any cipher use", LIB), ("packet counter advances only after authentication", FS)],
 ["OutboundCipher::encrypt / encryption_buffer_len", "InboundCipher::decrypt / decryption_buffer_len", "Handshake::send_key(_len) / send_version(_len)"])

prop("C10", "Malformed input yields an error: never a panic, never success",
 "Every operation that takes bytes from the peer (public key, garbage, length, ciphertext of any size including empty, whole streams cut short or filled with arbitrary bytes) returns normally for every input and in every session state, with the documented error when the bytes are not acceptable. A ciphertext shorter than header plus tag is always reported as too small, and arbitrary bytes are never accepted as a packet or a completed handshake.",
 ["inputs", "histories"],
 "All byte strings of all lengths at every entry point and in every protocol state, both interfaces.",
 "Tests try one 16-byte ciphertext on two of three decrypt entry points; the fuzz targets are not run in CI tests and cover only two functions.",
 [LIB, HS, IO, FU],
 [("validate_ciphertext_size", LIB), ("slice length checks before indexing", LIB)],
 ["InboundCipher::*", "Handshake::receive_*", "io::Protocol", "futures::Protocol"])

prop("C11", "Size limits are enforced identically everywhere and never corrupt the stream",
 "A packet whose contents cannot be represented in the 3-byte length is refused when sealing instead of producing an undecodable stream. When receiving with automatic allocation, in the handshake and in both the blocking and the asynchronous session readers, a packet is delivered if its plaintext is within the 4,000,014 byte limit and refused as too big above the limit.",
 ["inputs", "configurations"],
 "All payload sizes from 0 to beyond 2^24, both interfaces, handshake decoys as well as session packets.",
 "Tests check one size one byte above the limit for decrypt_to_vec and for a handshake decoy; sizes at the limit, the session readers, and payloads above 2^24-1 bytes are untested.",
 [LIB, IO, FU],
 [("MAX_PACKET_SIZE_FOR_ALLOCATION checks", LIB), ("3-byte length encoding", LIB)],
 ["OutboundCipher::encrypt", "Protocol::write", "InboundCipher::decrypt_to_vec", "Protocol::read", "io/futures::handshake"])

prop("C12", "V1 peers and transport failures in the handshake are classified correctly",
 "An endpoint reports a V1 peer exactly when the first four bytes it receives equal its own network magic, and then sends nothing beyond its first flight. Transport failures during the handshake are surfaced with their cause at whatever point they strike: peer disconnects (end of stream, reset, abort) suggest retrying with V1, any other transport error suggests aborting, and cryptographic or protocol failures are reported as such.",
 ["inputs", "fault_sequences"],
 "All magics and all first bytes, all transport error kinds injected at every byte position of the incoming and outgoing handshake streams, both interfaces.",
 "Tests cover two magics on the sans-IO machine; no test injects a transport error or an early end of stream into a driver.",
 [HS, IO, FU],
 [("magic comparison in receive_key", HS), ("From<io::Error> for ProtocolError", IO), ("ProtocolError::eof", IO)],
 ["Handshake::receive_key", "io::handshake", "futures::handshake", "io::Protocol::new", "futures::Protocol::new"])

prop("C13", "Decoys are recognised by the ignore bit alone and never end a handshake",
 "A packet is a decoy exactly when the top bit of its header byte is set, whatever the other seven header bits are, and the marking given by the sender is the marking seen by the receiver through every interface. During the handshake any number of decoys of any content may precede the version packet and is skipped; the first non-decoy packet, whatever its contents, completes the handshake.",
 ["inputs", "histories"],
 "All 256 header values, all decoy counts and contents, any position in the stream, all decryption entry points and both interfaces.",
 "Tests only ever see header bytes 0 and 128 produced by the library itself, at most two decoys, and empty version contents.",
 [LIB, HS, IO, FU],
 [("PacketType::from_byte / to_byte", LIB), ("receive_version decoy loop", HS)],
 ["InboundCipher::decrypt*", "Payload::packet_type", "Handshake::receive_version", "io/futures handshake loops"])

prop("C14", "Nothing owed to the peer is left unsent when waiting or reporting success",
 "A handshake driver never waits for the peer while bytes it owes are unwritten or unflushed: its key and garbage before waiting for the peer's key, and its terminator, decoys and version packet before waiting for anything more. A packet write reports success only once the complete packet has been accepted by the transport and flushed, whatever short writes or delays the transport imposes, and exactly those bytes are written.",
 ["schedules", "fault_sequences"],
 "All transports that accept writes in arbitrary pieces, stall, or buffer until flushed, both interfaces, both roles.",
 "Tests use in-memory pipes that accept everything at once and need no flush.",
 [IO, FU, TI, TF],
 [("write_all followed by flush", IO), ("flight order in handshake()", FU)],
 ["calls on the Read/Write (AsyncRead/AsyncWrite) transport handed to Protocol::new", "Protocol::write"])

prop("C15", "Traffic shaping is transparent to the genuine packet stream",
 "Through the shaped interfaces, blocking or asynchronous and under every padding and decoy configuration, the peer's stream is always a well-formed sequence of whole packets in which the genuine ones are exactly the payloads passed to the shaped writer, each once and in call order. Background decoys never split, reorder, duplicate, drop or alter a genuine packet, and reading through a shaped reader returns exactly what the peer sent, even if shaped writes or reads are cancelled.",
 ["schedules", "histories", "configurations"],
 "All interleavings of user writes, padding, background decoys, slow transports, split halves and (async) cancelled writes, in all four strategy combinations.",
 "The only shaped tests check construction and drop, and single calls of the shaper; no test runs a shaped writer concurrently with its decoy task.",
 [TI, TF, TL],
 [("mutex over cipher and transport", TI), ("single writer task", TF), ("pad-then-genuine under one lock", TI)],
 ["bytes reaching the transport given to ShapedProtocol::new", "ShapedProtocol::{read,write,into_split}"])

prop("C16", "Shaping emits decoys exactly as configured and within its bounds",
 "With a strategy disabled it contributes nothing to the wire: no garbage or padding when padding is disabled, no handshake or background decoys when decoys are disabled. With padding enabled the handshake carries at most 4095 garbage bytes and every genuine packet is accompanied by one decoy of 1 to 1024 bytes; with decoys enabled the handshake carries at most three decoys of 1 to 1024 bytes and an idle connection keeps emitting decoys of 1 to 1024 bytes as long as it is open.",
 ["configurations", "histories", "schedules"],
 "All four strategy combinations, both interfaces and both roles, any write history and idle time.",
 "Tests inspect single outputs of the shaper with a mock generator; nothing checks what is emitted on a live connection over time.",
 [TL, TI, TF],
 [("TrafficShaper::handshake / pad / decoy", TL), ("decoy thread / interval", TI)],
 ["bytes reaching the transport given to ShapedProtocol::new"])

prop("C17", "Dropping a shaped connection ends its background work",
 "Once the writing half of a shaped connection has been dropped (whole, or after splitting), its background decoy worker ends within a bounded time, nothing more is written, and the underlying transport writer is released so that the peer sees the stream end. Writes accepted before the drop are still completed, and for the blocking interface all of this has happened by the time the drop returns.",
 ["schedules", "histories"],
 "All drop points relative to worker activity, whole or split, idle or with queued writes, both interfaces.",
 "Existing drop tests only drop and return; neither checks that the worker has ended or the transport is released.",
 [TI, TF],
 [("shutdown flag and join in Drop", TI), ("writer_task exit when the channel closes", TF)],
 ["drop of ShapedProtocol / ShapedProtocolWriter", "drop of the transport writer"])

prop("C18", "A shaped write never reports success on a stream already torn",
 "If the transport fails while any packet is being written, including a background or padding decoy, that failure reaches the caller: a shaped write reports success only if its payload and every packet before it were completely handed to the transport, unless an earlier write already reported a failure. After a background decoy has failed nothing more is written until a caller has been told. Transport errors on the writer never panic or hang the caller.",
 ["fault_sequences", "schedules"],
 "All transport failures (transient or permanent, at any byte of any packet) interleaved with user writes and background decoys, both interfaces.",
 "No test makes a transport write fail under a shaped connection.",
 [TI, TF],
 [("error propagation from pad/genuine writes", TI), ("decoy write error handling", TF)],
 ["ShapedProtocol::write", "bytes reaching the transport"])

prop("C19", "Traffic statistics are exact under concurrency",
 "The statistics tracker never loses or double-counts a record, no matter how many threads record reads and writes concurrently: once recording calls have returned, the write/read ratio equals total bytes written over total bytes read, and is absent exactly while no byte has been read. The time since last activity is the time since the last record (or creation), however the tracker is constructed: it never exceeds the age of the tracker, and without concurrent recording or a clock set back it is neither more nor less.",
 ["schedules", "histories"],
 "All interleavings of concurrent record and query calls with any byte counts, however the tracker is constructed.",
 "The test records four values from one thread.",
 [TL],
 [("atomic fetch_add counters", TL), ("last_activity timestamp", TL)],
 ["AtomicTrafficStats::{record_read,record_write,write_read_ratio,time_since_last_activity}"])

prop("C20", "Every connection uses fresh, unrelated secrets",
 "No two handshakes started by the library ever use the same ephemeral public key, and no two sessions share a session id, terminator or packet key, whatever the role, interface and process history; the four packet and length keys and the two terminators of a session are pairwise different. With a caller-supplied random source the public key is determined by that source alone, and a source yielding an invalid secret is reported as an error.",
 ["histories", "configurations", "inputs"],
 "All histories of connections made by a process, its threads and the processes forked from it, in any role and through any interface, all random sources.",
 "No test compares two sessions.",
 [HS, LIB, IO, FU],
 [("Handshake::new ephemeral key generation", HS), ("HKDF labels", LIB)],
 ["first 64 bytes sent", "CipherSession::id", "terminator bytes sent"])

prop("C21", "The two directions and split halves of a session are independent",
 "Sending never affects receiving and vice versa: under any interleaving of reads, writes and failures on one half, the other half behaves exactly as if the first were idle, whether the session is used whole, split into halves on different threads, or reassembled from the raw ciphers and transport handed out by the high-level interface.",
 ["schedules", "histories"],
 "All interleavings of operations on the two directions, whole or split, low-level ciphers or protocol halves.",
 "Tests exchange one message each way in lock-step and never interleave, split to threads, or mix high-level and low-level use.",
 [LIB, IO, FU],
 [("separate inbound/outbound ciphers", LIB), ("into_split / into_inner", IO)],
 ["CipherSession::{inbound,outbound,into_split}", "Protocol::into_split", "ProtocolReader/Writer::into_inner"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
