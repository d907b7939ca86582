FLOW = "disjunctive abstract interpretation of LLVM IR with procedure summaries (typestate, ownership, taint): "

prop("M01", "Every object is released exactly once on every path",
     "Every operation of the library, whether it succeeds or fails at any point, releases each intermediate object exactly once, hands "
     "it to the caller, or keeps it inside an object it returns. No object is used after it was released, released twice, or lost.",
     ["fault_sequences", "inputs"],
     "every path through every function, including those on which any allocation or OpenSSL, protobuf or engine call fails",
     "Tests run the success path and a few argument errors; a double free or leak on an error path needs an allocation or primitive failure at one particular call.",
     ["array.c", "buffer.c", "cipher.c", "eckey.c", "ecdsa.c", "kdf.c", "key_exchange.c", "node.c", "payload.c", "protocol.c",
      "protocol.c", "stream_key.c", "transport_ctx.c", "transport_handshake.c", "wickr_ctx.c", "openssl_suite.c", "openssl_file_suite.c"],
     [("destructors that release members and clear the caller's pointer", "wickr_*_destroy in every module"),
      ("constructors that take ownership of their arguments only on success", "wickr_*_create in every module")],
     FLOW + "ownership",
     "All paths of all library functions over the abstract heap; array items are handled through the container's contract, library calls (libc, OpenSSL, protobuf-c) through hand-written contracts.")

prop("M02", "No failure leads to a null dereference",
     "When any allocation, cryptographic primitive, decoding step or sub-operation fails, the library reports the failure; it never goes on to use the missing result.",
     ["fault_sequences", "inputs"],
     "every path on which any call that can yield nothing does so, in any combination the abstraction keeps",
     "Tests cannot make a chosen allocation or OpenSSL call fail at a chosen point, let alone at every point.",
     ["buffer.c", "cipher.c", "eckey.c", "kdf.c", "key_exchange.c", "node.c", "protocol.c", "stream_key.c",
      "transport_ctx.c", "transport_handshake.c", "wickr_ctx.c", "openssl_suite.c", "openssl_file_suite.c"],
     [("results are compared with NULL before they are used", "every caller of a function that returns an object")],
     FLOW + "nullness",
     "Null results of every fallible call are followed to every dereference, across calls by the callee's dereferenced parameters; fields of caller-supplied objects are taken as the caller's contract says.")

prop("M03", "Key material is overwritten before its memory is released",
     "Memory in which the library held a private key, a symmetric key, a shared secret, or output of a key derivation is overwritten before it is given back to the allocator or goes out of scope, on success and on every failure.",
     ["fault_sequences", "inputs"],
     "every path of every function on which storage that received key material is released or goes out of scope",
     "No test looks at released memory, and failure paths that skip the wipe are not exercised.",
     ["buffer.c", "cipher.c", "eckey.c", "kdf.c", "key_exchange.c", "storage.c", "stream_key.c", "root_keys.c", "transport_root_key.c", "openssl_suite.c", "memory.c"],
     [("zeroing destructor for buffers", "wickr_buffer_destroy_zero in buffer.c"), ("zeroing primitive", "wickr_zero in memory.c")],
     FLOW + "taint to release sites",
     "Taint from key sources (generated keys, ECDH/KDF outputs, key fields, encodings of private keys) to every release; the wipe itself is checked to be a full-length volatile store loop. Memory owned by the protobuf-c runtime and OpenSSL is out of scope.")

prop("C02", "No failure of a primitive is reported as success",
     "When drawing randomness, encrypting, signing, deriving, digesting, encoding, allocating or copying a part fails, the operation that needed "
     "it reports failure: it never returns a result that lacks the part or contains zeros or stale data in its place.",
     ["fault_sequences", "inputs"],
     "every path through every function that can report success, with any fallible call on it failing",
     "OpenSSL and the allocator do not fail in the tests; a signature, tag or copy silently missing because one call's result is ignored is invisible to them.",
     ["openssl_suite.c", "openssl_file_suite.c", "cipher.c", "ecdsa.c", "identity.c", "node.c", "protocol.c", "stream_ctx.c",
      "transport_ctx.c", "transport_handshake.c", "wickr_ctx.c", "kdf.c"],
     [("status of OpenSSL calls is compared with their success value", "openssl_suite.c"), ("members are copied before the copy is made", "wickr_*_copy in every module")],
     FLOW + "typestate of fallible results",
     "Each fallible call (allocation, OpenSSL status under its documented success values, engine slot, protobuf decoding) is open until it is known to have succeeded; a function that returns an object or true on a path with a failed or unchecked one is reported. "
     "Functions whose answer is a verdict (chain validation, parse results that carry an error) are judged by that verdict.")

prop("C01", "Nothing is decrypted that was not authenticated",
     "Decryption through the OpenSSL engine returns plaintext only after OpenSSL has verified the complete ciphertext, with the caller's key, the IV and the "
     "full-length tag that came with it, and all of the caller's additional data; with an unauthenticated cipher only when the caller accepts that. "
     "Encryption keys the cipher the same way and returns the ciphertext, IV and tag of that very encryption. Every protocol-level caller demands authentication.",
     ["inputs"],
     "every path through every encrypt and decrypt operation and every caller of them, for every buffer, key, IV, tag length and flag",
     "A test decrypts a few tampered messages; a short tag, a skipped final call, dropped additional data or an only-auth flag that is not honoured on one path stays invisible.",
     ["openssl_suite.c", "openssl_file_suite.c", "stream_ctx.c", "protocol.c", "transport_ctx.c", "storage.c", "node.c", "ecdh_cipher_ctx.c", "crypto_engine.c", "key_exchange.c"],
     [("the tag is set before EVP_DecryptFinal_ex and its result decides", "__openssl_aes256_decrypt in openssl_suite.c"),
      ("only_auth_ciphers", "openssl_aes256_decrypt; callers pass true")],
     FLOW + "typestate of cipher contexts (mode, keyed, data, tag, final) with provenance of key, IV, tag and lengths",
     "Each OpenSSL cipher context is followed through the functions that implement the engine's encrypt and decrypt slots; what it was given must be, on every successful path, "
     "the caller's key, IV, data, additional data and a tag of the cipher's full length, and the final call must have succeeded. Calls of the decrypt slot must demand authentication.")

prop("C03", "Keys, IVs and random values are fresh, complete output of the generator",
     "Every random buffer is filled over its whole length by OpenSSL's generator and has the length asked for; every generated key is the full length of its cipher or comes from "
     "OpenSSL's key generation; every encryption uses the caller's IV or a fresh random one of the cipher's length. Every IV of a stream is derived from the generator's "
     "secret seed and its entire counter, and the counter moves on with every IV.",
     ["histories", "inputs"],
     "every path of every function that draws randomness, generates keys or encrypts; any number of IVs drawn from one generator",
     "Tests compare a handful of random outputs; predictable, repeated or partly constant values look random in a sample.",
     ["openssl_suite.c", "stream_iv.c", "stream_ctx.c", "stream_key.c", "root_keys.c", "identity.c", "transport_root_key.c", "wickr_ctx.c"],
     [("random buffers", "openssl_crypto_random"), ("IV generator", "wickr_stream_iv_generate"), ("random IV when none is given", "openssl_aes256_encrypt")],
     FLOW + "provenance of bytes",
     "For every successful outcome of the functions implementing the engine's random, key and encryption slots, the returned storage must be the one the generator filled, entirely, with its status checked. "
     "At every encryption through the engine the IV must be absent (random) or come from the IV generator; the generator's counter must differ after each use.")

prop("C05", "Signatures, MACs, digests and shared secrets cover all of their inputs",
     "A signature is accepted only when OpenSSL verified the whole signature over the whole data with the given public key and the digest the signature names; a MAC only when it equals, "
     "over its full length and in constant time, the MAC of the whole data under the whole key. Signing, MACs, digests, HKDF and ECDH process exactly the caller's whole inputs with the named "
     "algorithm, files to their end, and imported keys are the whole input, on a known curve, never the point at infinity.",
     ["inputs"],
     "every path of every implementation of signing, verification, MAC, digest, key import, key agreement and derivation, for all inputs",
     "Vectors fix a few inputs; a length that wraps, a skipped salt, a comparison of a prefix or an ignored verification result needs particular inputs to show.",
     ["openssl_suite.c", "buffer.c", "ecdsa.c", "eckey.c"],
     [("verification result decides", "openssl_ec_verify"), ("constant-time comparison", "openssl_hmac_verify, wickr_buffer_is_equal"),
      ("point at infinity", "openssl_ec_key_import"), ("digest selection", "__openssl_get_digest_mode")],
     FLOW + "provenance of inputs to OpenSSL contexts",
     "For every successful outcome of the functions implementing the engine's slots (found from the engine table), the facts recorded at OpenSSL calls (which key, which bytes, offset, length, digest, order, output) must describe exactly the caller's arguments.")

prop("I01", "Identities, nodes and keys count as valid only under verified signatures",
     "An identity chain is reported valid only if the root key's signature over the node's signing key was verified; a node only if its chain is valid and its node key's signature over the "
     "current ephemeral key was verified (or either verdict was remembered for exactly these keys and signatures). Every generated node identity is signed by its root, every generated ephemeral key by its node.",
     ["inputs", "histories"],
     "every path to a verdict, for every chain, node and key, whatever was verified or replaced before",
     "Tests validate a few good and bad chains; verifying the wrong key or data, or skipping one link in one state of the caches, passes them.",
     ["identity.c", "identity_priv.c", "node.c", "node_priv.c", "ephemeral_keypair.c", "wickr_ctx.c"],
     [("chain validation", "wickr_identity_chain_validate"), ("node validation", "wickr_node_verify_signature_chain"), ("ownership", "wickr_ephemeral_keypair_verify_owner"),
      ("signing of new identities", "wickr_node_identity_gen, wickr_ephemeral_keypair_generate_identity, wickr_ctx_gen_with_root_keys")],
     FLOW + "provenance terms of signatures, keys and data at verdicts",
     "Every buffer carries a term for the operation, key and bytes it came from; each outcome that reports validity must contain a successful verification (or a remembered one, see I02) whose signature, key and data "
     "are the ones named by the property, and each new identity a signature term over its own key under the right signer. What ec_verify itself does is C05.")

prop("I02", "A remembered verdict holds only for exactly what was verified",
     "The cached status of a chain or node is used only when it is bound to the keys, signatures and the status it was computed for: changing a key, a signature, the chain under a node "
     "or the status makes it be computed again. A chain or node is marked valid only after its signatures were verified, or by copying another one's verdict together with its binding.",
     ["histories"],
     "every sequence of validations, key rotations, copies and replaced parts",
     "Tests do not replace a part between two validations in every possible order; a stale verdict needs exactly such a history.",
     ["identity_priv.c", "node_priv.c", "identity.c", "node.c"],
     [("digest over what the verdict is about", "wickr_identity_chain_make_status_cache, wickr_node_make_status_cache"), ("use of the cache", "wickr_identity_chain_has_valid_cache, wickr_node_has_valid_cache"),
      ("status writes", "wickr_identity_chain_validate, wickr_node_verify_signature_chain")],
     FLOW + "inductive invariant over all writers of the status, with provenance terms",
     "Each outcome that relies on the cache must have compared it with a digest whose terms include every key, signature, sub-verdict and the status; each write of a status that may mean valid, in any function, must follow "
     "from verification facts or be copied together with the digest that binds it. Callers that write the public struct's fields directly are outside.",
     state=[("status and _status_cache", "the remembered verdict and what it is bound to", "wickr_identity_chain, wickr_node")])

prop("P01", "A received packet is believed only as its sender signed it",
     "Parsing a packet reports a valid signature only if the packet's signature over its whole content was verified with the named sender's node key, and success only with a valid signature. "
     "The payload and key exchange reported are those of that content, the exchange the one bearing this receiver's node identifier, the header opened with the sender's header key. "
     "Decoding yields a payload only for a packet found authentic, and only what its packet key opens.",
     ["inputs"],
     "every packet, sender and receiver, whatever bytes were received; every path to a verdict or a payload",
     "Tests parse well-formed packets and a few corrupted ones; a verdict set from the wrong key, content taken from unsigned bytes, or another node's exchange needs a packet made for it.",
     ["protocol.c", "wickr_ctx.c", "key_exchange.c", "payload.c"],
     [("signature check, parsing", "wickr_parse_result_from_packet"), ("search of the exchange", "wickr_key_exchange_set_find"), ("decoding", "wickr_decode_result_from_parse_result, wickr_ctx_decode_packet"),
      ("whom a context parses for", "wickr_ctx_parse_packet, wickr_ctx_parse_packet_no_decode, wickr_ctx_stateless_parse_packet"), ("header key", "__wickr_ctx_gen_header_key")],
     FLOW + "provenance terms through protobuf messages, slices and decryption",
     "Every outcome's verdict, payload, exchange and key carry terms naming the message member, the slice and the bytes they came from; they must lead back to the packet's content, for which a verification fact with the sender's node key must exist. "
     "Key exchange sets of one and two (thorough: up to four) entries are explored entry by entry; what the engine slots themselves do is C01 and C05.")

prop("P02", "A packet is sealed for its verified recipients and signed by its sender",
     "A packet is only written if the chain of signatures of every recipient was verified. Its header, sealed with the header key, has the exchange key's public half and one entry for every recipient under that recipient's "
     "node identifier; its payload is sealed with the packet key; the sender's node key signs exactly the content. A context generates a fresh packet key and exchange key for every packet.",
     ["inputs", "histories"],
     "every list of recipients, payload, version and sender; every path that yields a packet",
     "Tests encode for valid recipients and check that they can decode; a recipient that is skipped or not verified in one place of a longer list, or content left out of the signature, still decodes.",
     ["protocol.c", "wickr_ctx.c", "key_exchange.c", "payload.c", "node.c"],
     [("construction", "wickr_packet_create_from_components"), ("keys of a packet", "wickr_ctx_encode_packet"), ("verification of recipients", "wickr_node_verify_signature_chain")],
     FLOW + "provenance terms of packed messages, obligations per recipient",
     "The packed message is rebuilt as a term with the content of every member; each recipient of lists of one and two (thorough: up to four) is an obligation of its own, the verification of a recipient is taken by its contract (I01).")

prop("K01", "Exchanged keys are bound to both parties and agree on both sides",
     "Data in a key exchange is sealed with a key derived, by the version's hash, from the secret agreed between the exchange key and the receiver's ephemeral key, salted with the pre-shared key, with the identity keys of sender and receiver "
     "and the receiver's device identifier as context (version 2: the device identifier alone). The receiver derives the same key from its own private half. The exchange names the receiver's node and key; what is sealed is exactly the data or packet key given, for every recipient of a packet.",
     ["inputs"],
     "every pair of parties, version, pre-shared key and data; every path that seals or opens an exchange",
     "If both sides drop the salt or a party from the context, every test still round-trips; only the binding is lost.",
     ["key_exchange.c", "protocol.c", "wickr_ctx.c", "cipher.c"],
     [("derivation", "__wickr_key_exchange_derive_key and its callers in key_exchange.c"), ("context of the derivation", "the info of each packet version"), ("sealing for each recipient", "wickr_packet_create_from_components")],
     FLOW + "provenance terms of derived keys, compared on both sides with one specification",
     "Salt, context, secret and hash of every key used to seal or open an exchange are terms over the caller's arguments; both sides are compared with the same wanted term. The derivation function itself is C05 and K02; numeric equality of agreed secrets is a fact about the curve.")

prop("V01", "A packet's bytes frame its version, curve, content and signature exactly",
     "Only packets of existing versions are written or accepted. The bytes of a packet are its version, its curve, all of its content and all of its signature, in this order; reading takes exactly these parts out of the received bytes: "
     "the content ends where the signature begins, the signature ends with the packet.",
     ["inputs"],
     "every received buffer of any length and every packet written",
     "Tests serialize a handful of packets; a version accepted without a key derivation, or bytes left out or counted twice for one signature length, is invisible to them.",
     ["protocol.c", "ecdsa.c", "eckey.c"],
     [("framing", "wickr_packet_serialize, wickr_packet_create_from_buffer"), ("versions", "wickr_packet_create, wickr_key_exchange derivations"), ("length of a signature", "wickr_ecdsa_result_create_from_buffer")],
     FLOW + "provenance terms of slices with linear length arithmetic",
     "Each accepted outcome's slices are compared as linear sums over the input's length; each written one as a concatenation of the packet's members. The version byte is deliberately not covered by the signature (design of the format).")

prop("T02", "Streams accept each sequence number once and evolve their keys with it",
     "A stream encodes or decodes only in its own direction and only a sequence number above every one it has processed, which it then records. The key used is the one for that number: for every evolution between the last number and this one, "
     "the two halves of the HMAC of the evolution key under the cipher key, no more and no fewer. The caller's additional data is authenticated. A packet that is refused leaves key and sequence number as they were. "
     "Streams are only made with ciphers that authenticate, start at zero, and have a source of IVs if they encode.",
     ["inputs", "histories"],
     "every order and gap of sequence numbers, evolution rate and packet; every path that yields or refuses a packet",
     "Replay, reordering and evolution depend on histories of packets: tests send them in order, so a replay accepted after a gap, or a key evolved once instead of five times, shows only to a peer that lost packets.",
     ["stream_ctx.c", "stream_key.c", "stream_iv.c"],
     [("sequence and direction", "wickr_stream_ctx_encode, wickr_stream_ctx_decode"), ("evolution", "__wickr_stream_ctx_evolove_key_material, __wickr_stream_key_create_with_evo_buffer"), ("commit of the new state", "__wickr_stream_ctx_finish"), ("creation", "wickr_stream_ctx_create")],
     FLOW + "provenance terms of the stream's key at entry and exit, with relational constraints on sequence numbers",
     "At every outcome the exit key is a term over the entry key; its depth is compared with the difference of evolution indices known on that path. Depths of zero to two (thorough: zero to four) are distinguished, deeper ones share one abstract iteration whose key must still be an evolution. "
     "Two copies of an encoding stream share the IV generator's seed and counter: using both to encode is a hazard of wickr_stream_ctx_copy that is not claimed. A forged far sequence number costs its evolutions before it is refused.")

prop("T04", "Transport packets are framed exactly; their signature covers all before it",
     "A transport packet on the wire is its header, its body and, when it is signed, its signature: the header says in its first byte which kind of payload and of authentication follows, then the sequence number, or the protocol version and flags. "
     "Reading a packet gives back exactly those parts: a signature if and only if the header says so, as the last bytes; the body as everything between. Signing signs header and body (with the signature type already in the header) under the node's key; "
     "verification succeeds only for a packet that says it is signed, after the signer's chain was validated, with the signer's node key, over all bytes as received that are in front of the signature.",
     ["inputs"],
     "every packet and byte string; every path that yields a packet, a serialization, a signature or an acceptance",
     "A byte left out of the signed range, or a header bit read differently than written, round-trips in any test that uses both halves; only an attacker's packet, or a peer of another version, shows it.",
     ["transport_packet.c", "buffer.c", "ecdsa.c"],
     [("header", "wickr_transport_packet_meta_serialize, wickr_transport_packet_meta_initialize_buffer"), ("framing", "wickr_transport_packet_serialize, wickr_transport_packet_create_from_buffer"), ("signature", "wickr_transport_packet_sign, wickr_transport_packet_verify")],
     FLOW + "provenance terms of every byte range, linear sums of their bounds, header bytes tabulated over their domain",
     "The first header byte is evaluated for each of its 256 values over the abstract state; other ranges are compared as linear sums of lengths. Multi-byte header members are in the host's byte order on both sides, which is taken as it is.")

prop("T03", "Transports pass on only what their streams decode and stop at the first error",
     "A transport gives its user data only when that data was decoded, by the receiving stream, from a packet that just arrived and whose whole header was authenticated with it, under that packet's own sequence number. "
     "It sends the user's data only while it is active, encoded by the sending stream with the header that goes out, under the next sequence number. "
     "Its streams exist only as the outcome of a handshake of this transport: sending uses the local key and receiving the remote key, and it becomes active only together with them. "
     "What arrives and is not accepted, and data that cannot be sent, put the transport in the error state; it never leaves it, and in it no data is delivered or sent.",
     ["inputs", "histories"],
     "every call of the entry points and of the completion given to the identity callback, from every status and content of the transport",
     "The states a transport can be in when a packet or an answer about an identity arrives are combinations of both sides' histories; a test goes through one of them. A forged, replayed or late packet meets whichever is there.",
     ["transport_ctx.c", "transport_packet.c", "stream_ctx.c"],
     [("delivery", "wickr_transport_ctx_process_rx_buffer"), ("sending", "wickr_transport_ctx_process_tx_buffer"), ("streams", "__wickr_transport_ctx_finalize_handshake"), ("status", "wickr_transport_ctx_start, __wickr_transport_validate_identity_complete")],
     FLOW + "provenance of what is given to the user's callbacks, status at entry and return",
     "The handshake itself is taken by its contract (T01), the streams by theirs (T02). The completion is any function handed to the identity callback; it can be called at any time. A data packet that arrives during a handshake and a callback that re-enters the transport are covered as separate calls.")

prop("T01", "A handshake goes only to the authenticated peer and binds its keys to it",
     "A transport handshake takes a packet only in the state that expects one, of its own version, and only after the packet's signature verified against the identity of the peer: the one it was given, or the one in the packet, "
     "which it then asks its user about (once, and exactly that one) and does not use until it was accepted. It starts only once, is not revived once it is complete or failed, and a failed handshake yields no packet and no keys. "
     "Each side's ephemeral key is new; the responder's root key is new and sealed in the response, and the initiator takes only that root key, opened with the key derived from both ephemeral keys, for both identities and both public keys in the order of the roles. "
     "Both packets, in the order they were sent and as they were on the wire, are what the stream keys are derived with; the sender's key is the initiator's sending and the responder's receiving key, the two parts of a key do not overlap, and both ends evolve at the same packets.",
     ["inputs", "histories"],
     "every call of start, process, verify_identity and finalize from every state of a handshake, with every packet and every answer of the crypto engine",
     "A handshake test runs one honest exchange. What is guaranteed is about the others: forged or replayed packets, messages in the wrong state, wrong answers about an identity, failures half way.",
     ["transport_handshake.c", "transport_root_key.c", "ecdh_cipher_ctx.c"],
     [("start", "wickr_transport_handshake_start"), ("process", "wickr_transport_handshake_process"), ("answer about an identity", "wickr_transport_handshake_verify_identity"), ("keys", "wickr_transport_handshake_finalize, wickr_transport_root_key_to_stream_key")],
     FLOW + "status transitions at every return, provenance of every key, message and transcript entry",
     "The signature of a packet is taken by its contract (T04). A packet recorded in the transcript when memory runs out is missed, and finalize then has no transcript to hash and fails (judged by the fact that it was not recorded). That an agreement of different keys differs, and that KDFs and hashes are one-way, is assumed.")

prop("M04", "Bytes are read and written only within their buffer",
     "Whatever arrives or is passed in, no byte is read or written outside the storage it belongs to: not through the bytes of a buffer, of a field of a parsed message or of an array, not by a copy or fill, and not by a function of the crypto library that is given a pointer and a length. "
     "A buffer never says it is longer than its storage when it is handed on or returned, a text is not looked for an end it need not have, and a length that is computed from others does not wrap around to a smaller one.",
     ["inputs"],
     "every access, copy and pointer/length pair of the library's functions, for every length a buffer can have",
     "An access is out of bounds for particular lengths only: a packet one byte short, a signature length that does not fit, a size that wraps. Tests use well-formed input.",
     ["buffer.c", "transport_packet.c", "cipher.c", "ecdsa.c", "kdf.c", "openssl_suite.c", "array.c"],
     [("parsing", "wickr_transport_packet_create_from_buffer, wickr_cipher_result_from_buffer, wickr_ecdsa_result_create_from_buffer, wickr_kdf_meta_create_with_buffer"), ("copies", "wickr_buffer_copy_section, wickr_buffer_modify_section, wickr_buffer_concat"), ("crypto library", "openssl_aes256_encrypt, openssl_aes256_decrypt, __openssl_digest_sign_operation")],
     FLOW + "linear inequalities between offsets, lengths and sizes, proved by substituting the bounds and conditions of the path",
     "Lengths of buffers are at most INT32_MAX (no larger one can be created). Structures are accessed by their type. Not covered: the character loops of util.c and b32.c (except that strings are not looked for an end), wickr_buffer_concat_multi (B01), and loops that count down without a condition on the counter, which are counted as undecided.")

prop("B01", "Buffers and arrays hold what they were made of",
     "A buffer that is created, copied, cut out or joined is as long as what it is made of and has exactly its bytes in their order (buffers to be joined that are absent or empty contribute nothing), a zeroed one is zero, and changing a section changes that section and nothing else. "
     "Two buffers are equal exactly if their lengths are and the comparison of all their bytes says so. An array item that is set, fetched or copied is that item of that index, copied or not as asked; a new array's items are absent; replacing an item by a copy destroys the old one and no other; a copy has every item, the type and functions of its source; destroying one destroys every item if asked and none if not. "
     "None of these is refused except for a null argument, a size or index out of range, or memory that ran out.",
     ["inputs"],
     "every return of the functions that make or change a buffer or an array, for every length, index and flag; joins of up to four buffers, copies and destruction of arrays of up to three items (thorough: five and six)",
     "The contents depend on offsets and lengths that tests sample at a few small values; an index that is truncated or an item at the end that is missed shows at particular ones only.",
     ["buffer.c", "array.c"],
     [("buffers", "wickr_buffer_create, wickr_buffer_copy_section, wickr_buffer_concat, wickr_buffer_concat_multi, wickr_buffer_modify_section, wickr_buffer_is_equal"), ("arrays", "wickr_array_new, wickr_array_set_item, wickr_array_fetch_item, wickr_array_copy, wickr_array_destroy")],
     FLOW + "every copied range as (source, offset, length, destination, offset), compared by linear inequalities with what the result should be made of",
     "The number of buffers or items is enumerated, not every one. A result written byte by byte in a loop is counted as undecided. The documentation of wickr_buffer_concat_multi says that it refuses absent buffers, its code skips them (and callers rely on it): the property is what the code does.")

prop("C04", "An identifier stands for the same algorithm everywhere and for ever",
     "Every description of a cipher, digest, curve or key derivation in the library has the identifier, the sizes of key, IV, tag, digest, signature, public key, salt and output, and the cost that existing data was written with. "
     "Looking up an identifier finds exactly the algorithm with that identifier, and nothing for an identifier there is none for; each digest is matched by its own HKDF, stored key derivation parameters are read with the salt size of their algorithm, and the default engine uses AES-256-GCM and P-521.",
     ["inputs"],
     "every constant description in every translation unit, and every lookup for every identifier from 0 to 255 (digests: every value)",
     "A round trip within one build agrees with itself: a changed cost or size shows only on data written before, a wrong lookup only for the identifiers no test uses.",
     ["cipher.c", "digest.c", "eckey.c", "kdf.c", "crypto_engine.c"],
     [("lookups", "wickr_cipher_find, wickr_digest_find_with_id, wickr_ec_curve_find, wickr_hkdf_algo_for_digest, wickr_kdf_meta_create_with_buffer"), ("defaults", "wickr_crypto_engine_get_default, wickr_digest_matching_cipher, wickr_exchange_cipher_matching_cipher")],
     FLOW + "constants of the compiled code and the outcomes of every lookup per identifier, compared with a table of what is stored and sent",
     "The table in the rule is the specification (what the library writes today). That an identifier selects the matching primitive of OpenSSL is C01 and C05, that the costs are used as scrypt's parameters K02.")

prop("K02", "Derived keys come from all that is given, and exports are sealed under them",
     "Deriving a key runs exactly the function the algorithm names, once, with its cost, over the whole passphrase (or key material), the whole salt and the whole context information, and returns its whole output together with exactly the parameters that were used; "
     "a new derivation uses as many fresh random salt bytes as the algorithm has, and an output length that cannot be recorded is refused. What is protected with a passphrase is sealed under a key so derived and stored behind the parameters needed to derive it again; it is opened only with the key derived from those stored parameters. "
     "An exported context, storage keys and recovery key are sealed whole that way, with scrypt, and importing them gives back the keys that were inside.",
     ["inputs"],
     "every passphrase, salt and context information for each of the nine algorithms, and every path through export and import",
     "A test with short, plain passphrases cannot see one that is cut, a salt used only in part, a cost that is lower than the one recorded, or parameters that come from somewhere other than the data.",
     ["kdf.c", "crypto_engine.c", "wickr_ctx.c"],
     [("derivation", "wickr_perform_kdf, wickr_perform_kdf_meta, wickr_kdf_meta_create_hkdf_expand"), ("under a passphrase", "wickr_crypto_engine_kdf_cipher, wickr_crypto_engine_kdf_decipher"), ("exports", "wickr_ctx_export, wickr_ctx_import, wickr_ctx_export_storage_keys, wickr_ctx_gen_export_recovery_key_passphrase")],
     FLOW + "what each derivation function is given, per algorithm, and the provenance of everything sealed, stored, read and opened under a passphrase",
     "What scrypt, bcrypt and HKDF compute is theirs (HKDF's construction from the digest is K01). bcrypt itself stops at the first zero byte and at 72 bytes of a passphrase: this is bcrypt's contract, and the check stops at its call.")

prop("S02", "A copy equals its source in every member and is independent of it",
     "Copying an object (a key, identity, chain, node, packet, signature, key derivation parameters, stream, transport context, device information, ...) gives an object that equals its source in every member, through every level, "
     "whatever members the source does not have, and shares none of the storage the source owns, so that changing or destroying one never shows in the other. Only what is documented to start anew does: a reference count, a handshake in progress, the header key computed again.",
     ["inputs"],
     "every copy function of the library, every member of every structure, every source including those without their optional members",
     "Contexts, nodes and messages are copied throughout the library and its bindings; a member left out shows only in an object that has it and only when the copy is used for what needs it.",
     ["identity.c", "node.c", "protocol.c", "transport_ctx.c", "transport_packet.c", "wickr_ctx.c", "kdf.c", "stream_ctx.c"],
     [("copies", "wickr_identity_copy, wickr_node_copy, wickr_packet_copy, wickr_ctx_copy, wickr_transport_ctx_copy, wickr_stream_ctx_copy, wickr_kdf_meta_copy, ..."), ("lists", "wickr_array_copy, wickr_node_array_copy")],
     FLOW + "every member of the result of every copy function against the same member of its source, over the structures in the debug information",
     "Members that are themselves copied objects are judged at their own copy function; that arrays are copied item by item is B01. Which members are optional is a table in the rule.")

prop("F01", "Encrypting or decrypting a file is all or nothing",
     "Encrypting or decrypting a file replaces the destination only by moving a complete output into place: the whole source was read without an error, everything the cipher produced and (when encrypting) the final header with the tag "
     "were written in full, and the output was closed successfully. Otherwise failure is reported, the file at the destination is as it was, and no temporary file is left. The source is only read. Success is reported only for a completed replacement; "
     "the variants on open files, and hashing a file, report success only if no read or write failed.",
     ["faults", "inputs"],
     "every path through the file operations: every failing open, read, write, seek, close, rename, allocation and cipher step, at every block of every file",
     "Users keep their only copy of a file at the destination; a full disk, a read error or a wrong key must not cost them that copy or leave plaintext next to it.",
     ["openssl_file_suite.c", "openssl_suite.c"],
     [("swap", "openssl_aes256_file_encrypt, openssl_aes256_file_decrypt"), ("streams", "openssl_encrypt_file, openssl_decrypt_file, openssl_sha2_file")],
     FLOW + "what is opened, read, written, closed, moved and removed on every path, as typestate facts on streams and path names",
     "Losing power between rename and the disk is not covered (nothing is synced); the temporary file has a predictable name, which another process could create first.")

prop("S01", "What is serialized is read back as it was, member by member",
     "For every structure that can be serialized (messages, keys, ciphertexts, signatures, key derivation parameters, identities, chains, nodes, key exchanges, packets, streams, storage and root keys, contexts) the serializer writes every member, whole, "
     "to its own place of the format, and the parser takes that member, whole, from that place: optional members and lists of any length included, numbers without loss of digits, each algorithm by a code that is read as that algorithm and no other. "
     "A member that may be left out is left out only where reading gives the same value, and the parser never refuses what the serializer writes. The public serializers write the public part of a key, the private ones the private part.",
     ["inputs"],
     "every serializer and parser pair, every member of every structure and message, present or absent, every algorithm code",
     "Contexts, keys and messages live in serialized form for years and on other devices; a member written to the wrong place or cut short loses keys and messages, and shows only for values that no test has.",
     ["payload.c", "cipher.c", "ecdsa.c", "kdf.c", "identity_priv.c", "node_priv.c", "ephemeral_keypair_priv.c", "key_exchange.c", "storage_priv.c", "stream_key_priv.c", "root_keys.c", "transport_root_key_priv.c", "protocol.c", "wickr_ctx.c"],
     [("messages", "wickr_payload_serialize, wickr_payload_create_from_buffer, wickr_ctx_serialize, wickr_ctx_create_from_buffer, wickr_identity_create_from_proto, ..."),
      ("formats of its own", "wickr_cipher_result_serialize, wickr_cipher_result_from_buffer, wickr_ecdsa_result_serialize, wickr_ecdsa_result_create_from_buffer, wickr_packet_create_from_buffer, ...")],
     FLOW + "the term of every serialized result (which member's bytes or value went where) against the table of the format, and the provenance of every member of every parsed result against the same table",
     "That protobuf-c packs and unpacks a message faithfully is its contract. Lists are enumerated to 2 items (3 thorough). Structures whose pieces are not of the sizes their algorithm has (an IV of another length) are outside the format. "
     "Fields that are computed anew (a chain's verification status, the header key) are not part of it.")


prop("R01", "A context has the keys and identities it is said to have, also after recovery",
     "A generated context belongs to the identifier and the signature root it was given: its root identity signs with that key, its node identity has a new key and a new random identifier of its own, its header key is the digest of both identifiers, root first, "
     "and its device information is that given. Root keys are distinct new random keys unless given; the remote storage key is the remote storage root, the local one is the SHA-256 of the node storage root with the device's system salt, each for the cipher of its root; "
     "a recovery key is new unless given. What is backed up is exactly the root keys under the recovery key, and recovering, with the key or its passphrase, yields those keys or fails: nothing unauthenticated is taken. "
     "Local data is sealed and opened with the local storage key only, remote data with the remote one.",
     ["inputs", "histories"],
     "every path through the generation, recovery, backup and storage functions, for every combination of given and generated keys",
     "Recovery on a new device happens years later and with keys no test has; a context made of the wrong key cannot read the account's data, or shares a key that should be its own.",
     ["wickr_ctx.c", "root_keys.c", "identity.c", "storage.c"],
     [("generation", "wickr_ctx_gen_with_root_keys, wickr_ctx_gen_new, wickr_root_keys_generate, wickr_root_keys_localize"),
      ("recovery", "wickr_ctx_gen_import_recovery, wickr_ctx_gen_with_recovery, wickr_ctx_gen_with_passphrase, wickr_ctx_gen_result_make_recovery"),
      ("storage", "wickr_ctx_cipher_local, wickr_ctx_decipher_remote, ...")],
     FLOW + "the provenance of every key, identifier and identity in the result of every generating, recovering and sealing function",
     "That random keys differ in value is the generator's contract (C05 decides that it is called); the signatures of the chain are I01's, the passphrase K02's, the layout of the backup S01's.")

prop("L01", "Fingerprints and device identifiers name exactly what they are made of",
     "A fingerprint is the SHA-512 of the whole identifier followed by the public key in the fixed length of its curve (the key first, then zeros); a bilateral fingerprint is the SHA-512 of two fingerprints of one type and length, and is the same whichever way round they are given; "
     "a long text is the whole encoding of the fingerprint, a short one exactly its first half, terminated. Device information keeps the device salt it is given (or 64 new random bytes), its system salt is the SHA-256 of the system identifier, "
     "and its two identifiers are the two halves of the SHA-512 of the system identifier with that salt.",
     ["inputs"],
     "every path, with the order of two fingerprints decided for byte values at and around every boundary, at the first and at later places",
     "Two people compare fingerprints to detect an impostor: one that depends on the order, or leaves out part of the identity, either never matches or matches the wrong person, and only for some keys.",
     ["fingerprint.c", "devinfo.c", "eckey.c"],
     [("fingerprints", "wickr_fingerprint_gen, wickr_fingerprint_gen_bilateral, wickr_fingerprint_get_hex, wickr_fingerprint_get_b32, wickr_ec_key_get_pubdata_fixed_len"),
      ("device", "wickr_dev_info_derive, wickr_dev_info_create_new")],
     FLOW + "the term of every result (which digest of which bytes in which order); the order of two fingerprints by substituting byte values into the path conditions under which each order is taken",
     "The digests and the text encodings themselves are taken for what they are (C03, and not applicable). The order is decided for fingerprints of 1 and 2 bytes (3 thorough): the loop treats every byte alike. Two equal fingerprints have no bilateral one.")

prop("N01", "Decryption gives back the bytes that were encrypted",
     "For every plaintext, key and IV, what the engine decrypts from the result of its own encryption under the same key equals the plaintext, byte for byte.",
     ["inputs"], "all plaintexts, keys and IVs",
     "Only a handful of plaintexts are tried.",
     ["openssl_suite.c"], [("cipher", "openssl_aes256_encrypt, openssl_aes256_decrypt")], FLOW, "",
     na="An equality between values computed by OpenSSL from arbitrary bytes: no dataflow abstraction represents the function AES computes. The part the source decides (both directions get the same algorithm, key, IV, "
        "additional data and all of the data, and the tag is checked) is C01 and C05.")

prop("N02", "Both sides of a key agreement compute the same secret",
     "For every pair of key pairs on one curve, the shared secret computed from one private and the other public key equals the one computed the other way round.",
     ["inputs"], "all key pairs",
     "Only a few random key pairs are tried.",
     ["openssl_suite.c"], [("agreement", "openssl_gen_shared_secret")], FLOW, "",
     na="A fact about elliptic curve arithmetic inside OpenSSL, not about this source. That both keys are given to it whole and on the same curve, and that the result is used whole, is C05 and K01.")

prop("N03", "Hex, base64 and base32 texts decode to the bytes they encode",
     "For every byte string, decoding its hex, base64 or base32 encoding gives the byte string back, and texts that are not encodings are refused.",
     ["inputs"], "all byte strings and texts",
     "Only some lengths and bytes are tried.",
     ["util.c", "b32.c"], [("encodings", "getHexStringFromData, getDataFromHexString, base32_encode, base32_decode, getBase64FromData, getDataFromBase64")], FLOW, "",
     na="Equality of two functions on arbitrary bytes through shifts, masks, table look-ups at data-dependent places and strtol: it needs bit-precise reasoning over loops of unbounded length (a solver or execution), "
        "not a dataflow abstraction. That neither direction reads or writes out of bounds is M04.")

prop("N04", "Comparing tags and secrets takes the same time whatever they are",
     "The time taken by comparisons of authentication tags, cached digests and other secret-dependent values does not depend on where they differ.",
     ["inputs"], "all pairs of values compared",
     "Time is not what unit tests look at.",
     ["buffer.c", "openssl_suite.c"], [("comparison", "wickr_buffer_is_equal, openssl_hmac_verify")], FLOW, "",
     na="The library promises no constant-time comparison (the comparison function is the caller's choice and memcmp by default), and time is not visible in the unoptimised IR the analysis reads; a rule here would state a wish, not a guarantee.")
