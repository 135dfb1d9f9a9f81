"""Writes properties.jsonl (one place to edit titles, statements and anchors)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/wickrcrypto/src/'
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files.split()], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None)))

prop('C01', 'Byte buffers: exact, bounds-safe copy, slice, concatenate, patch, compare',
 'Every buffer operation yields exactly the bytes its contract names (copy, sub-range, concatenation of two or many, in-place patch, equality including constant-time comparators, protobuf field conversion) or refuses. No offset/length pair, however large, makes it read or write outside its operands or wrap around. Refused operations leave the operands unchanged.',
 ['inputs'], 'all byte contents, all 64-bit offsets and lengths, every NULL/empty operand combination', 'tests use a few fixed strings and offsets; wrap-around and off-by-one limits need all 64-bit offsets',
 'buffer.c buffer_priv.c memory.c', [('range validation', S+'buffer.c'), ('size cap', 'include/wickrcrypto/buffer.h MAX_BUFFER_SIZE')])
prop('C02', 'Hex, base32 and base64 text codecs are lossless and memory-safe on any text',
 'Decoding the hex, base32 or base64 text produced for any byte string returns that byte string (base32 up to its documented length), and the text uses only the documented alphabet. Decoding arbitrary, possibly malformed bytes never touches memory outside the given buffer and never crashes.',
 ['inputs'], 'all byte strings and all candidate texts of the bounded lengths', 'tests round-trip a handful of vectors; malformed and high-bit input is never tried',
 'util.c b32.c', [('base64 tables', S+'util.c'), ('base32 block codec', S+'b32.c'), ('hex nibble conversion', S+'util.c')])
prop('C03', 'Cipher results and cipher keys survive serialization, reject malformed bytes',
 'Serializing a cipher result or cipher key and parsing it back returns the same cipher, IV, tag, ciphertext and key for every supported cipher. Any other byte string is either refused or parsed into an object whose component sizes are exactly those of the cipher it names; parsing never reads beyond the input.',
 ['inputs'], 'all contents, all ciphers, all input lengths up to the bound', 'tests parse only buffers they serialized themselves',
 'cipher.c cipher_priv.c', [('length checks against the cipher parameters', S+'cipher.c')])
prop('C04', 'Signature and curve-point encodings are lossless and bounds-safe',
 'A signature serialized and parsed back has the same curve, digest and value, and its wire size is constant for the curve. Any other byte string is refused or parsed without reading outside it; the fixed-length public key form of a key begins with the key and is zero-padded to the curve maximum.',
 ['inputs'], 'all signature values and lengths up to the curve maximum, all candidate encodings up to the bound', 'tests use signatures the engine happens to produce, so short values and hostile padding counts never occur',
 'ecdsa.c ecdsa_priv.c eckey.c eckey_priv.c digest.c', [('padding header', S+'ecdsa.c'), ('fixed length public data', S+'eckey.c')])
prop('C05', 'Typed arrays keep items, indices and ownership straight',
 'Setting, fetching, copying and destroying array slots affects exactly the addressed slot; out-of-range indices are refused. Under any sequence of owning and borrowing operations each item is destroyed exactly once by its owner, a deep copy shares nothing with its source and a failed copy releases everything it made.',
 ['inputs', 'histories', 'fault_sequences'], 'all bounded operation sequences, indices over all 32-bit values, copy failures at any point', 'tests run one scripted sequence; item-copy failures never occur',
 'array.c', [('index bounds', S+'array.c'), ('copy/borrow ownership split', S+'array.c')])
prop('C06', 'Identity-chain validity always equals the signature of root over node key',
 'Validating an identity chain succeeds exactly when the root key of the chain as it stands signed the node public key it now carries, with the signature it now carries. Earlier validations, copies or later replacement of keys or signature never change that answer, and the published status agrees.',
 ['inputs', 'histories'], 'all keys, signatures, digests, all answers of the signature primitive, bounded histories of validate/replace/copy', 'tests validate one good and one bad chain each once; cached verdicts only go wrong over histories',
 'identity.c identity_priv.c', [('validated-state cache', S+'identity.c wickr_identity_chain_validate')])
prop('C07', 'Node validity always means root signed node key signed message key',
 'Verifying a node (device) succeeds exactly when both links of its trust chain verify as they stand: root over node key and node key over the ephemeral message key. Rotation of the ephemeral key, replacement of parts, copying or separate validation of the identity chain never lets an old verdict answer for new material.',
 ['inputs', 'histories'], 'all keys and signatures, all answers of the signature primitive, bounded histories of verify/rotate/replace/copy', 'tests verify fresh nodes only; stale-verdict defects need a history',
 'node.c node_priv.c ephemeral_keypair.c', [('node status cache', S+'node.c wickr_node_verify_signature_chain')])
prop('C08', 'Packet, key-exchange and payload encodings are lossless and refuse malformation',
 'Serializing any packet, key-exchange set, key exchange or payload (with every metadata field) and parsing it back returns equal content, including the packet version, format and signature. Any other byte string is refused or parsed into a well-formed object carrying a supported version; parsing never reads outside the input, leaks nothing and never crashes.',
 ['inputs'], 'all field values; arbitrary packet bytes of the bounded lengths; arbitrary well-formed inner messages', 'tests serialize a few packets; truncated and hostile inner fields are not tried',
 'protocol.c payload.c packet_meta.c key_exchange.c', [('packet header and signature length checks', S+'protocol.c'), ('required inner fields', S+'key_exchange.c payload.c')])
prop('C09', 'A packet is only decoded after its signature verified against the sender',
 'Parsing reports a valid signature exactly when the node key of the sender chain it is given (whose validity the caller establishes) signed the packet content as received, and decoding yields a payload only for packets so verified, addressed to the decoding device and decrypting correctly. Every other case produces the documented status (invalid signature, mac failure, node not found, key not found) and no plaintext or key material.',
 ['inputs'], 'every tampering of packet bytes, signature, sender chain and recipient; all answers of the signature primitive', 'tests flip one byte of one packet; the property is over every tampering and key combination',
 'protocol.c wickr_ctx.c', [('signature check before key exchange lookup', S+'protocol.c wickr_parse_result_from_packet'), ('decode guard', S+'protocol.c wickr_decode_result_from_parse_result')])
prop('C10', 'End to end: each recipient reads exactly what was sent, nobody else does',
 'A packet encoded for a set of nodes is decoded by each of those nodes, with its own message key, into exactly the payload, metadata and payload key the sender used, for every supported packet version. A device that is not a recipient finds no key exchange and obtains nothing, and a recipient using another private key obtains no payload.',
 ['inputs', 'configurations'], 'all payload bodies, metadata and packet versions; recipients and non-recipients', 'tests send a few payloads on the current version',
 'wickr_ctx.c protocol.c key_exchange.c payload.c', [('per-recipient key exchange', S+'key_exchange.c wickr_key_exchange_create_with_packet_key'), ('payload cipher', S+'payload.c')])
prop('C11', 'Key exchanges are bound to sender, recipient device and packet version',
 'The key that wraps a packet key for a recipient is derived from the Diffie-Hellman secret of the packet exchange key with that recipient and from a context that contains the recipient device and, from packet version 3 on, the sender and recipient root identities in a fixed order. Changing any of these or the version gives an unrelated key, and every packet uses a fresh exchange key and fresh payload key.',
 ['inputs', 'configurations'], 'all identities, devices and keys, each packet version; any substitution of one bound element', 'tests only check matching pairs decode',
 'protocol.c key_exchange.c wickr_ctx.c kdf.c', [('context salt per version', S+'wickr_ctx.c protocol.c'), ('HKDF of shared secret', S+'ecdh_cipher_ctx.c key_exchange.c')])
prop('C12', 'Encoding refuses recipients whose trust chain does not verify',
 'A packet is encoded only if the trust chain of every listed recipient verifies; if one fails, encoding returns nothing and encrypts nothing. Exactly one key exchange per recipient is produced, in the supported packet version range only.',
 ['inputs', 'configurations'], 'all recipient arrays up to the bound with any subset invalid; all 8-bit packet versions', 'tests never list an invalid recipient among valid ones at every position',
 'wickr_ctx.c protocol.c', [('recipient verification loop', S+'wickr_ctx.c'), ('version range check', S+'protocol.c')])
prop('C13', 'Streams accept each sequence number once, in increasing order, one direction',
 'A stream encodes or decodes a packet only when its sequence number is greater than every one handled before, and only in its own direction. A replayed or reordered packet, or tampered ciphertext or associated data (in transport sessions that includes the sequence number), never yields plaintext.',
 ['inputs', 'histories'], 'all 64-bit sequence numbers, all tampering, bounded histories', 'tests step through consecutive sequence numbers only',
 'stream_ctx.c', [('last_seq monotonic check', S+'stream_ctx.c')])
prop('C14', 'Both ends of a stream evolve to the same fresh keys and never reuse key and IV',
 'For any increasing sequence of packet numbers, including gaps across several key evolutions, the receiver derives the key the sender used and recovers the data; evolving is one-way through a keyed hash of the current key material and keys change exactly at the evolution boundaries. No two packets of one stream context are ever encrypted under the same key with the same IV.',
 ['inputs', 'histories', 'configurations'], 'all bounded histories of sequence numbers including skipped evolutions, all evolution rates', 'tests use default rate and consecutive numbers',
 'stream_ctx.c stream_iv.c stream_key.c', [('evolution loop', S+'stream_ctx.c'), ('IV counter', S+'stream_iv.c')])
prop('C15', 'Stream keys keep their parameters within limits through every representation',
 'A stream key exists only with a cipher key, an evolution key and an evolution rate between the documented minimum and maximum; serializing and parsing, and copying, preserve all of them and any attached user data. Malformed or out-of-range serialized keys are refused without leaking or crashing.',
 ['inputs', 'fault_sequences'], 'all 32-bit rates, all key contents, all serialized forms, allocation/engine failures', 'tests use two rates',
 'stream_key.c stream_key_priv.c', [('range check', S+'stream_key.c'), ('proto conversion', S+'stream_key_priv.c')])
prop('C16', 'Transport packet encoding is lossless and refuses malformed bytes',
 'Every transport packet (handshake or data, any sequence number, with or without a signature) parses back from its serialized form to the same type, sequence number, body and signature, and the bytes covered by signature or associated data are exactly the received header and body. Any other byte string is refused or yields a well-formed packet, never an out-of-bounds read.',
 ['inputs'], 'all 64-bit sequence numbers, all types, all bodies and arbitrary received bytes of the bounded lengths', 'tests parse their own packets only',
 'transport_packet.c', [('meta serialization', S+'transport_packet.c'), ('length checks', S+'transport_packet.c')])
prop('C17', 'A transport packet signature verifies only for its signer and exact bytes',
 'Verifying a signed transport packet succeeds exactly when the given identity chain is valid and its node key signed the packet bytes as received (or as will be sent). Signing then serializing, parsing and verifying succeeds; any changed byte of header, body or signature value, another signer or a missing signature fails.',
 ['inputs', 'histories'], 'all tampering of header, body, signature; all identities; sign/resign histories', 'tests verify one untouched packet and one bad signer',
 'transport_packet.c', [('verify over cached network bytes', S+'transport_packet.c')])
prop('C18', 'A completed handshake gives both ends the same keys, bound to its transcript',
 'When the initiator and responder complete a handshake with the genuine messages, the send key of each equals the receive key of the other, including cipher and evolution settings, and both know the identity of the other. Keys are derived from fresh ephemeral secrets bound to the exchanged handshake messages.',
 ['inputs', 'configurations'], 'all randomness, all user data, evolution rates and initial identities', 'tests check one completed handshake with default settings',
 'transport_handshake.c transport_handshake_priv.c transport_root_key.c ecdh_cipher_ctx.c', [('root key derivation', S+'transport_handshake.c'), ('per-direction keys', S+'transport_root_key.c')])
prop('C19', 'A handshake only completes with a peer that proved its identity',
 'A handshake reaches completion only if the peer messages were signed by an identity chain that verifies, match the expected identity when one was set, and belong to this handshake; wrong message kind, order, missing part or tampered content fails the handshake. Arbitrary peer messages never crash it or make it read outside them.',
 ['inputs', 'histories'], 'arbitrary well-formed and malformed peer messages at each step; all answers of the signature primitive', 'tests run the good handshake and a few substitutions',
 'transport_handshake.c transport_handshake_priv.c transport_packet.c', [('signature verification per step', S+'transport_handshake.c'), ('state machine', S+'transport_handshake.c')])
prop('C20', 'Transport sessions deliver only authenticated data and fail closed',
 'A transport context hands received data to the application only in the active state and only after it authenticated under the session receive key with its own sequence number; data is sent only in the active state. Any failed handshake step, send or receive moves it to the error state, and from there it neither sends nor delivers anything.',
 ['inputs', 'histories', 'fault_sequences'], 'arbitrary received bytes in every state, failures of any engine call, bounded histories', 'tests drive one successful conversation',
 'transport_ctx.c', [('status state machine', S+'transport_ctx.c')])
prop('C21', 'Password-protected exports open only with the password and intact data',
 'Data exported under a passphrase imports, with the same passphrase, to exactly the exported object; with another passphrase or any change to the export it yields nothing. The passphrase is always stretched by the configured KDF with the fresh salt stored in the export, and failures release everything.',
 ['inputs', 'fault_sequences'], 'all passphrases and tamperings at the bounded sizes; engine failures', 'tests use one passphrase and the KDF libraries are not even linked in this build',
 'crypto_engine.c kdf.c root_keys.c wickr_ctx.c', [('KDF cipher/decipher', S+'crypto_engine.c wickr_crypto_engine_kdf_cipher')])
prop('C22', 'Contexts, root keys and storage keys round-trip through their stored forms',
 'Root keys, storage keys, recovery data and contexts serialized, optionally encrypted or exported, and restored give back the same keys and identities; the restored context signs and decodes as the original did. Stored bytes that are not well-formed, or are decrypted with the wrong key, are refused.',
 ['inputs', 'fault_sequences'], 'all key contents; arbitrary stored bytes; engine failures at any call', 'tests round-trip one context',
 'wickr_ctx.c root_keys.c storage.c storage_priv.c identity.c', [('import/export', S+'wickr_ctx.c'), ('recovery key', S+'root_keys.c')])
prop('C23', 'Nothing meant for other parties contains private or storage key material',
 'Public serializations (identities, identity chains, nodes, ephemeral keypairs, packets, key exchanges, handshake messages) never contain private signing, message, exchange or storage keys; making a keypair public removes its private part. Private keys leave the library only inside ciphertext or the explicit private serialization functions.',
 ['inputs', 'histories'], 'all objects with and without private parts, all key values', 'tests compare round-trips, not absence of secrets',
 'identity_priv.c node_priv.c ephemeral_keypair_priv.c ephemeral_keypair.c protocol.c key_exchange.c transport_handshake.c', [('public proto conversions', S+'*_priv.c')])
prop('C24', 'Fingerprints depend on key and identifier only, and bilateral ones are symmetric',
 'A fingerprint is the hash of the identifier followed by the fixed-length public key, identical for equal inputs and computed from different input whenever key or identifier differ. The combined fingerprint of two users does not depend on who computes it, and the text outputs are the documented encodings (whole, or first half for the short form).',
 ['inputs'], 'all keys, identifiers and digests at the bounded sizes', 'tests use fixed vectors; order ties and failures never occur',
 'fingerprint.c b32.c util.c eckey.c', [('ordering', S+'fingerprint.c'), ('encoding', S+'b32.c util.c')])
prop('C25', 'Device identifiers derive from the system identifier exactly as documented',
 'Device information derived from a system identifier is a deterministic function of it and of the stored salts, different derived values use different salts, and re-deriving with the same salts returns the same values. Failures return nothing and leak nothing.',
 ['inputs', 'fault_sequences'], 'all identifiers, salts; failure of each engine call', 'tests check lengths and one equality',
 'devinfo.c', [('salted digests', S+'devinfo.c')])
prop('C26', 'The AES/digest/HMAC engine gives OpenSSL the right data and honours errors',
 'Encrypting or decrypting gives OpenSSL exactly the key, IV, associated data, text and tag of the request with the declared lengths, and returns data only if every OpenSSL step, including tag verification, reported success. Requests with inconsistent key, IV or tag sizes, or associated data on an unauthenticated cipher, are refused; nothing is read or written outside the given buffers and no OpenSSL object leaks.',
 ['inputs', 'fault_sequences'], 'all request shapes at bounded sizes, every OpenSSL return code at every call', 'OpenSSL never fails in tests and callers pass well-formed requests',
 'openssl_suite.c', [('EVP call sequence', S+'openssl_suite.c')])
prop('C27', 'File encryption round-trips, and never leaves a wrong result when I/O fails',
 'Decrypting an encrypted file restores its exact content. If any read, write, seek, flush, close or rename fails, or authentication fails, the operation reports failure and the destination path is not replaced by incomplete or unauthenticated data.',
 ['inputs', 'fault_sequences', 'crash_points'], 'all contents at bounded sizes, failure of any I/O or crypto call, any tampering', 'tests never see an I/O error',
 'openssl_file_suite.c', [('temporary file then rename', S+'openssl_file_suite.c')])
prop('C28', 'Raw signature and key conversions are exact and validate their input',
 'Converting a signature to its raw fixed-width form and back preserves both integers including leading zeros, and imported keys are accepted only if OpenSSL confirms they are valid for the curve. Conversion or OpenSSL failures yield nothing, without leaks.',
 ['inputs', 'fault_sequences'], 'all integer values and lengths, all OpenSSL return codes', 'short integers occur with probability 2^-8 and failures never in tests',
 'openssl_suite.c', [('padding to field size', S+'openssl_suite.c')])
prop('C29', 'Secrets derived through the ECDH cipher context match on both sides only',
 'Two parties holding matching key pairs and equal parameters derive the same cipher key and decrypt one another; a different peer key, parameter or cipher never decrypts. Invalid parameters or failures yield nothing.',
 ['inputs', 'fault_sequences'], 'all keys and KDF parameters, engine failures', 'tests use one key pair',
 'ecdh_cipher_ctx.c kdf.c', [('HKDF key derivation', S+'ecdh_cipher_ctx.c')])
prop('C30', 'KDF settings and salts survive storage, and unknown settings are refused',
 'KDF metadata serialized and parsed returns the same algorithm, cost and salt, and the same passphrase with the parsed metadata yields the same key of the declared size. Unknown algorithms, truncated metadata and failures yield nothing.',
 ['inputs', 'fault_sequences'], 'all metadata bytes of bounded length, all algorithms', 'the KDF tests cannot run in this build; only fixed vectors otherwise',
 'kdf.c', [('algorithm table', S+'kdf.c'), ('meta codec', S+'kdf.c')])
prop('C31', 'Key material is wiped before its memory is released',
 'When keys, shared secrets, derived keys, passphrase-derived material and decrypted key blobs are no longer needed, the bytes are overwritten before the memory is returned to the allocator, on success and on failure paths alike.',
 ['inputs', 'fault_sequences'], 'all key values, every engine failure point in the covered operations', 'released memory is invisible to tests',
 'memory.c buffer.c cipher.c eckey.c ecdh_cipher_ctx.c key_exchange.c wickr_ctx.c stream_ctx.c stream_key.c root_keys.c transport_root_key.c', [('zeroing destroy functions', S+'buffer.c wickr_buffer_destroy_zero')])
prop('C32', 'Copies are equal to and independent of their source',
 'Copying any object of the library yields an object with equal content that shares no storage with the source: destroying or changing either leaves the other intact. Copy of an absent object yields absence, not a crash.',
 ['inputs'], 'all field contents, optional parts present or absent', 'tests compare a few copies and rarely destroy the source first',
 'cipher.c ecdsa.c eckey.c identity.c node.c ephemeral_keypair.c payload.c packet_meta.c protocol.c key_exchange.c stream_key.c stream_ctx.c root_keys.c storage.c fingerprint.c devinfo.c transport_root_key.c transport_packet.c wickr_ctx.c encoder_result.c', [('*_copy functions', S)])
prop('C33', 'Any engine failure is reported, without leak, double free or crash',
 'If any call into the crypto engine fails at any point of an operation (context creation, encoding, decoding, import, export, handshake), the operation returns its documented failure value. All memory it allocated is released exactly once and its inputs stay owned by the caller.',
 ['fault_sequences'], 'failure of any subset of engine calls during each covered operation', 'the engine never fails in tests',
 'wickr_ctx.c protocol.c key_exchange.c root_keys.c devinfo.c crypto_engine.c identity.c transport_handshake.c', [('error paths', S)])
prop('C34', 'Stored or received protobuf data never crashes the parser',
 'Every public function that parses stored or received bytes (identities, chains, nodes, ephemeral keypairs, root keys, stream keys, payloads, key-exchange sets, contexts, handshake data) returns an object or nothing for arbitrary bytes and arbitrary well-formed messages with any fields absent, empty or of wrong length. It never reads outside them, leaks or crashes, and the object it returns is complete enough for the other functions to use.',
 ['inputs'], 'arbitrary messages: every presence/length combination and all contents at the bounded sizes', 'tests parse only what they serialized',
 'identity_priv.c node_priv.c ephemeral_keypair_priv.c root_keys.c storage_priv.c stream_key_priv.c payload.c key_exchange.c wickr_ctx.c transport_handshake_priv.c', [('*_create_from_proto functions', S)])
prop('C35', 'Language bindings keep ownership of native objects straight',
 'Objects handed across the Java/JavaScript/Rust bindings are released exactly once and never used after release.',
 ['histories', 'schedules'], 'all interleavings of garbage collection and API use in the host language', 'host language tests cannot force every collection order',
 '../swig', [('SWIG typemaps', 'src/wickrcrypto/swig')])
prop('C36', 'The cryptographic primitives resist forgery and inversion',
 'Without the keys nobody can forge a signature, find a hash collision, or learn plaintext, and random output is unpredictable.',
 ['inputs'], 'all polynomially bounded adversaries', 'no finite test settles a computational hardness claim',
 'openssl_suite.c', [('OpenSSL primitives', S+'openssl_suite.c')])
open(V + '/properties.jsonl', 'w').write(''.join(json.dumps(p) + '\n' for p in P))
for p in P:
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
    assert p['statement'].count('. ') <= 2, p['id']
