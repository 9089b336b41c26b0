#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "pycose/messages/"

# id: title, statement, quantifier kinds, quantifier text, why tests can't, files, mechanisms, state, observe_at, bounds
P = {}


def prop(id, title, statement, over, text, why, files, mech, observe, bounds, state=()):
    assert len(title) <= 80, title
    assert statement.count(". ") <= 2, (id, statement)
    P[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                 observe=observe, bounds=bounds, state=state)


SIGN1 = ["pycose/messages/sign1message.py", "pycose/messages/signcommon.py", "pycose/messages/cosebase.py",
         "pycose/algorithms.py"]
prop("S01", "COSE_Sign1 signs exactly the Sig_structure of RFC 8152",
     "The signature in an encoded COSE_Sign1 message is the algorithm's signature over exactly the CBOR array "
     "[\"Signature1\", protected header bytes as sent, external data, payload], attached or detached. Changing payload, "
     "external data or headers and signing again signs the new content. Without signing on request, the stored "
     "signature is sent unchanged and no private key is needed.",
     ["inputs", "histories"], "all payloads, external data, header contents and key choices; any sequence of changes "
     "between two encodings", "The test vectors fix a few payloads and headers; a wrong byte order, stale cached "
     "header or length-dependent prefix shows only on other inputs.", SIGN1,
     [("to-be-signed structure", "pycose/messages/sign1message.py _create_sig_structure"),
      ("signature", "pycose/messages/signcommon.py compute_signature")],
     ["encode()", "compute_signature()"], "payload 0..24 and 20..300 bytes, external data 0..6, histories of two observed operations with two changes")
prop("S02", "COSE_Sign1 verification accepts exactly what was signed",
     "A received COSE_Sign1 message verifies if and only if its signature is valid under the given key for exactly the "
     "received protected header bytes, external data and payload. Any other signature bytes, moved or dropped protected "
     "parameters, another key or other content give a negative answer, not an acceptance and not an unrelated crash.",
     ["inputs"], "every signature string up to four bytes longer than a real one, all header contents, payloads, external data",
     "Tests verify a handful of good messages and few bad ones; authenticity is about all the others.", SIGN1,
     [("verification", "pycose/messages/signcommon.py verify_signature"), ("signature primitives", "pycose/algorithms.py verify")],
     ["verify_signature()"], "one change of the received object between two verifications; signatures of any length up to real length + 4, payload 0..5, external data 0..3 bytes")
prop("S03", "Every COSE_Sign signer signs and verifies the body with its own headers",
     "In a COSE_Sign message signature k is made over [\"Signature\", body protected bytes, signer k's protected bytes, "
     "signer k's external data, payload] with signer k's key and algorithm and appears as element k. Each signer of a "
     "received message verifies exactly if its own signature covers the received bytes; another signer's signature "
     "never counts. A signer moved to another message signs that message's content.",
     ["inputs", "histories"], "all contents of body, signers and external data; two signers; assignment to another message",
     "Tests use single-signer vectors mostly; mixing up signers, parents or empty headers stays unseen.",
     ["pycose/messages/signmessage.py", "pycose/messages/signer.py"] + SIGN1[1:],
     [("per-signer structure", "pycose/messages/signer.py _create_sig_structure"), ("parent link", "pycose/messages/signmessage.py signers setter")],
     ["encode()", "signers[k].verify_signature()"], "one and two signers, histories of 3 operations, payload 0..4 bytes, headers with symbolic contents")
prop("S04", "No protected object is valid in another message type's context",
     "A signature, authentication tag or ciphertext made for one COSE structure is never accepted as one of another "
     "structure (single-signer versus multi-signer, single-recipient versus multi-recipient MAC or encryption) under "
     "the same key, whatever the other message contains.",
     ["inputs"], "all contents of both messages", "Tests never try to confuse contexts; it is a statement about all "
     "pairs of messages.", ["pycose/messages/" + f for f in ("sign1message.py", "signer.py", "mac0message.py",
                                                             "macmessage.py", "enc0message.py", "encmessage.py")],
     [("context string", "pycose/messages/*.py context attributes"), ("structure arity", "_create_sig_structure, _mac_structure, _enc_structure")],
     ["verify_signature()", "verify_tag()", "decrypt()"], "payload, external data, header values 0..3 bytes of both messages, up to 2 signers or recipients each")
MAC = [M + f for f in ("maccommon.py", "mac0message.py", "macmessage.py", "cosebase.py")] + ["pycose/algorithms.py"]
prop("M01", "MAC tags are the algorithm's MAC over exactly the MAC_structure",
     "The tag in an encoded COSE_Mac0 or COSE_Mac message is the algorithm's MAC, of the algorithm's length, over "
     "exactly [context, protected header bytes as sent, external data, payload] under the key. Recomputing after a "
     "change covers the new content.",
     ["inputs", "histories"], "all keys, payloads, external data, header contents for every MAC algorithm",
     "Vectors cover one input per algorithm; padding, truncation and block boundaries depend on the length.", MAC,
     [("structure", M + "maccommon.py _mac_structure"), ("HMAC / AES-CBC-MAC", "pycose/algorithms.py compute_tag")],
     ["encode()", "compute_tag()"], "payload 0..20 bytes (AES 0..5), around 23..257 for length prefixes")
prop("M02", "MAC verification accepts exactly the right tag",
     "A received MAC message verifies if and only if its tag equals, in content and length, the algorithm's MAC of the "
     "received content under the given key. Truncated, extended or foreign tags, moved parameters, another algorithm "
     "and other keys give a negative answer.",
     ["inputs"], "every tag string up to two bytes longer than a real one, all contents and keys",
     "Tests check good tags and single corruptions; acceptance of a shortened tag or a tag over re-encoded headers "
     "needs inputs nobody listed.", MAC,
     [("comparison", "pycose/algorithms.py verify_tag"), ("verification", M + "maccommon.py verify_tag")],
     ["verify_tag()"], "payload 0..4, external data 0..2, key id 0..2 bytes, tags 0..real length + 2")
prop("M03", "COSE_Mac works with every recipient class and all recipients share the key",
     "A COSE_Mac message with key-wrap or key-agreement recipients carries a tag made with one key of the algorithm's "
     "length that every recipient obtains from its own element, preset by the caller or random.",
     ["inputs", "configurations"], "all wrapping keys, content keys, payloads; one to three recipients; any recipient preset",
     "Existing tests only use direct recipients on COSE_Mac.", MAC + [M + "recipient.py"],
     [("key setup", M + "macmessage.py compute_tag"), ("common key", M + "recipient.py setup_cek")],
     ["encode()", "decode()", "verify_tag()"], "1-2 (thorough 3) recipients, payload 0..3 bytes")
ENC = [M + f for f in ("enccommon.py", "enc0message.py", "encmessage.py", "cosebase.py")] + ["pycose/algorithms.py"]
prop("A01", "Ciphertexts are the AEAD of the payload under the specified inputs",
     "The ciphertext in an encoded COSE_Encrypt0 or COSE_Encrypt message is the algorithm's AEAD of the payload under "
     "the key, with the message's IV as nonce, the algorithm's tag length and [context, protected header bytes as sent, "
     "external data] as associated data. Encrypting again after changes protects the new content, the caller's payload "
     "stays as it was, and the receiver gets it back.",
     ["inputs", "histories"], "all keys, IVs, payloads, external data and header contents for every AEAD algorithm",
     "Vectors sample one message per algorithm; header placement, sizes and re-encryption are not sampled.", ENC,
     [("associated data", M + "enccommon.py _enc_structure"), ("AES-GCM / AES-CCM", "pycose/algorithms.py")],
     ["encode()", "encrypt()", "decrypt()"], "payload 0..12 (thorough 30) and up to 256 bytes, external data 0..4 and up to 256")
prop("A02", "Decryption returns the plaintext only of authentic content",
     "Decrypting a received message returns the sender's plaintext if ciphertext, protected header bytes, external data, "
     "IV and key are those of the encryption, and otherwise raises and returns nothing. Keys of another length than "
     "the algorithm's are refused in both directions.",
     ["inputs"], "every ciphertext string up to a few bytes longer than a real one, all keys, IVs, contents",
     "Tests decrypt good vectors and single corruptions.", ENC,
     [("decryption", M + "enccommon.py decrypt"), ("key length", "pycose/algorithms.py _verify_key_length")],
     ["decrypt()"], "payload 0..5, external data 0..2 bytes, any ciphertext up to real length + 4")
prop("A03", "The nonce is derived from IV, partial IV and base IV as specified",
     "A full IV is used as it is. Otherwise the nonce is the key's base IV XORed with the left-padded partial IV, for "
     "encryption and decryption and in either bucket, so different partial IVs never give the same nonce. Where neither "
     "gives a nonce the operation is refused with the library's exception.",
     ["inputs", "configurations"], "all IVs, base IVs and partial IVs of one byte up to the nonce length",
     "The vectors have one partial IV length; leading zeros and lengths are a quantifier over inputs.", ENC[:1],
     [("nonce", M + "enccommon.py _get_nonce")], ["encrypt()", "decrypt()"],
     "partial IVs of 0 (no partial IV), 1, 2, 3, n-1 and n bytes for every nonce length n")
WIRE = [M + f for f in ("cosemessage.py", "cosebase.py", "sign1message.py", "signmessage.py", "signcommon.py",
                        "maccommon.py", "enccommon.py", "encmessage.py", "macmessage.py", "recipient.py")]
prop("W01", "Encoding and decoding a message are inverse to each other",
     "Decoding an encoded message gives a message of the same class with equal protected and unprotected headers, "
     "payload or ciphertext, signature or tag, signers and recipients, in order. Encoding without the tag gives the "
     "same bytes minus the tag; a detached payload stays detached and an empty one stays empty.",
     ["inputs", "configurations"], "all header contents, payloads, signer and recipient lists, tagged and untagged",
     "Round trips are tested on vectors only.", WIRE, [("encoding", M + "cosemessage.py encode"), ("decoding", M + "cosemessage.py decode")],
     ["encode()", "decode()"], "all six message classes, headers with symbolic keys and values, payload 0..4 bytes, up to 3 recipients, one header value of 17 CBOR kinds (floats, tags, big numbers, nesting)")
prop("W02", "Received protected header bytes are authenticated and re-sent verbatim",
     "However the sender encoded the protected header map, verification and decryption use the received bytes and "
     "sending the message on sends the same bytes. A message protected over one encoding is not accepted with another "
     "encoding of the same header. Once the header is assigned or updated, the new content is what is protected and sent.",
     ["inputs", "histories"], "every alternative encoding (up to 40 bytes) of a header map; assignments and updates after decoding",
     "Vectors are canonically encoded, so normalising the bytes goes unnoticed.", WIRE[:2] + WIRE[4:7],
     [("cached bytes", M + "cosebase.py phdr_encoded"), ("invalidation", M + "cosebase.py phdr setter, phdr_update")],
     ["decode()", "verify_*", "decrypt()", "encode()"], "opaque symbolic encodings of 1..40 bytes", (("received protected bytes", "kept next to the parsed map"),))
prop("W03", "Decoding dispatches on the CBOR tag and refuses everything else",
     "A received item decodes to the class registered for its CBOR tag; every other tag number, a message inside another "
     "tag, untagged or non-array item, non-byte-string payload and non-map header is refused with an exception.",
     ["inputs"], "all CBOR tag numbers 0..2^32 and all kinds of CBOR items", "Tests try two or three wrong inputs.", WIRE[:1],
     [("tag table", M + "cosemessage.py record_cbor_tag / decode")], ["decode()"], "tag numbers 0..2^32, 11 kinds of items")
prop("W04", "Malformed messages are refused, never silently repaired",
     "A message that lacks an element, has one of a wrong type, has a malformed signer or recipient or an illegal "
     "header value anywhere (body, signer, recipient) fails to decode, and so does one with surplus elements; no element "
     "is dropped and no illegal value kept.",
     ["inputs"], "all placements of a malformed element among well-formed ones, all illegal values of the typed headers",
     "Tests decode valid messages.", WIRE, [("recipient parsing", M + "encmessage.py / macmessage.py from_cose_obj"), ("header parsing", M + "cosebase.py _parse_header")],
     ["decode()"], "up to 3 signers or recipients, one malformed in any position, up to 2 surplus elements; 8 classes of element types")
HDR = [M + "cosebase.py", "pycose/headers.py", "pycose/utils.py"]
prop("H01", "Header lookup finds the value in either bucket and refuses duplicates",
     "Looking up a header parameter returns its value from whichever bucket carries it, falsy values included, and the "
     "caller's default when neither does. If both carry it the library's exception is raised, also when protecting or "
     "verifying with a duplicated algorithm.",
     ["inputs", "configurations"], "every registered parameter, placements in the buckets, values and defaults",
     "Tests look up present parameters.", HDR[:1], [("lookup", M + "cosebase.py get_attr")], ["get_attr()", "encode()", "verify_*"],
     "all registered header parameters, integer/byte values 0..2 bytes")
prop("H02", "Numbers and names resolve to exactly the registered attribute",
     "Every number or name, in any letter case, of a header parameter, algorithm, curve, key type, key operation or key "
     "parameter resolves to its attribute. Everything else is reported as unknown with that kind's exception, or kept as "
     "it is where unknown labels are allowed.",
     ["inputs"], "all CBOR integers (-2^64..2^64-1), all strings up to 5 characters and all case variants of every name",
     "Tests look up a few known names and one unknown.", ["pycose/utils.py", "pycose/headers.py", "pycose/algorithms.py",
     "pycose/keys/keyparam.py", "pycose/keys/keyops.py", "pycose/keys/keytype.py", "pycose/keys/curves.py"],
     [("registry", "pycose/utils.py _CoseAttribute.from_id")], ["from_id()", "decode()", "headers"], "integers -2^64..2^64-1, strings up to 5 characters, names given as bytes and other types")
prop("H03", "The spelling of labels and values does not change the message",
     "Header maps written with attribute classes, numbers or names (labels and algorithm values) give the same encoded "
     "message and the same protected bytes.",
     ["inputs"], "all combinations of spellings of several parameters, all letter cases", "Tests use one spelling per case.",
     HDR, [("header parsing", M + "cosebase.py _parse_header"), ("CBOR encoder", M + "cosebase.py _custom_cbor_encoder")],
     ["encode()"], "algorithm, key id, IV, content type in all spellings, both buckets")
prop("H04", "Registered attributes encode as their IANA values",
     "Every algorithm, header parameter, key operation, key type, key parameter and curve is known under its IANA "
     "number and encodes as that number, or an algorithm as its name on request. Curves have the right key type and "
     "coordinate size.",
     ["configurations"], "every entry of the registries against the IANA table", "Tests name a fraction of the entries.",
     ["pycose/algorithms.py", "pycose/headers.py", "pycose/keys/curves.py", "pycose/keys/keyops.py"],
     [("identifier tables", "class attributes of the registered classes")], ["encode()", "from_id()"], "all entries")
prop("H05", "Header values of defined type are checked in both buckets",
     "Values of the parameters with a defined type are accepted exactly if legal, constructing and decoding, in both "
     "buckets; illegal values raise ValueError.",
     ["inputs"], "all values of the kinds bytes, text, integer, list, nil, bool, map", "Tests try one illegal value or none.",
     ["pycose/headers.py", M + "cosebase.py"], [("value parsers", "pycose/headers.py value_parser")], ["constructor", "decode()"],
     "integers -300..300, strings up to 3 characters, lists up to 4 elements with an illegal one at any place")
prop("H06", "Strict mode refuses every unknown label, lenient mode keeps it",
     "With unknown header labels disallowed, decoding or constructing fails exactly if some bucket of the message, a "
     "signer or a recipient has an unregistered label. With them allowed, unknown labels and values are kept.",
     ["inputs", "configurations"], "all labels in all buckets at all levels", "Tests use one unknown label in one bucket.",
     WIRE, [("flag", M + "cosebase.py _parse_header(allow_unknown_attributes)")], ["decode()", "constructor"], "integer labels -2^64..2^64-1, text labels")
prop("T01", "Values of a wrong type are refused and change nothing",
     "Header maps, external data, payloads, keys, signatures, signer and recipient lists of another type are refused with "
     "an exception when constructing or assigning, and leave the message as it was.",
     ["inputs", "histories"], "all fields with values of every other type", "Tests check a few setters.",
     WIRE[:2] + [M + "signcommon.py", M + "maccommon.py"], [("setters", M + "cosebase.py, cosemessage.py property setters")],
     ["constructor", "property setters"], "8 message and recipient classes, 5 or more wrong types per field (bytearray, memoryview and tuple included)")
KEYS = ["pycose/keys/cosekey.py", "pycose/keys/ec2.py", "pycose/keys/okp.py", "pycose/keys/rsa.py", "pycose/keys/symmetric.py"]
prop("K01", "A key is used only as its type, algorithm and operations permit",
     "Every cryptographic operation of every message and recipient class succeeds exactly if the key is of the "
     "algorithm's type and curve, the key's algorithm parameter is absent or the operation's algorithm, and the key's "
     "operations are empty or include a permitting one. Otherwise it is refused with the library's exception before "
     "anything is produced.",
     ["inputs", "configurations"], "all operations x algorithm and operation restrictions of the key x key kinds",
     "Tests cover single wrong operations for few classes.", KEYS + [M + "signcommon.py", M + "maccommon.py", M + "enccommon.py", M + "recipient.py"],
     [("key check", "pycose/keys/cosekey.py verify")], ["encode()", "verify_*", "decrypt()", "recipient encode/decrypt"],
     "key operations lists of up to 2 numbers 1..10, every registered algorithm, 10 key kinds")
prop("K02", "Keys round-trip through their encoding and any spelling",
     "A key encodes as the map of its IANA labels and values and decodes to an equal key of the same type with all "
     "parameters, unknown ones included. Maps with classes, numbers or names (any letter case) give equal keys and are "
     "left unchanged.",
     ["inputs", "configurations"], "all key types, contents and spellings", "Tests cover fixed keys.", KEYS,
     [("encoding", "pycose/keys/cosekey.py encode/decode"), ("transform", "pycose/keys/cosekey.py from_dict")], ["encode()", "decode()", "from_dict()"],
     "symbolic key bytes at the curves' sizes; RSA fields 1..2 bytes; key id, base IV 0..2 bytes")
prop("K03", "Only well-formed keys can be built, decoded or assigned",
     "Symmetric keys are 16, 24 or 32 bytes, RSA keys are public, two-prime or multi-prime sets, EC2 and OKP keys have a "
     "curve of their type and a value, identifiers and base IVs are byte strings, operations a list; everything else is "
     "refused by constructors, decoding and assignment (property, item or another mapping operation, in any spelling). A refused assignment leaves "
     "the key as it was.",
     ["inputs", "histories"], "all lengths, parameter selections, curve numbers and key type numbers",
     "Tests check single bad values.", KEYS, [("constructors and setters", "pycose/keys/*.py")], ["constructors", "decode()", "setters"],
     "symmetric length 0..40, curve, algorithm and key type numbers -300..300, every selection of RSA fields, assigned values 0..2 (symmetric 18) bytes")
prop("K04", "Deleting key parameters never leaves an unusable key",
     "Deleting a parameter from a key, in any spelling and by any mapping operation, removes exactly it (both coordinates of a private EC2 key "
     "together) or is refused; what remains always encodes to a key that decodes again.",
     ["histories", "inputs"], "all sequences of two (thorough three) deletions in all spellings", "Tests delete single parameters.",
     KEYS, [("deletion guards", "pycose/keys/*.py __delitem__")], ["del key[...]", "encode()", "decode()"], "sequences of 2-3 deletions")
prop("K05", "EC2 points are consistent and imported or generated keys are complete",
     "A private EC2 key with public coordinates is accepted exactly if they are its public point; missing coordinates are "
     "computed at full width and a compressed one gives the point with that sign. PEM imports and generated keys have "
     "the numbers of the key at full width and the caller's parameters.",
     ["inputs", "configurations"], "all coordinate strings against fixed private keys; curves, PEM forms, sizes",
     "Tests use keys without leading zero bytes and correct coordinates.", KEYS,
     [("point check", "pycose/keys/ec2.py __init__"), ("PEM", "pycose/keys/cosekey.py from_pem_*")], ["constructors", "from_pem_*()", "generate_key()"],
     "any coordinate bytes of full length for 3 private keys per curve incl. leading zero bytes")
prop("K06", "Key operations are replaced atomically and only with legal ones",
     "Assigning key operations accepts exactly operations of the key's type in any spelling and replaces the previous "
     "ones; an empty list lifts the restriction and is never encoded; a refused list changes nothing.",
     ["inputs", "histories"], "all lists of up to two operations, legal lists of up to twelve", "Tests append single operations.", KEYS,
     [("setter", "pycose/keys/cosekey.py key_ops")], ["key_ops", "encode()"], "lists of up to 2 with numbers -2..13, legal lists of up to 12")
prop("K08", "Base64 helpers are inverse and refuse impossible text",
     "Decoding the base64 text of any bytes, standard or URL-safe, padded or not, gives the bytes; text of an impossible "
     "length is refused.", ["inputs"], "all byte strings up to the bound", "Tests decode one string.", KEYS[:1],
     [("helpers", "pycose/keys/cosekey.py base64encode/base64decode")], ["base64encode()", "base64decode()"], "up to 16 (thorough 33) bytes")
RC = [M + "recipient.py", M + "encmessage.py", M + "macmessage.py", "pycose/algorithms.py"]
prop("R01", "Wrapped-key recipients all receive the one content key",
     "Every key-wrap, key-transport or key-agreement-with-wrap recipient of a message gets the content's key wrapped under "
     "its own key, a key-wrap recipient without a key taking it from its own recipients; the key has the algorithm's length "
     "and is the caller's preset one or freshly random. Conflicting "
     "presets are refused, and only the right wrapped bytes and key open the message.",
     ["inputs", "configurations"], "all keys, one to three recipients of mixed classes, any preset",
     "Tests have one recipient with a preset key.", RC, [("key setup", M + "recipient.py setup_cek"), ("wrapping", "pycose/algorithms.py _AesKw, _RsaOaep")],
     ["encode()", "decode()", "decrypt()"], "1-3 recipients, one level of recipients below, payload 0..3 bytes, wrapped keys lengthened or cut by up to 16 bytes at either end")
prop("R02", "Direct key agreement derives the specified content key on both sides",
     "With a direct key agreement recipient the content key is HKDF, with the algorithm's hash, of the ECDH secret over "
     "the KDF context of the content algorithm, and the receiver derives the same. An ephemeral key is generated anew "
     "per message on the receiver's curve, with only its public part sent. Missing, foreign or other-curve keys and "
     "changed headers are refused.",
     ["inputs", "configurations"], "all contents and supplementary information, curves, algorithms", "Vectors fix one case per algorithm.",
     RC + [M + "context.py"], [("agreement", M + "recipient.py DirectKeyAgreement"), ("HKDF", "pycose/algorithms.py _EcdhHkdf")],
     ["encode()", "decrypt()"], "4 curves with fixed key pairs, symbolic contents")
P["R02"]["statement"] = ("With a direct key agreement recipient the content key is HKDF, with the algorithm's hash, of the "
    "ECDH secret over the KDF context of the content algorithm, for sender and receiver. An ephemeral key is generated "
    "anew per message on the receiver's curve and only its public part sent. Missing, foreign or other-curve keys and "
    "changed headers are refused.")
prop("R03", "Key agreement with key wrap transports the content key",
     "With such a recipient the content key is wrapped by the algorithm's key wrap under HKDF of the ECDH secret over the "
     "KDF context of the wrapping algorithm, and the receiver unwraps it; ephemeral and refused keys as for direct agreement.",
     ["inputs", "configurations"], "all content keys, contents, supplementary information, curves, algorithms",
     "Vectors fix one case per algorithm.", RC + [M + "context.py"], [("agreement", M + "recipient.py KeyAgreementWithKeyWrap")],
     ["encode()", "decrypt()"], "4 curves with fixed key pairs, symbolic contents")
prop("R04", "The KDF context carries all derivation inputs exactly",
     "Party identities, nonces and other fields, salt, supplementary information, protected header bytes as sent or "
     "received, algorithm and key length enter the key derivation exactly as the standard's structure says, absent ones "
     "as nil or omitted. Both sides agree exactly if all of them agree; illegal key lengths are refused.",
     ["inputs", "configurations"], "all field values and all combinations of absent fields", "Tests encode a few contexts.",
     [M + "context.py", M + "recipient.py", "pycose/algorithms.py"], [("context", M + "context.py encode"), ("collection", M + "recipient.py get_kdf_context")],
     ["encode()", "compute_cek()", "decrypt()"], "fields 0..2 bytes, 9 combinations of absent party fields, key length -40..300")
prop("R05", "Recipient modes combine only as the standard allows and are well formed",
     "Direct encryption is never mixed with another mode and direct key agreement is the only recipient, sending and "
     "receiving. Recipients that violate the structure of their mode (ciphertext, protected header, nested recipients, "
     "ephemeral key) are refused. The algorithm alone decides the class received, and a recipient is sent only with an "
     "algorithm of its class.",
     ["inputs", "configurations"], "all lists of up to three recipients; all algorithm numbers; all shapes of one recipient",
     "Tests cover three combinations.", RC[:3], [("mode check", M + "recipient.py verify_recipients"), ("parsing", M + "recipient.py from_cose_obj, create_recipient")],
     ["encode()", "decode()", "decrypt()"], "lists up to 3, algorithm numbers -300..300")
prop("R06", "Only a message's own recipients decrypt it; assigned lists replace",
     "A message is decrypted only for a recipient of its own recipient tree, not for an equal one of another message. "
     "Assigning a recipient list replaces the members, keeps the caller's list independent and refuses other objects "
     "without a change.",
     ["inputs", "histories"], "trees up to depth 3, sequences of assignments", "Tests decrypt for the first recipient.", RC[:3] + [M + "signmessage.py"],
     [("membership", M + "recipient.py has_recipient"), ("setters", M + "encmessage.py, macmessage.py recipients")], ["decrypt()", "recipients"],
     "depth 1..3 (chains of single recipients 1..4), 2-3 successive assignments")
prop("R07", "Nested recipients are read at every depth",
     "Recipients of recipients are decoded at every depth with class, headers, ciphertext, order and the context of their place, and are validated "
     "like outer ones, including the refusal of unknown labels on request.",
     ["inputs"], "trees up to depth 3 (thorough 4) with symbolic contents", "No test has nested recipients with contents checked.", RC[:3],
     [("parsing", M + "recipient.py from_cose_obj")], ["decode()"], "depth 1..3 (4), 1-2 recipients per level")
prop("X01", "Hash algorithms and certificate thumbprints are the named hashes",
     "Every hash algorithm gives the named hash of any data, truncated where the name says so. A thumbprint matches "
     "exactly the certificates with that hash, survives a message header, and is equal only to one of the same algorithm and bytes.",
     ["inputs"], "all data and certificates up to the bound, all thumbprint strings", "One certificate is tested.",
     ["pycose/algorithms.py", "pycose/extensions/x509.py"], [("hash", "pycose/algorithms.py _HashAlg"), ("thumbprint", "pycose/extensions/x509.py X5T")],
     ["compute_hash()", "X5T"], "data 0..8 (thorough 64) bytes")
prop("X02", "Certificate bags and chains keep their order and are validated on request",
     "One certificate is carried as a byte string, several as a list in order, in either bucket. A chain is validated "
     "exactly when asked, for its first certificate with the others as intermediates and the given key usage, and the "
     "validator's refusal is passed on.",
     ["inputs", "configurations"], "lists of up to seven certificates with any contents", "No test covers them.", ["pycose/extensions/x509.py"],
     [("normalisation", "pycose/extensions/x509.py X5Bag, X5Chain")], ["encode()", "verify_chain()"], "0..7 (thorough 30) certificates of 0..4 bytes")
prop("X03", "Everything can be printed, without secrets and without effect",
     "Every message, recipient, signer and key can be printed in every state, without payload, and with known and unknown "
     "headers and parameters. The text depends on nothing of a secret value but its length and first five bytes, and printing leaves "
     "the object and what it encodes as they were.",
     ["inputs", "configurations"], "all payloads, header and parameter contents, every kind of message and key",
     "No test prints anything but a few keys; a state without a payload or a leaked value shows only there.",
     [M + "cosebase.py", M + "recipient.py", M + "signer.py", "pycose/keys/cosekey.py", "pycose/keys/rsa.py", "pycose/utils.py"],
     [("header text", M + "cosebase.py _hdr_repr"), ("key text", "pycose/keys/cosekey.py _key_repr and __repr__ of each key type")],
     ["repr()", "encode() afterwards"], "byte strings 0..8, secrets of 6..70 and up to 512 bytes, ten header shapes, five kinds of key; secrecy by comparing the texts of two keys")
prop("D01", "Exactly one of attached and detached payload is used",
     "Signing and verifying use the attached payload or the detached one given; with both or with neither they raise, and "
     "an empty byte string counts as a payload.", ["inputs", "configurations"], "all payloads, all four combinations, single and multi signer",
     "Tests cover the two legal combinations.", [M + "signcommon.py", M + "signer.py"], [("payload choice", M + "signcommon.py / sign1message.py _sig_structure")],
     ["compute_signature()", "verify_signature()", "encode()"], "payloads 0..3 bytes, all forms of the encode() call")
prop("L01", "Local attributes stay local and instances share nothing",
     "Attributes kept locally never enter the encoding or the header lookup. Messages, recipients, signers and keys made "
     "with defaults, from the same header maps or decoded one after another share no mutable state.", ["histories", "inputs"],
     "all contents, pairs of instances, changes to one of them", "Tests use one instance at a time.", WIRE + KEYS,
     [("instance state", M + "cosebase.py __init__")], ["encode()", "get_attr()", "attributes"], "two instances of 8 classes, headers nested two deep")

for _id, _what in (
        ("A03", "changes of IV, partial IV, base IV or key"), ("D01", "changes of payload, detached payload and content"),
        ("H01", "changes of a bucket"), ("H02", "lookups in two registries"), ("H06", "strict and lenient decodings"),
        ("K01", "operations and restrictions of one key"), ("K02", "changes of a key"), ("K06", "assignments and deletions"),
        ("R02", "changes of the keys, parties and headers"), ("R03", "changes of the keys, parties and headers"),
        ("R04", "received messages with other fields"), ("R05", "assigned recipient lists"),
        ("W01", "decoded messages"), ("X01", "hash computations")):
    P[_id]["over"] = [o for o in P[_id]["over"] if o != "histories"] + ["histories"]
    P[_id]["bounds"] += "; histories of two (thorough three) " + _what + ", with the operation observed between them"

for _id in ("A01", "A02", "M01", "M02", "S01", "S02", "S03", "D01", "W01", "R01", "R04", "K02"):
    P[_id]["bounds"] += "; byte fields of every length to 300 (thorough 1100), and of 70000 bytes with symbolic ends"
for _id in ("W02", "X01", "X02"):
    P[_id]["bounds"] += "; contents of 70000 bytes"
for _id, _what in (("S03", "signers"), ("R01", "recipients"), ("M03", "recipients"), ("W01", "labels"), ("H01", "labels"),
                   ("K02", "parameters"), ("W04", "signers or recipients"), ("X02", "certificates")):
    P[_id]["bounds"] += "; 30 " + _what
P["R07"]["bounds"] += "; nesting 12 deep"

LEVEL = ("bounded, exhaustive over all values within: %s. Symbolic execution of the code in /repo by z3 with path "
         "enumeration; every feasible path is explored; evidence reports any path left, cut or with a value fixed (none on the committed tree); cryptographic "
         "primitives are ideal (collision-free, unforgeable) and cbor2 is modelled by injective terms with byte-exact "
         "encodings; asymmetric keys are fixed; paths are sampled and replayed on the real library, "
         "counterexamples always")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for id in sorted(P):
            p = P[id]
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                 "observe_at": p["observe"], "hook_needed": None}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m} for n, m in p["state"]]
            f.write(json.dumps({"id": id, "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    m = {"version": 1, "setup_cmd": "./check --self-test",
         "checks": [{"property": id, "quick_cmd": "./check %s --tier quick" % id,
                     "thorough_cmd": "./check %s --tier thorough" % id, "evidence_file": "evidence/%s.json" % id,
                     "technique": "symbolic execution of the real Python code with z3 (bounded), counterexamples replayed",
                     "level": "model_checking", "level_note": LEVEL % P[id]["bounds"]} for id in sorted(P)],
         "not_applicable": [],
         "notes": "No hooks in /repo: the engine instruments a copy of the modules in memory at import."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
