#!/usr/bin/env python3
"""Writes known_findings.json. Fixed entries suppress nothing."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("H01", "d516030", "get_attr with a default value reported duplicates or hid a value present in the unprotected bucket"),
 ("A03", "c59b10a", "the nonce built from a partial IV lost leading zeroes; a missing or too long partial IV crashed"),
 ("R06", "5dafdc3", "a nested recipient was forgotten when a later sibling had recipients"),
 ("K04", "4ca8e56", "deleting a key attribute could remove the last OKP key value or refuse a private attribute"),
 ("R06", "91c6939", "assigning recipients appended to the previous list"),
 ("R07", "d20d78a", "recipients of recipients were dropped when decoding"),
 ("W04", "a5b535f", "one malformed recipient made decoding drop the whole recipient list silently"),
 ("M03", "0479b98", "COSE_Mac with key wrap, key agreement or no recipients crashed"),
 ("R01", "af46b2e", "recipients before one with a preset CEK were given another, random CEK"),
 ("R02", "14c6454", "direct key agreement with an ephemeral key crashed unless the caller made the key"),
 ("S03", "15db026", "Sig_structure of a signer with empty protected header left out the signer field"),
 ("R04", "bdf4754", "KDF context re-encoded the protected header, with an empty one as a map, and never checked the key length"),
 ("R04", "23e04ca", "the salt header parameter was ignored in key derivation"),
 ("K01", "ce86a23", "ECDSA and ECDH used a key's numbers on another curve than the key's own"),
 ("K01", "d1da9c1", "key wrap recipients ignored the algorithm and key operations of the caller's key"),
 ("X01", "e68cf39", "SHAKE128 and SHAKE256 could not be computed"),
 ("K05", "72b67ff", "EC2 keys with a compressed y coordinate got the wrong point or were rejected"),
 ("K06", "96c40af", "a rejected list of key operations was stored nevertheless; an empty list did not clear them"),
 ("H04", "966875a", "X448 coordinate size was 57 instead of 56 bytes"),
 ("A02", "d7d1f21", "AES algorithms accepted keys of another length than their own"),
 ("K02", "595999a", "decoding a key of an unknown type raised KeyError"),
 ("K08", "38ecad0", "base64decode returned None for a string of an impossible length"),
 ("X02", "0b9512e", "X5Chain.verify_chain of a single certificate used the certificate's bytes as a list"),
 ("K01", "22303b7", "RSA key wrap without a key raised AttributeError"),
 ("W04", "c213f7f", "a protected header of nil was decoded as an empty one"),
 ("W04", "c509bf2", "signatures and tags that are not byte strings were decoded"),
 ("W04", "a0ef8d6", "an unprotected header of nil was decoded as an empty one"),
 ("T01", "7c1434d", "a signer list with other objects was taken, and its signers adopted even if it was refused"),
 ("W04", "cbe4f4d", "surplus elements of messages, signers and recipients, and signer or recipient lists of another type, were dropped silently"),
 ("K03", "be2ed08", "assigning a key type stored a key parameter or took another class's type"),
 ("K02", "ae42d7c", "keys with more than two primes lost their additional parameters when encoded"),
 ("K04", "923b181", "deleting a parameter of an RSA key could leave no valid key"),
 ("K03", "11088c6", "assigning an empty value to a key parameter left a key that does not decode"),
 ("K03", "b86fe42", "item assignment on keys stored unresolved spellings and illegal values"),
 ("K02", "fb4564c", "names of key parameters and key types in other than capital letters were refused or not checked"),
 ("K03", "b964501", "values given as optional parameters bypassed the checks of the key types"),
 ("R02", "e567259", "a refused ephemeral key stayed set, so the next encoding was protected with a key the receiver never gets"),
 ("R05", "b03f933", "a recipient with an algorithm of another class failed with AttributeError while naming the class"),
 ("H02", "283ac8b", "true was taken for the label, algorithm, key type, curve or operation number 1"),
 ("H02", "9cd7582", "lists were taken as algorithms and as key operations"),
 ("H05", "e169572", "booleans were taken as content types and critical labels"),
 ("K03", "deda33c", "key identifiers and base IVs of any type were taken when constructing and decoding keys"),
 ("R05", "c2705e8", "direct recipients with an algorithm of another class were sent, others failed with AttributeError"),
 ("K06", "cc92fce", "operation names in other than capital letters were refused when assigned"),
 ("X03", "3032c0a", "printing a message without a payload raised TypeError"),
 ("X03", "24d4f37", "printing an RSA key showed its private values in full"),
 ("H01", "8fc90c6", "a header parameter with a nil value was looked up as absent, and its duplicate not refused"),
 ("S02", "c48291b", "an RSA-PSS signature without its leading zero bytes was accepted as the signature it was made from"),
 ("R05", "6ec9c4d", "an ephemeral-static key agreement with key wrap went without an ephemeral key: the message could not be read"),
 ("K06", "02c8b05", "RSA keys could not be assigned the operations of key transport (encrypt, decrypt, wrap, unwrap)"),
    ("R01", "9f1bf92", "key-wrap recipients without a key could not take it from their own recipients (TypeError)"),
 ("L01", "e1289b6", "KDF contexts shared one default PartyInfo"),
]
# recorded, not repaired: dicts with id, property, case, labels, params, what
OPEN = []
out = [{"id": "F%02d" % i, "kind": "fixed", "property": p, "commit": c,
        "entry": "fixed: property=%s %s %s" % (p, c, w)} for i, (p, c, w) in enumerate(FIXED, 1)]
with open(os.path.join(ROOT, "known_findings.json"), "w") as f:
    json.dump({"findings": out + OPEN}, f, indent=1)
    f.write("\n")
