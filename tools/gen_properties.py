#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (the text lives here because JSONL is painful to edit by hand).
import json, os
BTC7 = ["btcTransaction", "omniTransaction", "hcTransaction", "cxcTransaction", "zencashTransaction", "bitcoincashTransaction", "bitcoinsvTransaction"]
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("A01", "Addresses encode canonically and decode back to the same payload",
 "For every supported address profile of every coin and every payload of that profile's length, encoding yields the text the coin's published format prescribes (alphabet, version bytes, human-readable part, checksum). Decoding that text under the same profile returns exactly the payload, including payloads with leading zero or all-ones bytes. Where a profile hashes public keys, giving the public key instead of the hash yields the address of that key's hash.",
 ["inputs", "configurations"], "every profile exported by the address package x every payload of the declared length",
 "The tests encode one or two sample payloads for some of the roughly 130 profiles; leading-zero payloads, digit-carry patterns and most profiles are never exercised.",
 ["addressEncoder/addressEncoder.go", "addressEncoder/encoderProfile.go", "addressEncoder/base58.go", "addressEncoder/base64.go", "addressEncoder/bech32/", "addressEncoder/bech32m/", "addressEncoder/base32PolyMod/", "addressEncoder/eip55/", "addressEncoder/blake256/", "addressEncoder/blake2b/"],
 [("AddressEncode/AddressDecode dispatch", "addressEncoder/addressEncoder.go"), ("profile table", "addressEncoder/encoderProfile.go"), ("radix-58 codec", "addressEncoder/base58.go")],
 ["AddressEncode", "AddressDecode", "Base58Encode", "Base58Decode"])

prop("A02", "Mistyped, damaged or foreign-network addresses are rejected",
 "For every checksummed address format, a valid address with one character replaced, removed, inserted, or two neighbours swapped is reported as an error and never decoded to a payload. An address of one network or script type is refused when decoded under a profile whose version bytes or human-readable prefix differ, and the address check for a coin symbol accepts that coin's addresses only.",
 ["inputs", "configurations"], "every profile x every single-character edit of a valid address, and every ordered pair of profiles",
 "Tests decode a handful of good addresses; almost no damaged or cross-network address is tried.",
 ["addressEncoder/addressEncoder.go", "addressEncoder/addressCheck.go", "addressEncoder/bech32/", "addressEncoder/bech32m/", "addressEncoder/base32PolyMod/", "addressEncoder/eip55/"],
 [("checksum verification", "addressEncoder/addressEncoder.go VerifyChecksum/DecodeData"), ("prefix recovery", "addressEncoder/addressEncoder.go recoverData")],
 ["AddressDecode", "AddressCheck"])

prop("A03", "Address and key text parsing never crashes",
 "Decoding or checking any text, however short, truncated, or made of unexpected characters, under any address profile, any driver's address decoder or as an extended key returns a value or an error. It never panics or loops.",
 ["inputs"], "every string up to a small length over a boundary alphabet, and every truncation/extension of every valid address and extended key, for every decoder",
 "Tests only feed well-formed text; a panic in a wallet server on user-supplied text is a denial of service.",
 ["addressEncoder/", "owkeychain/owencode.go", "btcTransaction/base58.go", "btcTransaction/bech32.go", "btcLikeTxDriver/", "rippleTransaction/", "elastosTransaction/", "waykichainTransaction/", "vollarTransaction/", "virtualeconomyTransaction/"],
 [("length checks before slicing", "all decoders")], ["AddressDecode", "AddressCheck", "DecodeCheck", "Bech32Decode", "OWDecode"])

prop("A04", "Each driver's built-in address codec agrees with the network format",
 "The address encoders and decoders bundled with the transaction drivers produce and accept exactly the network's address text: encoding then decoding returns the same version and hash, every encoding equals the published format, and an address whose checksum is damaged by a one-character edit is refused.",
 ["inputs"], "every driver codec x every version prefix x payload family x every single-character edit",
 "Driver tests contain a few fixed addresses; each driver carries its own copy of the codec so a slip in one copy is invisible to the tests of the others.",
 ["btcTransaction/base58.go", "btcTransaction/bech32.go", "btcLikeTxDriver/base58.go", "rippleTransaction/base58.go", "ontologyTransaction/base58.go", "hypercashTransaction/base58.go", "bytomTransaction/bech32.go", "cosmosTransaction/bech32.go", "vollarTransaction/base58.go", "owkeychain/base58.go"],
 [("EncodeCheck/DecodeCheck", "*/base58.go"), ("Bech32Encode/Bech32Decode", "*/bech32.go")], ["Encode", "Decode", "EncodeCheck", "DecodeCheck", "Bech32Encode", "Bech32Decode"])

prop("K01", "Key derivation is the published algorithm and commutes with public derivation",
 "For every seed, curve and path, the derived private key, public key, chain code, depth, index and parent fingerprint are those the keychain's documented derivation algorithm yields, always at full key length. For every non-hardened step, deriving publicly from the public parent gives the public key of the privately derived child; hardened steps are impossible from a public parent.",
 ["inputs", "histories"], "every derivation history (sequence of child indices, private or public step at each level) up to a depth bound, per curve and seed",
 "Tests derive a few fixed paths on fixed seeds and compare the library with itself; leading-zero child keys and mixed private/public histories are not reached.",
 ["owkeychain/extendedkey.go", "owkeychain/hdkey.go", "owkeychain/hdprofile.go"],
 [("child key derivation", "owkeychain"), ("path walking", "owkeychain")], ["GenPrivateChild", "GenPublicChild", "DerivedPrivateKeyWithPath", "DerivedPublicKeyFromPath"])

prop("K02", "Extended keys survive text export and damaged text is rejected",
 "For every extended key, private or public, on every curve, exporting to text and importing returns an equal key, so deriving from the imported key continues identically. A text with any single character replaced, removed, or swapped, or with a wrong version, is refused.",
 ["inputs", "histories"], "every key reachable by a bounded derivation history x every single-character edit of its text form; multi-signature share strings likewise",
 "The tests export a couple of keys; no damaged text is tried.",
 ["owkeychain/owencode.go", "owkeychain/multisig.go"],
 [("OWEncode/OWDecode", "owkeychain"), ("share encoding", "owkeychain")], ["OWEncode", "OWDecode", "ChainDecode"])

prop("K03", "Derivation paths mean exactly what they say",
 "Spaces aside, a private path is accepted exactly when it is a root marker (m, / or nothing) or m/ followed by slash-separated decimal indices below 2^31, each optionally marked hardened with one apostrophe; a relative public path starts with / instead. It then denotes exactly that sequence of child indices. Any other text is refused and never silently derives a different key, and the depth limit of 255 is enforced on private and public derivation alike.",
 ["inputs"], "every path string up to a bounded number of tokens over a boundary token alphabet (signs, spaces, overflow, markers, empty tokens)",
 "Tests pass only well-formed paths.",
 ["owkeychain/hdkey.go", "owkeychain/extendedkey.go"], [("path parsing", "owkeychain getDerivedPath")], ["DerivedPrivateKeyWithPath", "DerivedPublicKeyFromPath"])

prop("B01", "Bitcoin-family unsigned transactions encode exactly what was requested",
 "For every list of inputs, outputs, amounts, lock time and replaceability accepted by a Bitcoin-family driver (BTC, Omni, HC, CXC, Zencash, BCH, BSV, generic), the unsigned transaction is the network's serialization of exactly those inputs (id, index, sequence), outputs (order, amount, locking script of the named address, token or asset payload) and lock time. Nothing is added, dropped, reordered or truncated, and decoding it with the driver gives the same fields back.",
 ["inputs", "configurations"], "every combination of driver, network prefix, input/output counts, address types, boundary amounts and indices, lock time and replaceable flag within the bounds",
 "Tests build a few fixed transactions per driver, mostly one or two inputs and outputs with ordinary amounts.",
 [p + "/" for p in BTC7] + ["btcLikeTxDriver/"],
 [("CreateEmptyRawTransaction and serializers", "*/transaction.go, txIn.go, txOut.go")], ["CreateEmptyRawTransaction", "CreateEmptyOmniRawTransaction", "CreateEmptyAssetRawTransaction", "DecodeRawTransaction"])

prop("B02", "Bitcoin-family signing digests are the consensus digests of every input",
 "For every unsigned transaction and the outputs it spends, the digest handed out for signing each input is the one the network's consensus rules define for that input's script type (legacy, pay-to-script-hash, version-0 witness, wrapped witness, fork-id), in input order, and names the address or public keys that must sign.",
 ["inputs", "configurations"], "every assignment of spendable output types to inputs x transaction shape x amounts within the bounds",
 "Tests compare a few transactions; mixed input types and several inputs per transaction are rarely combined.",
 [p + "/" for p in BTC7] + ["btcLikeTxDriver/"],
 [("CreateRawTransactionHashForSig", "*/transaction.go, txHash.go")], ["CreateRawTransactionHashForSig"])

prop("B03", "Completed Bitcoin-family transactions are spendable on the network",
 "Whenever every digest is signed by the key that owns the spent output and the signatures are merged, the final transaction has the requested inputs, outputs and lock time unchanged, and an independent evaluation of the network's script rules accepts every input. The driver's own verification of that transaction succeeds, whichever keys and signature values occur.",
 ["inputs", "histories"], "every create-hash-sign-merge-verify history over all input type assignments, key choices and signer subsets within the bounds",
 "Tests stop at the driver's own verification for fixed keys, so a malformed but self-consistent transaction passes.",
 [p + "/" for p in BTC7] + ["btcLikeTxDriver/"],
 [("InsertSignatureIntoEmptyTransaction", "*/transaction.go"), ("script signature encoding", "*/SignaturePubkey.go")], ["InsertSignatureIntoEmptyTransaction", "VerifyRawTransaction"])

prop("B04", "Bitcoin-family verification rejects every tampered or wrongly signed transaction",
 "Verification accepts a transaction only if each input carries valid signatures, over that transaction's digests, by the keys that the spent outputs require. Altering any byte of a signed transaction, any spent amount the digest commits to or locking script it is checked against, or substituting a signature or key of someone else makes it fail.",
 ["inputs"], "every byte position of signed transactions of every input type x a set of changes; every wrong-key/wrong-signature/missing-signature assignment",
 "Tests only verify transactions that are correct.",
 [p + "/" for p in BTC7] + ["btcLikeTxDriver/"], [("VerifyRawTransaction", "*/transaction.go")], ["VerifyRawTransaction"])

prop("B05", "m-of-n multisignature spends work for every signer subset",
 "For every threshold m and key count n the drivers accept, the multisignature address commits to exactly that script over those keys in the given order. Any m of the n signers, signing in any order, complete a spend the network accepts, and fewer than m distinct signers never yield a transaction that verifies.",
 ["inputs", "configurations", "histories"], "every 1<=m<=n within the bound, every subset of signers and signing order, legacy and witness forms, every driver offering multisig (Bitcoin family, Bytom, Ontology)",
 "Tests try one 2-of-3 subset.",
 [p + "/txMultiSig.go" for p in BTC7] + ["btcLikeTxDriver/multiSig.go", "bytomTransaction/txMultiSig.go"], [("CreateMultiSig and redeem handling", "*/txMultiSig.go")], ["CreateMultiSig", "VerifyRawTransaction"])

prop("U01", "Other UTXO-chain transactions encode and digest exactly what was requested",
 "For the Alien, Verge, Vollar, HyperCash, Elastos, Mateverse, FIII and Bytom drivers, the unsigned transaction is the chain's serialization of exactly the requested inputs, outputs, amounts and lock data, and the digest handed out for each input is the chain's signing digest of that transaction for that input.",
 ["inputs", "configurations"], "every request within the bounds of counts, address types, boundary amounts, indices and lock values",
 "Each driver has one or two fixed sample transactions in its tests.",
 ["aliencoinTransaction/", "vergeTransaction/", "vollarTransaction/", "hypercashTransaction/", "elastosTransaction/", "mateverseTransaction/", "fiiiTransaction/", "bytomTransaction/"],
 [("transaction structs and serializers", "*/txStruct.go, transaction.go")], ["CreateEmptyTransactionAndHash", "CreateEmptyRawTransactionAndHash"])

prop("U02", "Other UTXO-chain drivers complete correct signatures and reject all others",
 "For the same drivers, signing every digest with the owning key and combining yields the transaction with exactly the requested content plus those signatures and keys in the chain's format, whatever the signature values. Combining or verifying is refused when a signature or key is altered, missing, swapped or someone else's, or when any transaction byte that the chain's digest covers is altered. (FIII signs only the spent outpoint, HyperCash does not sign its fraud-proof data, and an Elastos transaction does not name its signers.)",
 ["inputs", "histories"], "every create-sign-combine history within the bounds, and every single alteration of its signatures, keys, order and transaction bytes",
 "Tests combine a single correct signature set.",
 ["aliencoinTransaction/", "vergeTransaction/", "vollarTransaction/", "hypercashTransaction/", "elastosTransaction/", "mateverseTransaction/", "fiiiTransaction/", "bytomTransaction/"],
 [("VerifyAndCombine*", "*/transaction.go")], ["VerifyAndCombineTransaction", "VerifyAndCombineRawTransaction", "VerifyRawTransaction"])

prop("T01", "Account-chain transactions encode and digest exactly what was requested",
 "For the Ripple, Cosmos, EVA, Binance Chain, Polkadot, VSYS, MOAC, Filenet, Ontology, WaykiChain and BigBang drivers, the unsigned transaction is the chain's serialization of exactly the requested sender, recipient, amount, fee, sequence, memo and expiry values, and the digest handed out is the chain's signing digest of it.",
 ["inputs", "configurations"], "every request within the bounds: boundary integers of every width, address kinds, memo shapes, optional fields present or absent",
 "Each driver has a few fixed samples; boundary integers and optional-field combinations are not covered.",
 ["rippleTransaction/", "cosmosTransaction/", "evaioTransaction/", "binancechainTransaction/", "polkadotTransaction/", "virtualeconomyTransaction/", "moacchainTransaction/", "filenetTransaction/", "ontologyTransaction/", "waykichainTransaction/", "bigbangTransaction/"],
 [("transaction structs and serializers", "*/txStruct.go, transaction.go")], ["CreateEmpty*"])

prop("T02", "Account-chain drivers complete correct signatures and reject all others",
 "For the same drivers, signing the digest with the sender's key and combining yields the requested transaction with exactly that signature and key in the chain's wire format, whatever the signature value. Combining or verifying fails when the signature, the public key or any byte of the transaction is altered without the others being made to match. Where the transaction itself names the signing account by a hash of its key (Ripple, Binance Chain), another key is refused even with its own correct signature.",
 ["inputs", "histories"], "every create-sign-combine history within the bounds, and every single alteration of signature, key and transaction bytes",
 "Tests combine one correct signature.",
 ["rippleTransaction/", "cosmosTransaction/", "evaioTransaction/", "binancechainTransaction/", "polkadotTransaction/", "virtualeconomyTransaction/", "moacchainTransaction/", "filenetTransaction/", "ontologyTransaction/", "waykichainTransaction/", "bigbangTransaction/"],
 [("VerifyAndCombine*", "*/transaction.go")], ["VerifyAndCombineTransaction", "VerifyAndCombineRawTransaction", "VerifyTransaction"])

prop("R01", "Malformed transactions, signatures and keys never crash a driver",
 "Decoding, hashing, merging, combining or verifying any truncated, extended or corrupted transaction text, or any signature or public key of wrong length or content, returns an error or a negative verdict in every driver. It never panics, hangs or allocates without bound.",
 ["inputs", "fault_sequences"], "every truncation point and every byte position x boundary replacement of valid inputs of every entry point, plus empty/nil arguments",
 "Tests only use valid transactions.",
 ["*Transaction/", "btcLikeTxDriver/"], [("length checks in decoders", "*/transaction.go, txIn.go, txOut.go")], ["DecodeRawTransaction", "VerifyRawTransaction", "VerifyAndCombine*", "CreateRawTransactionHashForSig"])

prop("R02", "Requests that cannot be honoured are refused, never silently altered",
 "When a request names an address of a wrong checksum, network or length, a transaction id or other identifier of wrong length or alphabet, no inputs or outputs, or a number that the chain's format cannot represent, every driver returns an error. It never returns a transaction that pays a different recipient, amount or source than the request says.",
 ["inputs", "configurations"], "every single deviation from a valid request, over all request fields and a boundary set of invalid values, in every driver",
 "Tests contain a few negative cases only.",
 ["*Transaction/", "btcLikeTxDriver/"], [("request validation", "*/transaction.go, txIn.go, txOut.go")], ["CreateEmpty*"])

prop("S01", "Results never depend on earlier calls and arguments are left untouched",
 "Every operation gives the same result for the same arguments no matter which operations ran before it in the process, apart from documented timestamps and random nonces. No operation modifies the byte slices, lists or structures its caller passed in, nor results it returned earlier.",
 ["histories", "inputs"], "every ordered sequence of operations up to a depth bound over an alphabet covering every exported entry point of every package",
 "Tests run each operation once in isolation and never look at their arguments again.",
 ["addressEncoder/", "owkeychain/", "*Transaction/", "btcLikeTxDriver/"], [("absence of shared mutable state", "package-level variables of all packages")], ["all exported entry points"], None)

prop("S02", "Concurrent use from several goroutines gives the sequential results",
 "When two or more goroutines use the library at the same time on their own data, every call returns what it returns when run alone, under every interleaving; no two such calls touch the same memory without synchronisation.",
 ["schedules"], "every interleaving with at most two preemptions of two concurrent operations, over all pairs from an alphabet covering every package",
 "The tests are single-threaded.",
 ["addressEncoder/", "owkeychain/", "*Transaction/", "btcLikeTxDriver/"], [("absence of shared mutable state", "package-level variables of all packages")], ["all exported entry points"], None)

prop("X01", "The EOS signer and the per-coin signature set follow the same guarantees",
 "Canonical EOS signatures and the signatures dispatched per coin symbol verify under the signer's public key for every key and digest.",
 ["inputs"], "every key and digest, every coin symbol",
 "One fixed sample each; the packages do not build at this commit.",
 ["eosSignature/", "signatureSet/"], [("signature dispatch", "signatureSet")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
