#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept as a script so that the long texts stay reviewable."""
import json, os
SRC = "src/"
ALLB = ["src/aes_table_based.rs", "src/aes_bitslice.rs", "src/aes_x86.rs", "src/aes_arm.rs", "src/aes_riscv64.rs", "src/aes_riscv32.rs"]
WIDE = ["src/aesdefault_x2.rs", "src/aesdefault_x4.rs", "src/aesni_x2.rs", "src/aesni_x4.rs"]
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None}})

p("C01", "Encryption is FIPS-197 AES for every key and block",
  "For AES-128, AES-192 and AES-256, building an encrypter from any key and encrypting any single 16-byte block yields exactly the ciphertext that FIPS-197 defines for that key and block. This holds in every build configuration of the library (table-based, constant-time, AES-NI, VAES, VAES+AVX-512, Neon, ARMv8, RISC-V, little- and big-endian, debug and release).",
  ["inputs", "configurations"], "All 128/192/256-bit keys, all 16-byte blocks, every implementation the build flags can select.",
  "The suite encrypts 13 fixed blocks under three fixed keys in five configurations; table entries, key-schedule corner values and the other configurations are never compared with the standard.",
  ["src/lib.rs"] + ALLB, [("implement_aes! / keygen_*", "src/lib.rs, src/aes_*.rs"), ("chain_enc + enc_last", "src/lib.rs")],
  ["Aes{128,192,256}Enc::from(key).encrypt_block(block)"])
p("C02", "Decryption is the FIPS-197 inverse for every key and block",
  "For all three key sizes, decrypting any 16-byte block yields exactly the FIPS-197 inverse cipher's output, so decrypting what was encrypted under the same key returns the original block and vice versa. It makes no difference whether the decrypter was built directly from the key or obtained from an encrypter, and it holds in every build configuration.",
  ["inputs", "configurations"], "All keys, all ciphertext blocks, both ways of making a decrypter, every implementation.",
  "Only 13 fixed ciphertexts are decrypted, always through a decrypter derived from an encrypter; a decrypter built from key bytes is never exercised.",
  ["src/lib.rs"] + ALLB, [("dec_round_keys (equivalent inverse cipher)", "src/lib.rs"), ("chain_dec + dec_last", "src/lib.rs")],
  ["Aes*Dec::from(key).decrypt_block", "Aes*Enc::decrypter().decrypt_block"])
p("C03", "Two- and four-block calls equal independent single-block calls",
  "Encrypting or decrypting a group of two or four blocks yields, position by position, exactly what the single-block operation of the same cipher object yields for each block. No block's result depends on the other blocks of the group, for every key size and build configuration.",
  ["inputs", "configurations"], "All keys, all groups of 2 and 4 blocks (also equal, permuted, all-zero lanes), encrypters and decrypters, every wide implementation.",
  "Two or three fixed groups per key; a fault in one lane for some data, or cross-lane leakage, is not sampled; the 512-bit implementation is only compiled, never run.",
  ["src/lib.rs"] + WIDE, [("encrypt_2_blocks/encrypt_4_blocks/decrypt_2_blocks/decrypt_4_blocks", "src/lib.rs"), ("round-key broadcast", "src/aes*_x2.rs, src/aes*_x4.rs")],
  ["encrypt_2_blocks, encrypt_4_blocks, decrypt_2_blocks, decrypt_4_blocks"])
p("C04", "Switching roles and cloning never changes the key",
  "Any sequence of obtaining a decrypter from an encrypter, an encrypter from a decrypter, and cloning either, of any length, gives objects that encrypt and decrypt exactly like ones built directly from the original key. The objects they were obtained from stay unchanged and usable.",
  ["histories", "inputs", "configurations"], "All keys and all finite sequences of decrypter()/encrypter()/clone over several live cipher objects.",
  "The suite derives a decrypter once per key size and never converts back to an encrypter or clones.",
  ["src/lib.rs"] + ALLB, [("dec_round_keys / enc_round_keys", "src/lib.rs"), ("mc / imc", "src/aes_*.rs")],
  ["AesEncrypt::decrypter, AesDecrypt::encrypter, Clone"], [{"name": "round_keys", "meaning": "expanded key in encryption or equivalent-inverse form", "where": "src/lib.rs implement_aes!"}])
p("C05", "Single AES round operations match the standard",
  "For every block and every round key, the four public one-round operations on a block (encryption round, decryption round, and the last-round variants without the column mixing) return exactly (Inv)ShiftRows, (Inv)SubBytes, (Inv)MixColumns where applicable, then XOR with the round key, as FIPS-197 defines these steps. This holds in every build configuration.",
  ["inputs", "configurations"], "All 2^128 states x 2^128 round keys for enc, dec, enc_last, dec_last; every implementation.",
  "One fixed state/key pair per operation is tested.",
  ALLB, [("enc/dec/enc_last/dec_last", "src/aes_*.rs")], ["AesBlock::enc, dec, enc_last, dec_last"])
p("C06", "MixColumns and its inverse match the standard",
  "For every block, the public column-mixing operation returns FIPS-197 MixColumns of the block and the inverse operation returns InvMixColumns; each undoes the other. This holds in every build configuration.",
  ["inputs", "configurations"], "All 16-byte blocks, every implementation.",
  "mc is never called by a test; imc only through three fixed keys.",
  ALLB, [("mc / imc", "src/aes_*.rs")], ["AesBlock::mc, AesBlock::imc"])
p("C07", "Wide round operations act lane by lane",
  "For every two-block and four-block vector of states and every vector of round keys (each lane may have its own round key), the wide one-round operations return in each lane exactly what the single-block operation returns for that lane's state and round key. This holds in every build configuration.",
  ["inputs", "configurations"], "All states and per-lane round keys for enc, dec, enc_last, dec_last on 2- and 4-block vectors.",
  "The suite drives wide rounds only through whole-cipher calls where all lanes share one round key.",
  WIDE, [("AesBlockX2/X4 enc/dec/enc_last/dec_last", "src/aes*_x2.rs, src/aes*_x4.rs")], ["AesBlockX2::*, AesBlockX4::* rounds"])
p("C08", "Round chains equal repeated rounds for any key list",
  "For every state and every non-empty list of round keys, the chained encryption (decryption) operation returns the state XORed with the first key and then passed through one full encryption (decryption) round per remaining key, in order, for one-, two- and four-block values. An empty key list panics instead of returning a value.",
  ["inputs", "configurations"], "All states, all key lists of any length >= 0, three widths, both directions, every implementation.",
  "Chains are only reached with the three fixed cipher lengths 10, 12, 14; lengths 0, 1, 2 and long lists are not called.",
  ["src/lib.rs", "src/aes_arm.rs", "src/aes_riscv32.rs"], [("declare_chain! (two variants)", "src/lib.rs"), ("pre_enc / pre_dec", "src/aes_arm.rs, src/aes_riscv32.rs, src/lib.rs")],
  ["chain_enc, chain_dec on AesBlock, AesBlockX2, AesBlockX4"])
p("C09", "Bitwise operators act on every bit of the value",
  "For blocks, two-block and four-block values, the and, or, xor and not operators return the bitwise result over all 16, 32 or 64 bytes, and the assigning forms leave in the left operand exactly the value the plain operator returns. Operands other than the assigned one are unchanged.",
  ["inputs", "configurations"], "All operand pairs at three widths, every implementation.",
  "No test uses and, or, not or an assigning operator; xor is only used inside the cipher.",
  ["src/lib.rs"] + ALLB + WIDE, [("BitAnd/BitOr/BitXor/Not", "src/aes_*.rs, src/aes*_x*.rs"), ("impl_common_ops!", "src/lib.rs")], ["operators &, |, ^, !, &=, |=, ^="])
p("C10", "Equality, zero test and defaults agree with the bytes",
  "Two values of the same width compare equal exactly when all their bytes are equal (and unequal otherwise), for blocks, two-block and four-block values, whichever way the values were produced. The zero test is true exactly when every byte is zero, and the zero constructor and the default value have all bytes zero.",
  ["inputs", "configurations"], "All pairs of values, in particular pairs that differ in a single bit or whose differences cancel across words or lanes.",
  "Tests only assert equality of equal values, so an equality that is too permissive passes everything.",
  ["src/lib.rs"] + ALLB + WIDE, [("PartialEq / is_zero / zero / Default", "src/aes_*.rs, src/aes*_x*.rs, src/lib.rs")], ["==, !=, is_zero(), zero(), default()"])
p("C11", "Conversions to and from bytes and integers are lossless",
  "Every way of making a one-, two- or four-block value from bytes (constructor, by value, by reference, from a slice of exactly that size, in a constant expression) yields the same value, and every way of reading it back yields exactly those bytes in the same order. A block converts to and from a 128-bit integer as its bytes read in big-endian order.",
  ["inputs", "configurations"], "All byte strings of 16/32/64 bytes, all u128 values, every constructor/accessor pair, any alignment of the referenced bytes.",
  "Tests build blocks from u128 literals and compare blocks with blocks; byte order and the other constructors are not observed.",
  ["src/lib.rs"] + ALLB + WIDE, [("new / From / Into", "src/aes_*.rs, src/aes*_x*.rs, src/lib.rs")], ["new, From<[u8;N]>, From<&[u8;N]>, TryFrom<&[u8]>, Into<[u8;N]>, u128"])
p("C12", "Loading from a slice takes its prefix or reports its length",
  "Converting a byte slice to a one-, two- or four-block value succeeds exactly when the slice has at least 16, 32 or 64 bytes, and then yields the value of its first 16, 32 or 64 bytes; a shorter slice gives an error carrying the slice's length. For any length and alignment nothing outside the slice is read.",
  ["inputs", "configurations"], "All slice lengths, contents, alignments and placements (including directly before or after unmapped memory).",
  "Only exact-size slices appear, inside the key schedule; short, longer and misaligned slices are never passed.",
  ["src/lib.rs"], [("try_from_slice / array_from_slice", "src/lib.rs")], ["TryFrom<&[u8]> for AesBlock, AesBlockX2, AesBlockX4"])
p("C13", "Storing to a slice writes exactly the value's bytes",
  "Storing a one-, two- or four-block value into a byte slice of at least 16, 32 or 64 bytes, at any alignment, overwrites exactly the first 16, 32 or 64 bytes with the value's bytes and leaves all other memory untouched. A shorter slice makes the call panic with the slice and all other memory unchanged.",
  ["inputs", "configurations"], "All values, slice lengths from 0 up, alignments and placements (including directly before unmapped memory).",
  "store_to is only reached through array conversion with an exact-size array.",
  ALLB + WIDE, [("store_to length assertion and unaligned store", "src/aes_*.rs, src/aes*_x*.rs")], ["AesBlock::store_to, AesBlockX2::store_to, AesBlockX4::store_to"])
p("C14", "Composing and splitting wide values preserves blocks and order",
  "Building a two- or four-block value from blocks, from two-block values, or by repeating one block or one two-block value, and splitting it again, preserves every block and its position: the first component is the first 16 (or 32) bytes of the value. Broadcasting puts the same block (or pair) in every position.",
  ["inputs", "configurations"], "All blocks; all composition/decomposition paths between the three widths.",
  "Tests compare wide values with wide values built the same way, so a consistent permutation of lanes is invisible; pair-wise composition is never used.",
  WIDE, [("From<(..)> / From<AesBlock> / From<AesBlockX2>", "src/aes*_x2.rs, src/aes*_x4.rs")], ["tuple conversions, broadcast conversions"])
p("C15", "Text formatting shows the block's bytes exactly",
  "Displaying, debug-printing or lower-hex formatting a block prints its 16 bytes in order as 32 lower-case hex digits, upper-hex as 32 upper-case digits, and binary as 128 binary digits; the alternate flag adds the prefix 0x, 0X or 0b to the hex and binary forms and switches display and debug to unprefixed upper-case. Debug-printing a two- or four-block value prints the tuple of its blocks, and a writer's error is passed on to the caller.",
  ["inputs", "configurations"], "All blocks and wide values, all six format forms, alternate flag on/off, writers that fail at any point.",
  "No test formats a value.",
  ["src/lib.rs"], [("Debug/Display/Binary/LowerHex/UpperHex", "src/lib.rs")], ["format!(\"{}\"), {:?}, {:x}, {:X}, {:b}, {:#..}"])
p("C16", "Every implementation gives identical results for any API program",
  "Any finite sequence of public operations (constructing values and ciphers, operators, rounds, chains, encryption, decryption, conversions, comparisons, formatting, loads and stores) produces the same observable results, including which calls panic, in every build configuration: every implementation and wide variant, debug and release, 32- and 64-bit, little- and big-endian.",
  ["histories", "configurations"], "All finite programs over the public API; every pair of build configurations.",
  "The same few unit tests run in five configurations independently; no test compares configurations, and six of the documented or reachable configurations never run.",
  ["src/lib.rs"] + ALLB + WIDE, [("cfg_if! backend selection", "src/lib.rs")], ["every public item"])
p("C17", "Constant-time implementations leak no secret through control flow or addresses",
  "In builds with the constant-time feature and in all hardware-accelerated builds, the sequence of executed instructions and of accessed memory addresses of key expansion, role switching, encryption, decryption, rounds, chains and column mixing does not depend on the key, round-key or block contents. Only public shapes (key size, number of blocks, list length) may influence it.",
  ["inputs", "configurations"], "All pairs of secrets (keys, round keys, blocks) of the same shape.",
  "Functional tests cannot see timing behaviour at all: a table lookup or early exit returns the same bytes.",
  ["src/aes_bitslice.rs", "src/aes_x86.rs", "src/aes_arm.rs", "src/lib.rs"] + WIDE, [("bit-sliced S-box, branch-free xtime", "src/aes_bitslice.rs"), ("AES instructions", "src/aes_x86.rs, src/aes_arm.rs")], ["instruction and address trace of the listed operations"])
p("C18", "Results depend only on the arguments, never on history or threads",
  "Every operation's result is determined by its arguments alone: earlier calls, other live cipher objects (also with related keys), repetition, and concurrent use of shared or separate objects from any number of threads under any interleaving never change it. Encryption and decryption leave the cipher object unchanged, and ciphers and values may be shared and sent between threads.",
  ["histories", "schedules", "inputs"], "All finite call histories over several live objects and keys; all interleavings of threads using shared or separate objects.",
  "Each test uses one key per object, single-threaded, with a handful of calls.",
  ["src/lib.rs"] + ALLB, [("stateless value types; &self methods", "src/lib.rs")], ["repeated and concurrent calls on shared ciphers"])
p("C19", "Every documented configuration builds, without std, with the same API",
  "For every documented combination of target architecture, target features, toolchain channel and Cargo features (including combinations that fall back to another implementation, such as constant-time together with an accelerated target, or AES features on a big-endian target), the library compiles without the standard library or an allocator and offers the same public API. A program using every public item compiles, links and runs in each.",
  ["configurations"], "All combinations of supported targets, relevant target features, nightly/stable channel and Cargo feature sets.",
  "The build script compiles six fixed configurations; the others, and API uniformity across them, are never checked.",
  ["src/lib.rs", "Cargo.toml"] + ALLB + WIDE, [("cfg_if! selection, cfg_attr feature gates", "src/lib.rs")], ["cargo build of a program that names every public item"])
p("C20", "Safe use of the API never causes undefined behaviour",
  "No sequence of safe calls with any arguments (any slice length, alignment or provenance, any value, caught panics included) reads or writes out of bounds, performs a misaligned or invalidly-typed access, reads uninitialised memory, or otherwise has undefined behaviour under Rust's rules. Apart from the documented panics (short destination, empty key list), no call panics, overflows or aborts.",
  ["inputs", "histories", "configurations"], "All sequences of safe API calls with all arguments.",
  "Undefined behaviour usually returns the expected bytes in a test; the suite runs without any checker.",
  ["src/lib.rs"] + ALLB + WIDE, [("unsafe loads/stores/transmutes, slice::from_raw_parts_mut over round keys", "src/aes_*.rs, src/lib.rs")], ["Miri diagnostics, guard pages, debug assertions"])
p("C21", "Build flags select the documented implementation",
  "With the documented target features (and, where required, the nightly feature) the hardware AES instructions of that architecture carry out block encryption and decryption, two- and four-block calls use the 256-bit vector AES instructions when VAES is enabled and the 512-bit ones when AVX-512F is enabled too, and secret-indexed table lookups are used only when neither acceleration nor the constant-time feature is selected. The constant-time feature does not displace an accelerated implementation.",
  ["configurations", "inputs"], "All combinations of target features and Cargo features; the operations executed for any key and block.",
  "Every implementation returns the same bytes, so a wrong selection passes all tests while losing speed and constant-time behaviour.",
  ["src/lib.rs"], [("cfg_if! backend selection", "src/lib.rs")], ["AES instructions executed by encrypt/decrypt in each configuration"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
    for x in P: assert len(x["title"]) <= 80, x["id"]
print(len(P))
