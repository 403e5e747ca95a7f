"""What each check generates and when a generated case counts as non-trivial (for the evidence files)."""
VALUES = ("byte values come from a mixture: uniform, constant bytes, one bit set or cleared, few bytes set, repeated words, halves or "
          "lanes, preimages of structured values under the AES steps, literals found in the sources, and small mutations of earlier values")
KEYS = "keys from the same mixture, also keys whose schedule has structured words at a chosen place, and relatives of earlier keys"
BLOCKS = "blocks also chosen so that a chosen round's state, or the result, is structured"
RULE = {
    "C01": f"one case = a key and 1 to 6 blocks encrypted one by one on one object, in a stated build configuration, against an independent "
           f"FIPS-197 model; {VALUES}; {KEYS}; {BLOCKS}. Non-trivial: neither the key nor the blocks are a single repeated byte; distinct by content",
    "C02": f"one case = a key and blocks decrypted (decrypter built directly or from an encrypter) against the model, or a value sent through "
           f"both directions; {VALUES}; {KEYS}; {BLOCKS}. Non-trivial: neither key nor data are a single repeated byte; distinct by content",
    "C03": f"one case = a 2- or 4-block group under a key, both directions, each block compared with the single-block call of the same object; "
           f"{VALUES}; {KEYS}. Non-trivial: neither key nor group are a single repeated byte; distinct by content",
    "C04": f"one case = two keys, 4 slots and a generated sequence of switches, clones and constructions; every object alive at the end is compared "
           f"with one built from its key; {VALUES}; {KEYS}. Non-trivial: at least one step, key and data not a single repeated byte; distinct by content",
    "C05": f"one case = a state and a round key through one of the four round operations against the model; {VALUES}. Non-trivial: state or key is "
           f"not a single repeated byte; distinct by content",
    "C06": f"one case = a block through mc or imc against the model and back; {VALUES}. Non-trivial: not a single repeated byte; distinct by content",
    "C07": f"one case = a 2- or 4-lane state and key vector through one of the four wide rounds, each lane compared with the single-block operation; "
           f"{VALUES}. Non-trivial: state or keys are not a single repeated byte; distinct by content",
    "C08": f"one case = a state and a list of 0 to 70000 round keys for widths 1, 2, 4 and both directions, compared with xor and repeated single "
           f"rounds; {VALUES}. Non-trivial: a list of length other than 1; distinct by content",
    "C09": f"one case = two operands, one of and/or/xor/not or their assigning forms, widths 1, 2, 4, distinct or aliased registers, against the "
           f"bytewise result; {VALUES}. Non-trivial: an operand is not a single repeated byte; distinct by content",
    "C10": f"one case = two values (equal, or apart by a small change chosen to cancel in aggregates such as xor or sum) made in one of ten ways "
           f"each and compared with == and !=, or one value tested for zero; {VALUES}. Non-trivial: not both operands a single repeated byte (every "
           f"zero test counts); distinct by content",
    "C11": f"one case = a value made in one of the documented ways (aligned or not, also in constant expressions) and read back in every way; "
           f"{VALUES}. Non-trivial: not a single repeated byte; distinct by content",
    "C12": "one case = a slice of generated length (0 to 2^33, around 16, 32, 64, powers of two, and multiples of 65536), alignment and place (middle of a region, or "
           "ending or starting at an unmapped page) converted to a 1-, 2- or 4-block value. All count as non-trivial; distinct by content, length and place",
    "C13": "one case = a value stored into a slice of generated length, alignment and place (middle of a region, or next to an unmapped page), the "
           "memory around it compared byte by byte. All count as non-trivial; distinct by content, length and place",
    "C14": f"one case = one of the nine composing, splitting or broadcasting conversions on generated blocks and registers; {VALUES}. Non-trivial: "
           f"the blocks are not all a single repeated byte; distinct by content",
    "C15": f"one case = a value, a formatting trait, the alternate flag and a writer (unlimited, failing after a generated number of bytes, or failing once), against "
           f"the text the property states; {VALUES}. Non-trivial: the value is not a single repeated byte; distinct by content",
    "C16": "one case = a command of a generated program of 30 to 80 public operations over registers and cipher slots; the whole answer sequence of a "
           "program (values, panics) must be the same in every build configuration. All commands count as non-trivial; distinct by content",
    "C17": f"one case = one operation (key expansion, switch, encryption, decryption, round, mc/imc, chain) of a program with a generated public "
           f"shape, executed with two sets of generated secrets, each in a fresh process; the sequences of instruction addresses, stack pointers and "
           f"data addresses must be equal; {VALUES}; {KEYS}. Non-trivial: every comparison with other secrets (not the baseline); distinct by "
           f"configuration and secrets",
    "C19": "one case = a command of a generated program run in a generated build configuration (target, toolchain, target features or CPU, Cargo "
           "features, profile, optimisation, checks) that also compiled the program naming every public item; evaluations counts commands; "
           "distinct_nontrivial counts different configurations compiled other than the host's default build",
    "C21": "one case = one key, switch, encryption or decryption command of a generated program in a generated or documented build configuration, its "
           "AES instructions counted by width, and, where lookups are ruled out, its data addresses compared between two sets of secrets. "
           "Non-trivial: commands with secrets other than the baseline's; distinct by configuration and secrets",
    "C18": "one case = a situation of a generated session, run twice in different orders in processes of their own, some of them also alone, answers "
           "compared; situations include other ciphers with related keys in between, long repetition, and concurrent use of shared and separate "
           "objects by 2 to 8 threads. Non-trivial: as in the property each situation is drawn from, and for threads at least two; distinct by content",
    "C20": "one case = a command of a generated program of 30 to 80 public operations with any lengths, alignments and values, in every build "
           "configuration including those with overflow checks and debug assertions, with unmapped pages around the memory handed over, with "
           "AddressSanitizer, and in the Miri interpreter; only the two documented panics may occur and no process may die. All commands count as "
           "non-trivial; distinct by content",
}
ASSUME = {
    "*": ["the Rust toolchains, the processor, and qemu's user-mode emulation of AArch64, ARM, RISC-V, PowerPC and z/Architecture execute the "
          "compiled code faithfully"],
    "C01": ["the reference model in driver/src/fips.rs, which is written from FIPS-197 without tables copied from the library and tests itself "
            "against the standard's vectors on every start"],
}
ASSUME["C17"] = ["timing beyond instruction and address sequences (e.g. operand-dependent latency, speculation) is outside the property",
                  "objdump's disassembly, from which the memory operands are read", "sampled pairs of secrets"]
ASSUME["C21"] = ["objdump's disassembly, from which AES instructions and memory operands are read"]
ASSUME["C19"] = ["for targets without an emulator here the API program is compiled to object code, not run",
                 "core for targets without a prebuilt library is built from the installed toolchain's sources"]
ASSUME["C02"] = ASSUME["C05"] = ASSUME["C06"] = ASSUME["C01"]
