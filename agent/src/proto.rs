// Command encoding shared (textually) by the agent and the driver.
//
// A frame is  u32le length, then commands; a command is  u16le length, opcode, operands.
// The reply frame is  u32le length, then one  u16le length, status, payload  per command.
// Widths are 1, 2 or 4 blocks. Every register write is answered with the bytes of the written register.
#![allow(dead_code)]

pub const ST_OK: u8 = 0;
pub const ST_PANIC: u8 = 1;
pub const ST_BAD: u8 = 2; // malformed command: harness error, never a verdict
pub const ST_UNSUPPORTED: u8 = 3;

pub const NREG: usize = 6; // value registers per width
pub const NSLOT: usize = 4; // cipher slots per size and role
pub const REGION: usize = 4096; // data area between the two guard pages
pub const NCONST: usize = 32;

// value construction: LOAD width dst kind align data[16*width]
pub const OP_LOAD: u8 = 1;
pub const LK_NEW: u8 = 0;
pub const LK_ARRAY: u8 = 1;
pub const LK_REF: u8 = 2;
pub const LK_SLICE: u8 = 3;
pub const LK_U128: u8 = 4; // width 1 only

// GET width src kind -> bytes
pub const OP_GET: u8 = 2;
pub const GK_INTO: u8 = 0;
pub const GK_STORE: u8 = 1;
pub const GK_U128: u8 = 2; // big-endian bytes of the integer

// TRYFROM width dst place off len16 data[len] -> 1 bytes | 0 u64le(error)
pub const OP_TRYFROM: u8 = 3;
pub const PL_END: u8 = 0; // slice ends at the upper guard page
pub const PL_START: u8 = 1; // slice begins right after the lower guard page
pub const PL_MID: u8 = 2; // slice begins at offset off

// STORE width src place off len16 fill -> region digest around the slice (see OP_REGION)
pub const OP_STORE: u8 = 4;
// REGION -> (start16 len16 bytes): the bytes of the slice used last plus 64 bytes on both sides (clipped),
// followed by u8: 1 if every byte of the region outside that window still has the fill value
pub const OP_REGION: u8 = 5;

// UN width dst src op -> bytes
pub const OP_UN: u8 = 6;
pub const UN_NOT: u8 = 0;
pub const UN_ZERO: u8 = 1;
pub const UN_DEFAULT: u8 = 2;
pub const UN_CLONE: u8 = 3;
pub const UN_MC: u8 = 4; // width 1
pub const UN_IMC: u8 = 5; // width 1
pub const UN_CLONE_FROM: u8 = 6; // clone_from over the destination's old value

// BIN width dst a b op -> bytes
pub const OP_BIN: u8 = 7;
pub const BI_AND: u8 = 0;
pub const BI_OR: u8 = 1;
pub const BI_XOR: u8 = 2;
pub const BI_AND_ASSIGN: u8 = 3;
pub const BI_OR_ASSIGN: u8 = 4;
pub const BI_XOR_ASSIGN: u8 = 5;
pub const BI_ENC: u8 = 6;
pub const BI_DEC: u8 = 7;
pub const BI_ENC_LAST: u8 = 8;
pub const BI_DEC_LAST: u8 = 9;

// PRED width a b op -> 0/1
pub const OP_PRED: u8 = 8;
pub const PR_EQ: u8 = 0;
pub const PR_NE: u8 = 1;
pub const PR_IS_ZERO: u8 = 2;

// CHAIN width dst src dir(0 enc, 1 dec) count16 keys[count*16*width] -> bytes
pub const OP_CHAIN: u8 = 9;

// MOVE kind dst s0 s1 s2 s3 -> bytes of the destination(s)
pub const OP_MOVE: u8 = 10;
pub const MV_BB_W: u8 = 0; // w[dst] = (b[s0], b[s1])
pub const MV_W_BB: u8 = 1; // (b[dst], b[s1]) = w[s0]
pub const MV_B_W: u8 = 2; // w[dst] = b[s0]
pub const MV_BBBB_Q: u8 = 3;
pub const MV_Q_BBBB: u8 = 4; // (b[dst], b[s1], b[s2], b[s3]) = q[s0]
pub const MV_B_Q: u8 = 5;
pub const MV_WW_Q: u8 = 6;
pub const MV_Q_WW: u8 = 7; // (w[dst], w[s1]) = q[s0]
pub const MV_W_Q: u8 = 8;

// KEY size(0,1,2) role(0 enc, 1 dec) slot key[16|24|32]
pub const OP_KEY: u8 = 11;
// CRYPT size role slot width dst src -> bytes
pub const OP_CRYPT: u8 = 12;
// SWITCH size role slot dstslot: role's slot -> other role's dstslot
pub const OP_SWITCH: u8 = 13;
// CLONE size role slot dstslot from(0 clone, 1 clone_from over the cipher in dstslot, if there is one)
pub const OP_CLONE: u8 = 14;
// FMT width src kind style cap16 once -> ok(1)/err(0) bytes
// once 0: the writer takes cap bytes and refuses everything after; once 1: it refuses only the call that would exceed cap
pub const OP_FMT: u8 = 15;
pub const FM_DISPLAY: u8 = 0;
pub const FM_DEBUG: u8 = 1;
pub const FM_LHEX: u8 = 2;
pub const FM_UHEX: u8 = 3;
pub const FM_BIN: u8 = 4;
// CONST width idx dst kind(0 const item, 1 static item) -> bytes
pub const OP_CONST: u8 = 16;
// FMTKEY size role slot : debug-print a cipher, result is only the number of bytes (not compared)
pub const OP_FMTKEY: u8 = 17;
// THREADS size nthreads iters16 variant seq key[] start[16*nthreads] -> final block per thread
// (seq 1: the same computations one after the other on the calling thread)
pub const OP_THREADS: u8 = 18;
// HELLO -> configuration bytes
pub const OP_HELLO: u8 = 19;

// RESET: forget every register and cipher
pub const OP_RESET: u8 = 20;
// REPEAT size role slot width dst src n16: dst = crypt applied n times to src -> bytes
pub const OP_REPEAT: u8 = 21;

// LONGCHAIN width dst src dir count32 period keys[period*16*width] -> bytes of the chain, bytes of the repeated single rounds
// key i is keys[i % period] with the first four bytes of every lane xored with i (little-endian)
pub const OP_LONGCHAIN: u8 = 22;
// BIG what width reg off len64 fill data[min(len, 16*width)]: slice of that length at offset off of a large area
// what 0: TryFrom -> 1 bytes | 0 u64le(error) | 2 (no such area here)
// what 1: store -> 1 bytes-at-the-start clean(0/1) | 2
pub const OP_BIG: u8 = 23;
pub const BIG_STATIC: usize = 1 << 24; // available everywhere (not to the interpreter)

// LOOP n32, then commands as in a frame -> their answers of the first pass, u32 passes with the same answers
pub const OP_LOOP: u8 = 24;
pub const LOOP_OUT: usize = 1024;

// COV -> u32le new coverage since the last COV, compared values (a8 b8 size1)* if there was any (agents built for it)
pub const OP_COV: u8 = 25;
// RACE n (pause16 len16 command*)[n] -> per thread: len16 answer*. Every thread has a machine of its own, waits for the
// others, spins for its pause and then executes its commands (none of those that use the shared areas)
pub const OP_RACE: u8 = 26;

// style: bit 0 alternate, the rest one of these
pub const FS_PLAIN: u8 = 0;
pub const FS_WIDE: u8 = 1; // {:*>70}
pub const FS_SHORT: u8 = 2; // {:.3}
pub const FS_SIGN: u8 = 3; // {:+}
pub const FS_ZERO: u8 = 4; // {:0140}
pub const FS_NARROW: u8 = 5; // {:<3}
pub const FS_HEX: u8 = 6; // {:x?}, debug only
pub const FS_UHEX: u8 = 7; // {:X?}, debug only
pub const FS_COUNT: usize = 8;

pub const CHAIN_MAX: usize = 320;
pub const LONG_MAX: usize = 70_016;

/// Contents of constant number `i`, byte `j`: computable in const context on both sides.
pub const fn const_byte(i: usize, j: usize) -> u8 {
    let mut z = (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add((j as u64).wrapping_mul(0xD1B5_4A32_D192_ED03)).wrapping_add(0x1234_5678_9ABC_DEF1);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^= z >> 31;
    match i {
        0 => 0,
        1 => 0xff,
        2 => j as u8,
        3 => 0x80,
        4 => (z as u8) & 0x80,
        5 => (z as u8) & 0x01,
        _ => z as u8,
    }
}
