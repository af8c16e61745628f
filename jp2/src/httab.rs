//! The CxtVLC codes of ISO/IEC 15444-15 (Annex C) as decoding tables: index = context << 7 | next seven bits,
//! entry = e_k << 12 | e_1 << 8 | rho << 4 | u_off << 3 | length. Copied, and checked to be complete prefix codes (see ht.rs).
#![allow(clippy::all)]

pub static VLC0: [u16; 1024] = [
    0x23, 0xA5, 0x43, 0x66, 0x83, 0xA8EE, 0x14, 0xD8DF, 0x23, 0x10BE, 0x43, 0xF5FF, 0x83, 0x207E,
    0x55, 0x515F, 0x23, 0x35, 0x43, 0x444E, 0x83, 0xC4CE, 0x14, 0xCCCF, 0x23, 0xE2FE, 0x43, 0x99FF,
    0x83, 0x96, 0xC5, 0x313F, 0x23, 0xA5, 0x43, 0x445E, 0x83, 0xC8CE, 0x14, 0x11DF, 0x23, 0xF4FE,
    0x43, 0xFCFF, 0x83, 0x9E, 0x55, 0x77, 0x23, 0x35, 0x43, 0xF1FF, 0x83, 0x88AE, 0x14, 0xB7, 0x23,
    0xF8FE, 0x43, 0xE4EF, 0x83, 0x888E, 0xC5, 0x111F, 0x23, 0xA5, 0x43, 0x66, 0x83, 0xA8EE, 0x14,
    0x54DF, 0x23, 0x10BE, 0x43, 0x22EF, 0x83, 0x207E, 0x55, 0x227F, 0x23, 0x35, 0x43, 0x444E, 0x83,
    0xC4CE, 0x14, 0x11BF, 0x23, 0xE2FE, 0x43, 0xF7, 0x83, 0x96, 0xC5, 0x223F, 0x23, 0xA5, 0x43,
    0x445E, 0x83, 0xC8CE, 0x14, 0xD7, 0x23, 0xF4FE, 0x43, 0xBAFF, 0x83, 0x9E, 0x55, 0x6F, 0x23,
    0x35, 0x43, 0xE6FF, 0x83, 0x88AE, 0x14, 0xA2AF, 0x23, 0xF8FE, 0x43, 0xE7, 0x83, 0x888E, 0xC5,
    0x222F, 0x2, 0xC5, 0x84, 0x207E, 0x2, 0xC4CE, 0x24, 0xF7, 0x2, 0xA2FE, 0x44, 0x56, 0x2, 0x9E,
    0x14, 0xD7, 0x2, 0x10BE, 0x84, 0x66, 0x2, 0x88AE, 0x24, 0x11DF, 0x2, 0xA8EE, 0x44, 0x36, 0x2,
    0x888E, 0x14, 0x111F, 0x2, 0xC5, 0x84, 0x6E, 0x2, 0x88CE, 0x24, 0x88FF, 0x2, 0xB8FE, 0x44,
    0x444E, 0x2, 0x96, 0x14, 0xB7, 0x2, 0xE4FE, 0x84, 0x445E, 0x2, 0xA6, 0x24, 0xE7, 0x2, 0x54DE,
    0x44, 0x222E, 0x2, 0x3E, 0x14, 0x77, 0x2, 0xC5, 0x84, 0x207E, 0x2, 0xC4CE, 0x24, 0xF1FF, 0x2,
    0xA2FE, 0x44, 0x56, 0x2, 0x9E, 0x14, 0x11BF, 0x2, 0x10BE, 0x84, 0x66, 0x2, 0x88AE, 0x24,
    0x22EF, 0x2, 0xA8EE, 0x44, 0x36, 0x2, 0x888E, 0x14, 0x227F, 0x2, 0xC5, 0x84, 0x6E, 0x2, 0x88CE,
    0x24, 0xE4EF, 0x2, 0xB8FE, 0x44, 0x444E, 0x2, 0x96, 0x14, 0xA2AF, 0x2, 0xE4FE, 0x84, 0x445E,
    0x2, 0xA6, 0x24, 0xD8DF, 0x2, 0x54DE, 0x44, 0x222E, 0x2, 0x3E, 0x14, 0x515F, 0x2, 0x55, 0x84,
    0x66, 0x2, 0x88DE, 0x24, 0x32FF, 0x2, 0x11FE, 0x44, 0x444E, 0x2, 0xAE, 0x14, 0xB7, 0x2, 0x317E,
    0x84, 0x515E, 0x2, 0xC6, 0x24, 0xD7, 0x2, 0x20EE, 0x44, 0x111E, 0x2, 0x9E, 0x14, 0x77, 0x2,
    0x55, 0x84, 0x545E, 0x2, 0x44CE, 0x24, 0xE7, 0x2, 0xF1FE, 0x44, 0x36, 0x2, 0xA6, 0x14, 0x555F,
    0x2, 0x74FE, 0x84, 0x113E, 0x2, 0x20BE, 0x24, 0x747F, 0x2, 0xC4DE, 0x44, 0xF8FF, 0x2, 0x96,
    0x14, 0x222F, 0x2, 0x55, 0x84, 0x66, 0x2, 0x88DE, 0x24, 0xF7, 0x2, 0x11FE, 0x44, 0x444E, 0x2,
    0xAE, 0x14, 0x888F, 0x2, 0x317E, 0x84, 0x515E, 0x2, 0xC6, 0x24, 0xC8CF, 0x2, 0x20EE, 0x44,
    0x111E, 0x2, 0x9E, 0x14, 0x6F, 0x2, 0x55, 0x84, 0x545E, 0x2, 0x44CE, 0x24, 0xD1DF, 0x2, 0xF1FE,
    0x44, 0x36, 0x2, 0xA6, 0x14, 0x227F, 0x2, 0x74FE, 0x84, 0x113E, 0x2, 0x20BE, 0x24, 0x22BF, 0x2,
    0xC4DE, 0x44, 0x22EF, 0x2, 0x96, 0x14, 0x323F, 0x3, 0xD4DE, 0xF4FD, 0xFCFF, 0x14, 0x113E, 0x55,
    0x888F, 0x3, 0x32BE, 0x85, 0xE7, 0x25, 0x515E, 0xAAFE, 0x727F, 0x3, 0x44CE, 0xF8FD, 0x44EF,
    0x14, 0x647E, 0x45, 0xA2AF, 0x3, 0xA6, 0x555D, 0x99DF, 0xF1FD, 0x36, 0xF5FE, 0x626F, 0x3,
    0xD1DE, 0xF4FD, 0xE6FF, 0x14, 0x717E, 0x55, 0xB1BF, 0x3, 0x88AE, 0x85, 0xD5DF, 0x25, 0x444E,
    0xF2FE, 0x667F, 0x3, 0xC6, 0xF8FD, 0xE2EF, 0x14, 0x545E, 0x45, 0x119F, 0x3, 0x96, 0x555D,
    0xC8CF, 0xF1FD, 0x111E, 0xC8EE, 0x67, 0x3, 0xD4DE, 0xF4FD, 0xF3FF, 0x14, 0x113E, 0x55, 0x11BF,
    0x3, 0x32BE, 0x85, 0xD8DF, 0x25, 0x515E, 0xAAFE, 0x222F, 0x3, 0x44CE, 0xF8FD, 0xF7, 0x14,
    0x647E, 0x45, 0x989F, 0x3, 0xA6, 0x555D, 0xD7, 0xF1FD, 0x36, 0xF5FE, 0x446F, 0x3, 0xD1DE,
    0xF4FD, 0xB9FF, 0x14, 0x717E, 0x55, 0xB7, 0x3, 0x88AE, 0x85, 0xDCDF, 0x25, 0x444E, 0xF2FE,
    0x77, 0x3, 0xC6, 0xF8FD, 0xE4EF, 0x14, 0x545E, 0x45, 0x737F, 0x3, 0x96, 0x555D, 0xB8BF, 0xF1FD,
    0x111E, 0xC8EE, 0x323F, 0x2, 0xA5, 0x84, 0x407E, 0x2, 0x10DE, 0x24, 0x11DF, 0x2, 0x72FE, 0x44,
    0x56, 0x2, 0xA8AE, 0x14, 0xB2BF, 0x2, 0x96, 0x84, 0x66, 0x2, 0xC6, 0x24, 0xE7, 0x2, 0xC8EE,
    0x44, 0x222E, 0x2, 0x888E, 0x14, 0x77, 0x2, 0xA5, 0x84, 0x6E, 0x2, 0x88CE, 0x24, 0xF7, 0x2,
    0x91FE, 0x44, 0x36, 0x2, 0xA2AE, 0x14, 0xAAAF, 0x2, 0xB8FE, 0x84, 0x5E, 0x2, 0xBE, 0x24,
    0xC4CF, 0x2, 0x44EE, 0x44, 0xF4FF, 0x2, 0x223E, 0x14, 0x111F, 0x2, 0xA5, 0x84, 0x407E, 0x2,
    0x10DE, 0x24, 0x99FF, 0x2, 0x72FE, 0x44, 0x56, 0x2, 0xA8AE, 0x14, 0xB7, 0x2, 0x96, 0x84, 0x66,
    0x2, 0xC6, 0x24, 0xD7, 0x2, 0xC8EE, 0x44, 0x222E, 0x2, 0x888E, 0x14, 0x444F, 0x2, 0xA5, 0x84,
    0x6E, 0x2, 0x88CE, 0x24, 0xE2EF, 0x2, 0x91FE, 0x44, 0x36, 0x2, 0xA2AE, 0x14, 0x447F, 0x2,
    0xB8FE, 0x84, 0x5E, 0x2, 0xBE, 0x24, 0x9F, 0x2, 0x44EE, 0x44, 0x76FF, 0x2, 0x223E, 0x14,
    0x313F, 0x3, 0xC6, 0x85, 0xD9FF, 0xF2FD, 0x647E, 0xF1FE, 0x99BF, 0x3, 0xA2AE, 0x25, 0x66EF,
    0xF4FD, 0x56, 0xE2EE, 0x737F, 0x3, 0x98BE, 0x45, 0xF7, 0xF8FD, 0x66, 0x76FE, 0x889F, 0x3,
    0x888E, 0x15, 0xD5DF, 0xA5, 0x222E, 0x98DE, 0x444F, 0x3, 0xB2BE, 0x85, 0xFCFF, 0xF2FD, 0x226E,
    0x96, 0xB7, 0x3, 0xAAAE, 0x25, 0xD1DF, 0xF4FD, 0x36, 0xD4DE, 0x646F, 0x3, 0xA8AE, 0x45, 0xEAEF,
    0xF8FD, 0x445E, 0xE8EE, 0x717F, 0x3, 0x323E, 0x15, 0xC4CF, 0xA5, 0xFAFF, 0x88CE, 0x313F, 0x3,
    0xC6, 0x85, 0x77FF, 0xF2FD, 0x647E, 0xF1FE, 0xB3BF, 0x3, 0xA2AE, 0x25, 0xE7, 0xF4FD, 0x56,
    0xE2EE, 0x77, 0x3, 0x98BE, 0x45, 0xE4EF, 0xF8FD, 0x66, 0x76FE, 0x667F, 0x3, 0x888E, 0x15, 0xD7,
    0xA5, 0x222E, 0x98DE, 0x333F, 0x3, 0xB2BE, 0x85, 0x75FF, 0xF2FD, 0x226E, 0x96, 0x919F, 0x3,
    0xAAAE, 0x25, 0x99DF, 0xF4FD, 0x36, 0xD4DE, 0x515F, 0x3, 0xA8AE, 0x45, 0xECEF, 0xF8FD, 0x445E,
    0xE8EE, 0x727F, 0x3, 0x323E, 0x15, 0xB1BF, 0xA5, 0xF3FF, 0x88CE, 0x111F, 0x3, 0x54DE, 0xF2FD,
    0x111E, 0x14, 0x647E, 0xF8FE, 0xCCCF, 0x3, 0x91BE, 0x45, 0x22EF, 0x25, 0x222E, 0xF3FE, 0x888F,
    0x3, 0xC6, 0x85, 0xF7, 0x14, 0x115E, 0xFCFE, 0xA8AF, 0x3, 0xA6, 0x35, 0xC8DF, 0xF1FD, 0x313E,
    0x66FE, 0x646F, 0x3, 0xC8CE, 0xF2FD, 0xF5FF, 0x14, 0x66, 0xF4FE, 0xBABF, 0x3, 0x22AE, 0x45,
    0xE7, 0x25, 0x323E, 0xEAFE, 0x737F, 0x3, 0xB2BE, 0x85, 0x55DF, 0x14, 0x56, 0x717E, 0x119F, 0x3,
    0x96, 0x35, 0xC4CF, 0xF1FD, 0x333E, 0xE8EE, 0x444F, 0x3, 0x54DE, 0xF2FD, 0x111E, 0x14, 0x647E,
    0xF8FE, 0x99BF, 0x3, 0x91BE, 0x45, 0xE2EF, 0x25, 0x222E, 0xF3FE, 0x667F, 0x3, 0xC6, 0x85,
    0xE4EF, 0x14, 0x115E, 0xFCFE, 0x989F, 0x3, 0xA6, 0x35, 0xD7, 0xF1FD, 0x313E, 0x66FE, 0x226F,
    0x3, 0xC8CE, 0xF2FD, 0xB9FF, 0x14, 0x66, 0xF4FE, 0xB7, 0x3, 0x22AE, 0x45, 0xD1DF, 0x25, 0x323E,
    0xEAFE, 0x77, 0x3, 0xB2BE, 0x85, 0xECEF, 0x14, 0x56, 0x717E, 0x727F, 0x3, 0x96, 0x35, 0xB8BF,
    0xF1FD, 0x333E, 0xE8EE, 0x545F, 0xF1FC, 0xD1DE, 0xFAFD, 0xD7, 0xF8FC, 0x16, 0xFFFD, 0x747F,
    0xF4FC, 0x717E, 0xF3FD, 0xB3BF, 0xF2FC, 0xEAEF, 0xE8EE, 0x444F, 0xF1FC, 0x22AE, 0x5, 0xB8BF,
    0xF8FC, 0xF7, 0xFCFE, 0x77, 0xF4FC, 0x115E, 0xF5FD, 0x757F, 0xF2FC, 0xD8DF, 0xE2EE, 0x333F,
    0xF1FC, 0xB2BE, 0xFAFD, 0x88CF, 0xF8FC, 0xFBFF, 0xFFFD, 0x737F, 0xF4FC, 0x6E, 0xF3FD, 0xB7,
    0xF2FC, 0x66EF, 0xF9FE, 0x313F, 0xF1FC, 0x9E, 0x5, 0xBABF, 0xF8FC, 0xFDFF, 0xF6FE, 0x67,
    0xF4FC, 0x26, 0xF5FD, 0x888F, 0xF2FC, 0xDCDF, 0xD4DE, 0x222F, 0xF1FC, 0xD1DE, 0xFAFD, 0xC4CF,
    0xF8FC, 0x16, 0xFFFD, 0x727F, 0xF4FC, 0x717E, 0xF3FD, 0x99BF, 0xF2FC, 0xECEF, 0xE8EE, 0x47,
    0xF1FC, 0x22AE, 0x5, 0xA7, 0xF8FC, 0xF7FF, 0xFCFE, 0x57, 0xF4FC, 0x115E, 0xF5FD, 0x97, 0xF2FC,
    0xD5DF, 0xE2EE, 0x37, 0xF1FC, 0xB2BE, 0xFAFD, 0xC7, 0xF8FC, 0xFEFF, 0xFFFD, 0x667F, 0xF4FC,
    0x6E, 0xF3FD, 0xA8AF, 0xF2FC, 0xE7, 0xF9FE, 0x323F, 0xF1FC, 0x9E, 0x5, 0xB1BF, 0xF8FC, 0xE4EF,
    0xF6FE, 0x545F, 0xF4FC, 0x26, 0xF5FD, 0x87, 0xF2FC, 0x99DF, 0xD4DE, 0x111F,
];
pub static VLC1: [u16; 1024] = [
    0x13, 0x65, 0x43, 0xDE, 0x83, 0x888D, 0x23, 0x444E, 0x13, 0xA5, 0x43, 0x88AE, 0x83, 0x35, 0x23,
    0xD7, 0x13, 0xC5, 0x43, 0x9E, 0x83, 0x55, 0x23, 0x222E, 0x13, 0x95, 0x43, 0x7E, 0x83, 0x10FE,
    0x23, 0x77, 0x13, 0x65, 0x43, 0x88CE, 0x83, 0x888D, 0x23, 0x111E, 0x13, 0xA5, 0x43, 0x5E, 0x83,
    0x35, 0x23, 0xE7, 0x13, 0xC5, 0x43, 0xBE, 0x83, 0x55, 0x23, 0x11FF, 0x13, 0x95, 0x43, 0x3E,
    0x83, 0x40EE, 0x23, 0xA2AF, 0x13, 0x65, 0x43, 0xDE, 0x83, 0x888D, 0x23, 0x444E, 0x13, 0xA5,
    0x43, 0x88AE, 0x83, 0x35, 0x23, 0x44EF, 0x13, 0xC5, 0x43, 0x9E, 0x83, 0x55, 0x23, 0x222E, 0x13,
    0x95, 0x43, 0x7E, 0x83, 0x10FE, 0x23, 0xB7, 0x13, 0x65, 0x43, 0x88CE, 0x83, 0x888D, 0x23,
    0x111E, 0x13, 0xA5, 0x43, 0x5E, 0x83, 0x35, 0x23, 0xC4CF, 0x13, 0xC5, 0x43, 0xBE, 0x83, 0x55,
    0x23, 0xF7, 0x13, 0x95, 0x43, 0x3E, 0x83, 0x40EE, 0x23, 0x6F, 0x1, 0x84, 0x1, 0x56, 0x1, 0x14,
    0x1, 0xD7, 0x1, 0x24, 0x1, 0x96, 0x1, 0x45, 0x1, 0x77, 0x1, 0x84, 0x1, 0xC6, 0x1, 0x14, 0x1,
    0x888F, 0x1, 0x24, 0x1, 0xF7, 0x1, 0x35, 0x1, 0x222F, 0x1, 0x84, 0x1, 0x40FE, 0x1, 0x14, 0x1,
    0xB7, 0x1, 0x24, 0x1, 0xBF, 0x1, 0x45, 0x1, 0x67, 0x1, 0x84, 0x1, 0xA6, 0x1, 0x14, 0x1, 0x444F,
    0x1, 0x24, 0x1, 0xE7, 0x1, 0x35, 0x1, 0x113F, 0x1, 0x84, 0x1, 0x56, 0x1, 0x14, 0x1, 0xCF, 0x1,
    0x24, 0x1, 0x96, 0x1, 0x45, 0x1, 0x6F, 0x1, 0x84, 0x1, 0xC6, 0x1, 0x14, 0x1, 0x9F, 0x1, 0x24,
    0x1, 0xEF, 0x1, 0x35, 0x1, 0x323F, 0x1, 0x84, 0x1, 0x40FE, 0x1, 0x14, 0x1, 0xAF, 0x1, 0x24,
    0x1, 0x44FF, 0x1, 0x45, 0x1, 0x5F, 0x1, 0x84, 0x1, 0xA6, 0x1, 0x14, 0x1, 0x7F, 0x1, 0x24, 0x1,
    0xDF, 0x1, 0x35, 0x1, 0x111F, 0x1, 0x24, 0x1, 0x56, 0x1, 0x85, 0x1, 0xBF, 0x1, 0x14, 0x1, 0xF7,
    0x1, 0xC6, 0x1, 0x77, 0x1, 0x24, 0x1, 0xF8FF, 0x1, 0x45, 0x1, 0x7F, 0x1, 0x14, 0x1, 0xDF, 0x1,
    0xA6, 0x1, 0x313F, 0x1, 0x24, 0x1, 0x222E, 0x1, 0x85, 0x1, 0xB7, 0x1, 0x14, 0x1, 0x44EF, 0x1,
    0xA2AE, 0x1, 0x67, 0x1, 0x24, 0x1, 0x51FF, 0x1, 0x45, 0x1, 0x97, 0x1, 0x14, 0x1, 0xCF, 0x1,
    0x36, 0x1, 0x223F, 0x1, 0x24, 0x1, 0x56, 0x1, 0x85, 0x1, 0xB2BF, 0x1, 0x14, 0x1, 0x40EF, 0x1,
    0xC6, 0x1, 0x6F, 0x1, 0x24, 0x1, 0x72FF, 0x1, 0x45, 0x1, 0x9F, 0x1, 0x14, 0x1, 0xD7, 0x1, 0xA6,
    0x1, 0x444F, 0x1, 0x24, 0x1, 0x222E, 0x1, 0x85, 0x1, 0xA8AF, 0x1, 0x14, 0x1, 0xE7, 0x1, 0xA2AE,
    0x1, 0x5F, 0x1, 0x24, 0x1, 0x44FF, 0x1, 0x45, 0x1, 0x888F, 0x1, 0x14, 0x1, 0xAAAF, 0x1, 0x36,
    0x1, 0x111F, 0x2, 0xF8FE, 0x24, 0x56, 0x2, 0xB6, 0x85, 0x66FF, 0x2, 0xCE, 0x14, 0x111E, 0x2,
    0x96, 0x35, 0xA8AF, 0x2, 0xF6, 0x24, 0x313E, 0x2, 0xA6, 0x45, 0xB3BF, 0x2, 0xB2BE, 0x14,
    0xF5FF, 0x2, 0x66, 0x517E, 0x545F, 0x2, 0xF2FE, 0x24, 0x222E, 0x2, 0x22AE, 0x85, 0x44EF, 0x2,
    0xC6, 0x14, 0xF4FF, 0x2, 0x76, 0x35, 0x447F, 0x2, 0x40DE, 0x24, 0x323E, 0x2, 0x9E, 0x45, 0xD7,
    0x2, 0x88BE, 0x14, 0xFAFF, 0x2, 0x115E, 0xF1FE, 0x444F, 0x2, 0xF8FE, 0x24, 0x56, 0x2, 0xB6,
    0x85, 0xC8EF, 0x2, 0xCE, 0x14, 0x111E, 0x2, 0x96, 0x35, 0x888F, 0x2, 0xF6, 0x24, 0x313E, 0x2,
    0xA6, 0x45, 0x44DF, 0x2, 0xB2BE, 0x14, 0xA8FF, 0x2, 0x66, 0x517E, 0x6F, 0x2, 0xF2FE, 0x24,
    0x222E, 0x2, 0x22AE, 0x85, 0xE7, 0x2, 0xC6, 0x14, 0xE2EF, 0x2, 0x76, 0x35, 0x727F, 0x2, 0x40DE,
    0x24, 0x323E, 0x2, 0x9E, 0x45, 0xB1BF, 0x2, 0x88BE, 0x14, 0x73FF, 0x2, 0x115E, 0xF1FE, 0x333F,
    0x1, 0x84, 0x1, 0x20EE, 0x1, 0xC5, 0x1, 0xC4CF, 0x1, 0x44, 0x1, 0x32FF, 0x1, 0x15, 0x1, 0x888F,
    0x1, 0x84, 0x1, 0x66, 0x1, 0x25, 0x1, 0xAF, 0x1, 0x44, 0x1, 0x22EF, 0x1, 0xA6, 0x1, 0x5F, 0x1,
    0x84, 0x1, 0x444E, 0x1, 0xC5, 0x1, 0xCCCF, 0x1, 0x44, 0x1, 0xF7, 0x1, 0x15, 0x1, 0x6F, 0x1,
    0x84, 0x1, 0x56, 0x1, 0x25, 0x1, 0x9F, 0x1, 0x44, 0x1, 0xDF, 0x1, 0x30FE, 0x1, 0x222F, 0x1,
    0x84, 0x1, 0x20EE, 0x1, 0xC5, 0x1, 0xC8CF, 0x1, 0x44, 0x1, 0x11FF, 0x1, 0x15, 0x1, 0x77, 0x1,
    0x84, 0x1, 0x66, 0x1, 0x25, 0x1, 0x7F, 0x1, 0x44, 0x1, 0xE7, 0x1, 0xA6, 0x1, 0x37, 0x1, 0x84,
    0x1, 0x444E, 0x1, 0xC5, 0x1, 0xB7, 0x1, 0x44, 0x1, 0xBF, 0x1, 0x15, 0x1, 0x3F, 0x1, 0x84, 0x1,
    0x56, 0x1, 0x25, 0x1, 0x97, 0x1, 0x44, 0x1, 0xD7, 0x1, 0x30FE, 0x1, 0x111F, 0x2, 0xA8EE, 0x44,
    0x888E, 0x2, 0xD6, 0xC5, 0xF3FF, 0x2, 0xFCFE, 0x25, 0x3E, 0x2, 0xB6, 0x55, 0xD8DF, 0x2, 0xF8FE,
    0x44, 0x66, 0x2, 0x207E, 0x85, 0x99FF, 0x2, 0xE6, 0xF5, 0x36, 0x2, 0xA6, 0x15, 0x9F, 0x2,
    0xF2FE, 0x44, 0x76, 0x2, 0x44CE, 0xC5, 0x76FF, 0x2, 0xF1FE, 0x25, 0x444E, 0x2, 0xAE, 0x55,
    0xC8CF, 0x2, 0xF4FE, 0x44, 0x445E, 0x2, 0x10BE, 0x85, 0xE4EF, 0x2, 0x54DE, 0xF5, 0x111E, 0x2,
    0x96, 0x15, 0x222F, 0x2, 0xA8EE, 0x44, 0x888E, 0x2, 0xD6, 0xC5, 0xFAFF, 0x2, 0xFCFE, 0x25,
    0x3E, 0x2, 0xB6, 0x55, 0x11BF, 0x2, 0xF8FE, 0x44, 0x66, 0x2, 0x207E, 0x85, 0x22EF, 0x2, 0xE6,
    0xF5, 0x36, 0x2, 0xA6, 0x15, 0x227F, 0x2, 0xF2FE, 0x44, 0x76, 0x2, 0x44CE, 0xC5, 0xD5FF, 0x2,
    0xF1FE, 0x25, 0x444E, 0x2, 0xAE, 0x55, 0x6F, 0x2, 0xF4FE, 0x44, 0x445E, 0x2, 0x10BE, 0x85,
    0x11DF, 0x2, 0x54DE, 0xF5, 0x111E, 0x2, 0x96, 0x15, 0x515F, 0x3, 0xF6, 0x14, 0x111E, 0x44,
    0x888E, 0xA5, 0xD4DF, 0x3, 0xA2AE, 0x55, 0x76FF, 0x24, 0x223E, 0xB6, 0xAAAF, 0x3, 0xE6, 0x14,
    0xF5FF, 0x44, 0x66, 0x85, 0xCCCF, 0x3, 0x9E, 0xC5, 0x44EF, 0x24, 0x36, 0xF8FE, 0x317F, 0x3,
    0xE8EE, 0x14, 0xF1FF, 0x44, 0x76, 0xA5, 0xC4CF, 0x3, 0x227E, 0x55, 0xD1DF, 0x24, 0x444E,
    0xF4FE, 0x515F, 0x3, 0xD6, 0x14, 0xE2EF, 0x44, 0x445E, 0x85, 0x22BF, 0x3, 0x96, 0xC5, 0xC8DF,
    0x24, 0x222E, 0xF2FE, 0x226F, 0x3, 0xF6, 0x14, 0x111E, 0x44, 0x888E, 0xA5, 0xB1BF, 0x3, 0xA2AE,
    0x55, 0x33FF, 0x24, 0x223E, 0xB6, 0xA8AF, 0x3, 0xE6, 0x14, 0xB9FF, 0x44, 0x66, 0x85, 0xA8BF,
    0x3, 0x9E, 0xC5, 0xE4EF, 0x24, 0x36, 0xF8FE, 0x646F, 0x3, 0xE8EE, 0x14, 0xFCFF, 0x44, 0x76,
    0xA5, 0xC8CF, 0x3, 0x227E, 0x55, 0xEAEF, 0x24, 0x444E, 0xF4FE, 0x747F, 0x3, 0xD6, 0x14, 0xFAFF,
    0x44, 0x445E, 0x85, 0xB2BF, 0x3, 0x96, 0xC5, 0x44DF, 0x24, 0x222E, 0xF2FE, 0x313F, 0xF3,
    0xFAFE, 0xF1FD, 0x36, 0x4, 0x32BE, 0x75, 0x11DF, 0xF3, 0x54DE, 0xF2FD, 0xE4EF, 0xD5, 0x717E,
    0xFCFE, 0x737F, 0xF3, 0xF3FE, 0xF8FD, 0x111E, 0x4, 0x96, 0x55, 0xB1BF, 0xF3, 0xCE, 0xB5,
    0xD8DF, 0xF4FD, 0x66, 0xB9FE, 0x545F, 0xF3, 0x76FE, 0xF1FD, 0x26, 0x4, 0xA6, 0x75, 0x9F, 0xF3,
    0xAE, 0xF2FD, 0xF7FF, 0xD5, 0x46, 0xF5FE, 0x747F, 0xF3, 0xE6, 0xF8FD, 0x16, 0x4, 0x86, 0x55,
    0x888F, 0xF3, 0xC6, 0xB5, 0xE2EF, 0xF4FD, 0x115E, 0xA8EE, 0x113F, 0xF3, 0xFAFE, 0xF1FD, 0x36,
    0x4, 0x32BE, 0x75, 0xD1DF, 0xF3, 0x54DE, 0xF2FD, 0xFBFF, 0xD5, 0x717E, 0xFCFE, 0x447F, 0xF3,
    0xF3FE, 0xF8FD, 0x111E, 0x4, 0x96, 0x55, 0x727F, 0xF3, 0xCE, 0xB5, 0x22EF, 0xF4FD, 0x66,
    0xB9FE, 0x444F, 0xF3, 0x76FE, 0xF1FD, 0x26, 0x4, 0xA6, 0x75, 0x11BF, 0xF3, 0xAE, 0xF2FD,
    0xFFFF, 0xD5, 0x46, 0xF5FE, 0x323F, 0xF3, 0xE6, 0xF8FD, 0x16, 0x4, 0x86, 0x55, 0x6F, 0xF3,
    0xC6, 0xB5, 0xB8BF, 0xF4FD, 0x115E, 0xA8EE, 0x222F,
];
