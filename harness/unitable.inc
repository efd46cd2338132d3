// From Python's unicodedata 15.0.0: {first code point, class}; 0 separator, 1 token,
// 2 folded, 3 a token by itself, 9 unassigned (not generated)
static const struct { uint32_t cp; uint8_t k; } UNI[] = {
{0x0,0},{0x30,1},{0x3a,0},{0x41,2},{0x5b,0},{0x61,1},{0x7b,0},{0xa6,3},{0xa7,0},{0xa9,3},{0xaa,1},{0xab,0},
{0xae,3},{0xaf,0},{0xb0,3},{0xb1,0},{0xb2,1},{0xb4,0},{0xb5,2},{0xb6,0},{0xb9,1},{0xbb,0},{0xbc,1},{0xbf,0},
{0xc0,2},{0xd7,0},{0xd8,2},{0xdf,1},{0xf7,0},{0xf8,1},{0x100,2},{0x101,1},{0x102,2},{0x103,1},{0x104,2},{0x105,1},
{0x106,2},{0x107,1},{0x108,2},{0x109,1},{0x10a,2},{0x10b,1},{0x10c,2},{0x10d,1},{0x10e,2},{0x10f,1},{0x110,2},{0x111,1},
{0x112,2},{0x113,1},{0x114,2},{0x115,1},{0x116,2},{0x117,1},{0x118,2},{0x119,1},{0x11a,2},{0x11b,1},{0x11c,2},{0x11d,1},
{0x11e,2},{0x11f,1},{0x120,2},{0x121,1},{0x122,2},{0x123,1},{0x124,2},{0x125,1},{0x126,2},{0x127,1},{0x128,2},{0x129,1},
{0x12a,2},{0x12b,1},{0x12c,2},{0x12d,1},{0x12e,2},{0x12f,1},{0x132,2},{0x133,1},{0x134,2},{0x135,1},{0x136,2},{0x137,1},
{0x139,2},{0x13a,1},{0x13b,2},{0x13c,1},{0x13d,2},{0x13e,1},{0x13f,2},{0x140,1},{0x141,2},{0x142,1},{0x143,2},{0x144,1},
{0x145,2},{0x146,1},{0x147,2},{0x148,1},{0x14a,2},{0x14b,1},{0x14c,2},{0x14d,1},{0x14e,2},{0x14f,1},{0x150,2},{0x151,1},
{0x152,2},{0x153,1},{0x154,2},{0x155,1},{0x156,2},{0x157,1},{0x158,2},{0x159,1},{0x15a,2},{0x15b,1},{0x15c,2},{0x15d,1},
{0x15e,2},{0x15f,1},{0x160,2},{0x161,1},{0x162,2},{0x163,1},{0x164,2},{0x165,1},{0x166,2},{0x167,1},{0x168,2},{0x169,1},
{0x16a,2},{0x16b,1},{0x16c,2},{0x16d,1},{0x16e,2},{0x16f,1},{0x170,2},{0x171,1},{0x172,2},{0x173,1},{0x174,2},{0x175,1},
{0x176,2},{0x177,1},{0x178,2},{0x17a,1},{0x17b,2},{0x17c,1},{0x17d,2},{0x17e,1},{0x17f,2},{0x180,1},{0x181,2},{0x183,1},
{0x184,2},{0x185,1},{0x186,2},{0x188,1},{0x189,2},{0x18c,1},{0x18e,2},{0x192,1},{0x193,2},{0x195,1},{0x196,2},{0x199,1},
{0x19c,2},{0x19e,1},{0x19f,2},{0x1a1,1},{0x1a2,2},{0x1a3,1},{0x1a4,2},{0x1a5,1},{0x1a6,2},{0x1a8,1},{0x1a9,2},{0x1aa,1},
{0x1ac,2},{0x1ad,1},{0x1ae,2},{0x1b0,1},{0x1b1,2},{0x1b4,1},{0x1b5,2},{0x1b6,1},{0x1b7,2},{0x1b9,1},{0x1bc,2},{0x1bd,1},
{0x1c4,2},{0x1c6,1},{0x1c7,2},{0x1c9,1},{0x1ca,2},{0x1cc,1},{0x1cd,2},{0x1ce,1},{0x1cf,2},{0x1d0,1},{0x1d1,2},{0x1d2,1},
{0x1d3,2},{0x1d4,1},{0x1d5,2},{0x1d6,1},{0x1d7,2},{0x1d8,1},{0x1d9,2},{0x1da,1},{0x1db,2},{0x1dc,1},{0x1de,2},{0x1df,1},
{0x1e0,2},{0x1e1,1},{0x1e2,2},{0x1e3,1},{0x1e4,2},{0x1e5,1},{0x1e6,2},{0x1e7,1},{0x1e8,2},{0x1e9,1},{0x1ea,2},{0x1eb,1},
{0x1ec,2},{0x1ed,1},{0x1ee,2},{0x1ef,1},{0x1f1,2},{0x1f3,1},{0x1f4,2},{0x1f5,1},{0x1f6,2},{0x1f9,1},{0x1fa,2},{0x1fb,1},
{0x1fc,2},{0x1fd,1},{0x1fe,2},{0x1ff,1},{0x200,2},{0x201,1},{0x202,2},{0x203,1},{0x204,2},{0x205,1},{0x206,2},{0x207,1},
{0x208,2},{0x209,1},{0x20a,2},{0x20b,1},{0x20c,2},{0x20d,1},{0x20e,2},{0x20f,1},{0x210,2},{0x211,1},{0x212,2},{0x213,1},
{0x214,2},{0x215,1},{0x216,2},{0x217,1},{0x218,2},{0x219,1},{0x21a,2},{0x21b,1},{0x21c,2},{0x21d,1},{0x21e,2},{0x21f,1},
{0x220,2},{0x221,1},{0x222,2},{0x223,1},{0x224,2},{0x225,1},{0x226,2},{0x227,1},{0x228,2},{0x229,1},{0x22a,2},{0x22b,1},
{0x22c,2},{0x22d,1},{0x22e,2},{0x22f,1},{0x230,2},{0x231,1},{0x232,2},{0x233,1},{0x23a,2},{0x23c,1},{0x23d,2},{0x23f,1},
{0x241,2},{0x242,1},{0x243,2},{0x247,1},{0x248,2},{0x249,1},{0x24a,2},{0x24b,1},{0x24c,2},{0x24d,1},{0x24e,2},{0x24f,1},
{0x2c2,0},{0x2c6,1},{0x2d2,0},{0x2e0,1},{0x2e5,0},{0x2ec,1},{0x2ed,0},{0x2ee,1},{0x2ef,0},{0x300,1},{0x345,2},{0x346,1},
{0x370,2},{0x371,1},{0x372,2},{0x373,1},{0x375,0},{0x376,2},{0x377,1},{0x378,9},{0x37a,1},{0x37e,0},{0x37f,2},{0x380,9},
{0x384,0},{0x386,2},{0x387,0},{0x388,2},{0x38b,9},{0x38c,2},{0x38d,9},{0x38e,2},{0x390,1},{0x391,2},{0x3a2,9},{0x3a3,2},
{0x3ac,1},{0x3c2,2},{0x3c3,1},{0x3cf,2},{0x3d2,1},{0x3d5,2},{0x3d7,1},{0x3d8,2},{0x3d9,1},{0x3da,2},{0x3db,1},{0x3dc,2},
{0x3dd,1},{0x3de,2},{0x3df,1},{0x3e0,2},{0x3e1,1},{0x3e2,2},{0x3e3,1},{0x3e4,2},{0x3e5,1},{0x3e6,2},{0x3e7,1},{0x3e8,2},
{0x3e9,1},{0x3ea,2},{0x3eb,1},{0x3ec,2},{0x3ed,1},{0x3ee,2},{0x3ef,1},{0x3f0,2},{0x3f2,1},{0x3f4,2},{0x3f6,0},{0x3f7,2},
{0x3f8,1},{0x3f9,2},{0x3fb,1},{0x3fd,2},{0x430,1},{0x460,2},{0x461,1},{0x462,2},{0x463,1},{0x464,2},{0x465,1},{0x466,2},
{0x467,1},{0x468,2},{0x469,1},{0x46a,2},{0x46b,1},{0x46c,2},{0x46d,1},{0x46e,2},{0x46f,1},{0x470,2},{0x471,1},{0x472,2},
{0x473,1},{0x474,2},{0x475,1},{0x476,2},{0x477,1},{0x478,2},{0x479,1},{0x47a,2},{0x47b,1},{0x47c,2},{0x47d,1},{0x47e,2},
{0x47f,1},{0x480,2},{0x481,1},{0x482,3},{0x483,1},{0x48a,2},{0x48b,1},{0x48c,2},{0x48d,1},{0x48e,2},{0x48f,1},{0x490,2},
{0x491,1},{0x492,2},{0x493,1},{0x494,2},{0x495,1},{0x496,2},{0x497,1},{0x498,2},{0x499,1},{0x49a,2},{0x49b,1},{0x49c,2},
{0x49d,1},{0x49e,2},{0x49f,1},{0x4a0,2},{0x4a1,1},{0x4a2,2},{0x4a3,1},{0x4a4,2},{0x4a5,1},{0x4a6,2},{0x4a7,1},{0x4a8,2},
{0x4a9,1},{0x4aa,2},{0x4ab,1},{0x4ac,2},{0x4ad,1},{0x4ae,2},{0x4af,1},{0x4b0,2},{0x4b1,1},{0x4b2,2},{0x4b3,1},{0x4b4,2},
{0x4b5,1},{0x4b6,2},{0x4b7,1},{0x4b8,2},{0x4b9,1},{0x4ba,2},{0x4bb,1},{0x4bc,2},{0x4bd,1},{0x4be,2},{0x4bf,1},{0x4c0,2},
{0x4c2,1},{0x4c3,2},{0x4c4,1},{0x4c5,2},{0x4c6,1},{0x4c7,2},{0x4c8,1},{0x4c9,2},{0x4ca,1},{0x4cb,2},{0x4cc,1},{0x4cd,2},
{0x4ce,1},{0x4d0,2},{0x4d1,1},{0x4d2,2},{0x4d3,1},{0x4d4,2},{0x4d5,1},{0x4d6,2},{0x4d7,1},{0x4d8,2},{0x4d9,1},{0x4da,2},
{0x4db,1},{0x4dc,2},{0x4dd,1},{0x4de,2},{0x4df,1},{0x4e0,2},{0x4e1,1},{0x4e2,2},{0x4e3,1},{0x4e4,2},{0x4e5,1},{0x4e6,2},
{0x4e7,1},{0x4e8,2},{0x4e9,1},{0x4ea,2},{0x4eb,1},{0x4ec,2},{0x4ed,1},{0x4ee,2},{0x4ef,1},{0x4f0,2},{0x4f1,1},{0x4f2,2},
{0x4f3,1},{0x4f4,2},{0x4f5,1},{0x4f6,2},{0x4f7,1},{0x4f8,2},{0x4f9,1},{0x4fa,2},{0x4fb,1},{0x4fc,2},{0x4fd,1},{0x4fe,2},
{0x4ff,1},{0x500,2},{0x501,1},{0x502,2},{0x503,1},{0x504,2},{0x505,1},{0x506,2},{0x507,1},{0x508,2},{0x509,1},{0x50a,2},
{0x50b,1},{0x50c,2},{0x50d,1},{0x50e,2},{0x50f,1},{0x510,2},{0x511,1},{0x512,2},{0x513,1},{0x514,2},{0x515,1},{0x516,2},
{0x517,1},{0x518,2},{0x519,1},{0x51a,2},{0x51b,1},{0x51c,2},{0x51d,1},{0x51e,2},{0x51f,1},{0x520,2},{0x521,1},{0x522,2},
{0x523,1},{0x524,2},{0x525,1},{0x526,2},{0x527,1},{0x528,2},{0x529,1},{0x52a,2},{0x52b,1},{0x52c,2},{0x52d,1},{0x52e,2},
{0x52f,1},{0x530,9},{0x531,2},{0x557,9},{0x559,1},{0x55a,0},{0x560,1},{0x589,0},{0x58b,9},{0x58d,3},{0x58f,0},{0x590,9},
{0x591,1},{0x5be,0},{0x5bf,1},{0x5c0,0},{0x5c1,1},{0x5c3,0},{0x5c4,1},{0x5c6,0},{0x5c7,1},{0x5c8,9},{0x5d0,1},{0x5eb,9},
{0x5ef,1},{0x5f3,0},{0x5f5,9},{0x600,0},{0x60e,3},{0x610,1},{0x61b,0},{0x620,1},{0x66a,0},{0x66e,1},{0x6d4,0},{0x6d5,1},
{0x6dd,0},{0x6de,3},{0x6df,1},{0x6e9,3},{0x6ea,1},{0x6fd,3},{0x6ff,1},{0x700,0},{0x70e,9},{0x70f,0},{0x710,1},{0x74b,9},
{0x74d,1},{0x7b2,9},{0x7c0,1},{0x7f6,3},{0x7f7,0},{0x7fa,1},{0x7fb,9},{0x7fd,1},{0x7fe,0},{0x800,1},{0x82e,9},{0x830,0},
{0x83f,9},{0x840,1},{0x85c,9},{0x85e,0},{0x85f,9},{0x860,1},{0x86b,9},{0x870,1},{0x888,0},{0x889,1},{0x88f,9},{0x890,0},
{0x892,9},{0x898,1},{0x8e2,0},{0x8e3,1},{0x964,0},{0x966,1},{0x970,0},{0x971,1},{0x984,9},{0x985,1},{0x98d,9},{0x98f,1},
{0x991,9},{0x993,1},{0x9a9,9},{0x9aa,1},{0x9b1,9},{0x9b2,1},{0x9b3,9},{0x9b6,1},{0x9ba,9},{0x9bc,1},{0x9c5,9},{0x9c7,1},
{0x9c9,9},{0x9cb,1},{0x9cf,9},{0x9d7,1},{0x9d8,9},{0x9dc,1},{0x9de,9},{0x9df,1},{0x9e4,9},{0x9e6,1},{0x9f2,0},{0x9f4,1},
{0x9fa,3},{0x9fb,0},{0x9fc,1},{0x9fd,0},{0x9fe,1},{0x9ff,9},{0xa01,1},{0xa04,9},{0xa05,1},{0xa0b,9},{0xa0f,1},{0xa11,9},
{0xa13,1},{0xa29,9},{0xa2a,1},{0xa31,9},{0xa32,1},{0xa34,9},{0xa35,1},{0xa37,9},{0xa38,1},{0xa3a,9},{0xa3c,1},{0xa3d,9},
{0xa3e,1},{0xa43,9},{0xa47,1},{0xa49,9},{0xa4b,1},{0xa4e,9},{0xa51,1},{0xa52,9},{0xa59,1},{0xa5d,9},{0xa5e,1},{0xa5f,9},
{0xa66,1},{0xa76,0},{0xa77,9},{0xa81,1},{0xa84,9},{0xa85,1},{0xa8e,9},{0xa8f,1},{0xa92,9},{0xa93,1},{0xaa9,9},{0xaaa,1},
{0xab1,9},{0xab2,1},{0xab4,9},{0xab5,1},{0xaba,9},{0xabc,1},{0xac6,9},{0xac7,1},{0xaca,9},{0xacb,1},{0xace,9},{0xad0,1},
{0xad1,9},{0xae0,1},{0xae4,9},{0xae6,1},{0xaf0,0},{0xaf2,9},{0xaf9,1},{0xb00,9},{0xb01,1},{0xb04,9},{0xb05,1},{0xb0d,9},
{0xb0f,1},{0xb11,9},{0xb13,1},{0xb29,9},{0xb2a,1},{0xb31,9},{0xb32,1},{0xb34,9},{0xb35,1},{0xb3a,9},{0xb3c,1},{0xb45,9},
{0xb47,1},{0xb49,9},{0xb4b,1},{0xb4e,9},{0xb55,1},{0xb58,9},{0xb5c,1},{0xb5e,9},{0xb5f,1},{0xb64,9},{0xb66,1},{0xb70,3},
{0xb71,1},{0xb78,9},{0xb82,1},{0xb84,9},{0xb85,1},{0xb8b,9},{0xb8e,1},{0xb91,9},{0xb92,1},{0xb96,9},{0xb99,1},{0xb9b,9},
{0xb9c,1},{0xb9d,9},{0xb9e,1},{0xba0,9},{0xba3,1},{0xba5,9},{0xba8,1},{0xbab,9},{0xbae,1},{0xbba,9},{0xbbe,1},{0xbc3,9},
{0xbc6,1},{0xbc9,9},{0xbca,1},{0xbce,9},{0xbd0,1},{0xbd1,9},{0xbd7,1},{0xbd8,9},{0xbe6,1},{0xbf3,3},{0xbf9,0},{0xbfa,3},
{0xbfb,9},{0xc00,1},{0xc0d,9},{0xc0e,1},{0xc11,9},{0xc12,1},{0xc29,9},{0xc2a,1},{0xc3a,9},{0xc3c,1},{0xc45,9},{0xc46,1},
{0xc49,9},{0xc4a,1},{0xc4e,9},{0xc55,1},{0xc57,9},{0xc58,1},{0xc5b,9},{0xc5d,1},{0xc5e,9},{0xc60,1},{0xc64,9},{0xc66,1},
{0xc70,9},{0xc77,0},{0xc78,1},{0xc7f,3},{0xc80,1},{0xc84,0},{0xc85,1},{0xc8d,9},{0xc8e,1},{0xc91,9},{0xc92,1},{0xca9,9},
{0xcaa,1},{0xcb4,9},{0xcb5,1},{0xcba,9},{0xcbc,1},{0xcc5,9},{0xcc6,1},{0xcc9,9},{0xcca,1},{0xcce,9},{0xcd5,1},{0xcd7,9},
{0xcdd,1},{0xcdf,9},{0xce0,1},{0xce4,9},{0xce6,1},{0xcf0,9},{0xcf1,1},{0xcf4,9},{0xd00,1},{0xd0d,9},{0xd0e,1},{0xd11,9},
{0xd12,1},{0xd45,9},{0xd46,1},{0xd49,9},{0xd4a,1},{0xd4f,3},{0xd50,9},{0xd54,1},{0xd64,9},{0xd66,1},{0xd79,3},{0xd7a,1},
{0xd80,9},{0xd81,1},{0xd84,9},{0xd85,1},{0xd97,9},{0xd9a,1},{0xdb2,9},{0xdb3,1},{0xdbc,9},{0xdbd,1},{0xdbe,9},{0xdc0,1},
{0xdc7,9},{0xdca,1},{0xdcb,9},{0xdcf,1},{0xdd5,9},{0xdd6,1},{0xdd7,9},{0xdd8,1},{0xde0,9},{0xde6,1},{0xdf0,9},{0xdf2,1},
{0xdf4,0},{0xdf5,9},{0xe01,1},{0xe3b,9},{0xe3f,0},{0xe40,1},{0xe4f,0},{0xe50,1},{0xe5a,0},{0xe5c,9},{0xe81,1},{0xe83,9},
{0xe84,1},{0xe85,9},{0xe86,1},{0xe8b,9},{0xe8c,1},{0xea4,9},{0xea5,1},{0xea6,9},{0xea7,1},{0xebe,9},{0xec0,1},{0xec5,9},
{0xec6,1},{0xec7,9},{0xec8,1},{0xecf,9},{0xed0,1},{0xeda,9},{0xedc,1},{0xee0,9},{0xf00,1},{0xf01,3},{0xf04,0},{0xf13,3},
{0xf14,0},{0xf15,3},{0xf18,1},{0xf1a,3},{0xf20,1},{0xf34,3},{0xf35,1},{0xf36,3},{0xf37,1},{0xf38,3},{0xf39,1},{0xf3a,0},
{0xf3e,1},{0xf48,9},{0xf49,1},{0xf6d,9},{0xf71,1},{0xf85,0},{0xf86,1},{0xf98,9},{0xf99,1},{0xfbd,9},{0xfbe,3},{0xfc6,1},
{0xfc7,3},{0xfcd,9},{0xfce,3},{0xfd0,0},{0xfd5,3},{0xfd9,0},{0xfdb,9},{0x1000,1},{0x104a,0},{0x1050,1},{0x109e,3},{0x10a0,2},
{0x10c6,9},{0x10c7,2},{0x10c8,9},{0x10cd,2},{0x10ce,9},{0x10d0,1},{0x10fb,0},{0x10fc,1},{0x1249,9},{0x124a,1},{0x124e,9},{0x1250,1},
{0x1257,9},{0x1258,1},{0x1259,9},{0x125a,1},{0x125e,9},{0x1260,1},{0x1289,9},{0x128a,1},{0x128e,9},{0x1290,1},{0x12b1,9},{0x12b2,1},
{0x12b6,9},{0x12b8,1},{0x12bf,9},{0x12c0,1},{0x12c1,9},{0x12c2,1},{0x12c6,9},{0x12c8,1},{0x12d7,9},{0x12d8,1},{0x1311,9},{0x1312,1},
{0x1316,9},{0x1318,1},{0x135b,9},{0x135d,1},{0x1360,0},{0x1369,1},{0x137d,9},{0x1380,1},{0x1390,3},{0x139a,9},{0x13a0,1},{0x13f6,9},
{0x13f8,2},{0x13fe,9},{0x1400,0},{0x1401,1},{0x166d,3},{0x166e,0},{0x166f,1},{0x1680,0},{0x1681,1},{0x169b,0},{0x169d,9},{0x16a0,1},
{0x16eb,0},{0x16ee,1},{0x16f9,9},{0x1700,1},{0x1716,9},{0x171f,1},{0x1735,0},{0x1737,9},{0x1740,1},{0x1754,9},{0x1760,1},{0x176d,9},
{0x176e,1},{0x1771,9},{0x1772,1},{0x1774,9},{0x1780,1},{0x17d4,0},{0x17d7,1},{0x17d8,0},{0x17dc,1},{0x17de,9},{0x17e0,1},{0x17ea,9},
{0x17f0,1},{0x17fa,9},{0x1800,0},{0x180b,1},{0x180e,0},{0x180f,1},{0x181a,9},{0x1820,1},{0x1879,9},{0x1880,1},{0x18ab,9},{0x18b0,1},
{0x18f6,9},{0x1900,1},{0x191f,9},{0x1920,1},{0x192c,9},{0x1930,1},{0x193c,9},{0x1940,3},{0x1941,9},{0x1944,0},{0x1946,1},{0x196e,9},
{0x1970,1},{0x1975,9},{0x1980,1},{0x19ac,9},{0x19b0,1},{0x19ca,9},{0x19d0,1},{0x19db,9},{0x19de,3},{0x1a00,1},{0x1a1c,9},{0x1a1e,0},
{0x1a20,1},{0x1a5f,9},{0x1a60,1},{0x1a7d,9},{0x1a7f,1},{0x1a8a,9},{0x1a90,1},{0x1a9a,9},{0x1aa0,0},{0x1aa7,1},{0x1aa8,0},{0x1aae,9},
{0x1ab0,1},{0x1acf,9},{0x1b00,1},{0x1b4d,9},{0x1b50,1},{0x1b5a,0},{0x1b61,3},{0x1b6b,1},{0x1b74,3},{0x1b7d,0},{0x1b7f,9},{0x1b80,1},
{0x1bf4,9},{0x1bfc,0},{0x1c00,1},{0x1c38,9},{0x1c3b,0},{0x1c40,1},{0x1c4a,9},{0x1c4d,1},{0x1c7e,0},{0x1c80,2},{0x1c89,9},{0x1c90,2},
{0x1cbb,9},{0x1cbd,2},{0x1cc0,0},{0x1cc8,9},{0x1cd0,1},{0x1cd3,0},{0x1cd4,1},{0x1cfb,9},{0x1d00,1},{0x1e00,2},{0x1e01,1},{0x1e02,2},
{0x1e03,1},{0x1e04,2},{0x1e05,1},{0x1e06,2},{0x1e07,1},{0x1e08,2},{0x1e09,1},{0x1e0a,2},{0x1e0b,1},{0x1e0c,2},{0x1e0d,1},{0x1e0e,2},
{0x1e0f,1},{0x1e10,2},{0x1e11,1},{0x1e12,2},{0x1e13,1},{0x1e14,2},{0x1e15,1},{0x1e16,2},{0x1e17,1},{0x1e18,2},{0x1e19,1},{0x1e1a,2},
{0x1e1b,1},{0x1e1c,2},{0x1e1d,1},{0x1e1e,2},{0x1e1f,1},{0x1e20,2},{0x1e21,1},{0x1e22,2},{0x1e23,1},{0x1e24,2},{0x1e25,1},{0x1e26,2},
{0x1e27,1},{0x1e28,2},{0x1e29,1},{0x1e2a,2},{0x1e2b,1},{0x1e2c,2},{0x1e2d,1},{0x1e2e,2},{0x1e2f,1},{0x1e30,2},{0x1e31,1},{0x1e32,2},
{0x1e33,1},{0x1e34,2},{0x1e35,1},{0x1e36,2},{0x1e37,1},{0x1e38,2},{0x1e39,1},{0x1e3a,2},{0x1e3b,1},{0x1e3c,2},{0x1e3d,1},{0x1e3e,2},
{0x1e3f,1},{0x1e40,2},{0x1e41,1},{0x1e42,2},{0x1e43,1},{0x1e44,2},{0x1e45,1},{0x1e46,2},{0x1e47,1},{0x1e48,2},{0x1e49,1},{0x1e4a,2},
{0x1e4b,1},{0x1e4c,2},{0x1e4d,1},{0x1e4e,2},{0x1e4f,1},{0x1e50,2},{0x1e51,1},{0x1e52,2},{0x1e53,1},{0x1e54,2},{0x1e55,1},{0x1e56,2},
{0x1e57,1},{0x1e58,2},{0x1e59,1},{0x1e5a,2},{0x1e5b,1},{0x1e5c,2},{0x1e5d,1},{0x1e5e,2},{0x1e5f,1},{0x1e60,2},{0x1e61,1},{0x1e62,2},
{0x1e63,1},{0x1e64,2},{0x1e65,1},{0x1e66,2},{0x1e67,1},{0x1e68,2},{0x1e69,1},{0x1e6a,2},{0x1e6b,1},{0x1e6c,2},{0x1e6d,1},{0x1e6e,2},
{0x1e6f,1},{0x1e70,2},{0x1e71,1},{0x1e72,2},{0x1e73,1},{0x1e74,2},{0x1e75,1},{0x1e76,2},{0x1e77,1},{0x1e78,2},{0x1e79,1},{0x1e7a,2},
{0x1e7b,1},{0x1e7c,2},{0x1e7d,1},{0x1e7e,2},{0x1e7f,1},{0x1e80,2},{0x1e81,1},{0x1e82,2},{0x1e83,1},{0x1e84,2},{0x1e85,1},{0x1e86,2},
{0x1e87,1},{0x1e88,2},{0x1e89,1},{0x1e8a,2},{0x1e8b,1},{0x1e8c,2},{0x1e8d,1},{0x1e8e,2},{0x1e8f,1},{0x1e90,2},{0x1e91,1},{0x1e92,2},
{0x1e93,1},{0x1e94,2},{0x1e95,1},{0x1e9b,2},{0x1e9c,1},{0x1e9e,2},{0x1e9f,1},{0x1ea0,2},{0x1ea1,1},{0x1ea2,2},{0x1ea3,1},{0x1ea4,2},
{0x1ea5,1},{0x1ea6,2},{0x1ea7,1},{0x1ea8,2},{0x1ea9,1},{0x1eaa,2},{0x1eab,1},{0x1eac,2},{0x1ead,1},{0x1eae,2},{0x1eaf,1},{0x1eb0,2},
{0x1eb1,1},{0x1eb2,2},{0x1eb3,1},{0x1eb4,2},{0x1eb5,1},{0x1eb6,2},{0x1eb7,1},{0x1eb8,2},{0x1eb9,1},{0x1eba,2},{0x1ebb,1},{0x1ebc,2},
{0x1ebd,1},{0x1ebe,2},{0x1ebf,1},{0x1ec0,2},{0x1ec1,1},{0x1ec2,2},{0x1ec3,1},{0x1ec4,2},{0x1ec5,1},{0x1ec6,2},{0x1ec7,1},{0x1ec8,2},
{0x1ec9,1},{0x1eca,2},{0x1ecb,1},{0x1ecc,2},{0x1ecd,1},{0x1ece,2},{0x1ecf,1},{0x1ed0,2},{0x1ed1,1},{0x1ed2,2},{0x1ed3,1},{0x1ed4,2},
{0x1ed5,1},{0x1ed6,2},{0x1ed7,1},{0x1ed8,2},{0x1ed9,1},{0x1eda,2},{0x1edb,1},{0x1edc,2},{0x1edd,1},{0x1ede,2},{0x1edf,1},{0x1ee0,2},
{0x1ee1,1},{0x1ee2,2},{0x1ee3,1},{0x1ee4,2},{0x1ee5,1},{0x1ee6,2},{0x1ee7,1},{0x1ee8,2},{0x1ee9,1},{0x1eea,2},{0x1eeb,1},{0x1eec,2},
{0x1eed,1},{0x1eee,2},{0x1eef,1},{0x1ef0,2},{0x1ef1,1},{0x1ef2,2},{0x1ef3,1},{0x1ef4,2},{0x1ef5,1},{0x1ef6,2},{0x1ef7,1},{0x1ef8,2},
{0x1ef9,1},{0x1efa,2},{0x1efb,1},{0x1efc,2},{0x1efd,1},{0x1efe,2},{0x1eff,1},{0x1f08,2},{0x1f10,1},{0x1f16,9},{0x1f18,2},{0x1f1e,9},
{0x1f20,1},{0x1f28,2},{0x1f30,1},{0x1f38,2},{0x1f40,1},{0x1f46,9},{0x1f48,2},{0x1f4e,9},{0x1f50,1},{0x1f58,9},{0x1f59,2},{0x1f5a,9},
{0x1f5b,2},{0x1f5c,9},{0x1f5d,2},{0x1f5e,9},{0x1f5f,2},{0x1f60,1},{0x1f68,2},{0x1f70,1},{0x1f7e,9},{0x1f80,1},{0x1f88,2},{0x1f90,1},
{0x1f98,2},{0x1fa0,1},{0x1fa8,2},{0x1fb0,1},{0x1fb5,9},{0x1fb6,1},{0x1fb8,2},{0x1fbd,0},{0x1fbe,2},{0x1fbf,0},{0x1fc2,1},{0x1fc5,9},
{0x1fc6,1},{0x1fc8,2},{0x1fcd,0},{0x1fd0,1},{0x1fd3,9},{0x1fd4,9},{0x1fd6,1},{0x1fd8,2},{0x1fdc,9},{0x1fdd,0},{0x1fe0,1},{0x1fe3,9},
{0x1fe4,1},{0x1fe8,2},{0x1fed,0},{0x1ff0,9},{0x1ff2,1},{0x1ff5,9},{0x1ff6,1},{0x1ff8,2},{0x1ffd,0},{0x1fff,9},{0x2000,0},{0x2065,9},
{0x2066,0},{0x2070,1},{0x2072,9},{0x2074,1},{0x207a,0},{0x207f,1},{0x208a,0},{0x208f,9},{0x2090,1},{0x209d,9},{0x20a0,0},{0x20c1,9},
{0x20d0,1},{0x20f1,9},{0x2100,3},{0x2102,1},{0x2103,3},{0x2107,1},{0x2108,3},{0x210a,1},{0x2114,3},{0x2115,1},{0x2116,3},{0x2118,0},
{0x2119,1},{0x211e,3},{0x2124,1},{0x2125,3},{0x2126,2},{0x2127,3},{0x2128,1},{0x2129,3},{0x212a,2},{0x212c,1},{0x212e,3},{0x212f,1},
{0x2132,2},{0x2133,1},{0x213a,3},{0x213c,1},{0x2140,0},{0x2145,1},{0x214a,3},{0x214b,0},{0x214c,3},{0x214e,1},{0x214f,3},{0x2150,1},
{0x2160,2},{0x2170,1},{0x2183,2},{0x2184,1},{0x218a,3},{0x218c,9},{0x2190,0},{0x2195,3},{0x219a,0},{0x219c,3},{0x21a0,0},{0x21a1,3},
{0x21a3,0},{0x21a4,3},{0x21a6,0},{0x21a7,3},{0x21ae,0},{0x21af,3},{0x21ce,0},{0x21d0,3},{0x21d2,0},{0x21d3,3},{0x21d4,0},{0x21d5,3},
{0x21f4,0},{0x2300,3},{0x2308,0},{0x230c,3},{0x2320,0},{0x2322,3},{0x2329,0},{0x232b,3},{0x237c,0},{0x237d,3},{0x239b,0},{0x23b4,3},
{0x23dc,0},{0x23e2,3},{0x2427,9},{0x2440,3},{0x244b,9},{0x2460,1},{0x249c,3},{0x24ea,1},{0x2500,3},{0x25b7,0},{0x25b8,3},{0x25c1,0},
{0x25c2,3},{0x25f8,0},{0x2600,3},{0x266f,0},{0x2670,3},{0x2768,0},{0x2776,1},{0x2794,3},{0x27c0,0},{0x2800,3},{0x2900,0},{0x2b00,3},
{0x2b30,0},{0x2b45,3},{0x2b47,0},{0x2b4d,3},{0x2b74,9},{0x2b76,3},{0x2b96,9},{0x2b97,3},{0x2c00,2},{0x2c30,1},{0x2c60,2},{0x2c61,1},
{0x2c62,2},{0x2c65,1},{0x2c67,2},{0x2c68,1},{0x2c69,2},{0x2c6a,1},{0x2c6b,2},{0x2c6c,1},{0x2c6d,2},{0x2c71,1},{0x2c72,2},{0x2c73,1},
{0x2c75,2},{0x2c76,1},{0x2c7e,2},{0x2c81,1},{0x2c82,2},{0x2c83,1},{0x2c84,2},{0x2c85,1},{0x2c86,2},{0x2c87,1},{0x2c88,2},{0x2c89,1},
{0x2c8a,2},{0x2c8b,1},{0x2c8c,2},{0x2c8d,1},{0x2c8e,2},{0x2c8f,1},{0x2c90,2},{0x2c91,1},{0x2c92,2},{0x2c93,1},{0x2c94,2},{0x2c95,1},
{0x2c96,2},{0x2c97,1},{0x2c98,2},{0x2c99,1},{0x2c9a,2},{0x2c9b,1},{0x2c9c,2},{0x2c9d,1},{0x2c9e,2},{0x2c9f,1},{0x2ca0,2},{0x2ca1,1},
{0x2ca2,2},{0x2ca3,1},{0x2ca4,2},{0x2ca5,1},{0x2ca6,2},{0x2ca7,1},{0x2ca8,2},{0x2ca9,1},{0x2caa,2},{0x2cab,1},{0x2cac,2},{0x2cad,1},
{0x2cae,2},{0x2caf,1},{0x2cb0,2},{0x2cb1,1},{0x2cb2,2},{0x2cb3,1},{0x2cb4,2},{0x2cb5,1},{0x2cb6,2},{0x2cb7,1},{0x2cb8,2},{0x2cb9,1},
{0x2cba,2},{0x2cbb,1},{0x2cbc,2},{0x2cbd,1},{0x2cbe,2},{0x2cbf,1},{0x2cc0,2},{0x2cc1,1},{0x2cc2,2},{0x2cc3,1},{0x2cc4,2},{0x2cc5,1},
{0x2cc6,2},{0x2cc7,1},{0x2cc8,2},{0x2cc9,1},{0x2cca,2},{0x2ccb,1},{0x2ccc,2},{0x2ccd,1},{0x2cce,2},{0x2ccf,1},{0x2cd0,2},{0x2cd1,1},
{0x2cd2,2},{0x2cd3,1},{0x2cd4,2},{0x2cd5,1},{0x2cd6,2},{0x2cd7,1},{0x2cd8,2},{0x2cd9,1},{0x2cda,2},{0x2cdb,1},{0x2cdc,2},{0x2cdd,1},
{0x2cde,2},{0x2cdf,1},{0x2ce0,2},{0x2ce1,1},{0x2ce2,2},{0x2ce3,1},{0x2ce5,3},{0x2ceb,2},{0x2cec,1},{0x2ced,2},{0x2cee,1},{0x2cf2,2},
{0x2cf3,1},{0x2cf4,9},{0x2cf9,0},{0x2cfd,1},{0x2cfe,0},{0x2d00,1},{0x2d26,9},{0x2d27,1},{0x2d28,9},{0x2d2d,1},{0x2d2e,9},{0x2d30,1},
{0x2d68,9},{0x2d6f,1},{0x2d70,0},{0x2d71,9},{0x2d7f,1},{0x2d97,9},{0x2da0,1},{0x2da7,9},{0x2da8,1},{0x2daf,9},{0x2db0,1},{0x2db7,9},
{0x2db8,1},{0x2dbf,9},{0x2dc0,1},{0x2dc7,9},{0x2dc8,1},{0x2dcf,9},{0x2dd0,1},{0x2dd7,9},{0x2dd8,1},{0x2ddf,9},{0x2de0,1},{0x2e00,0},
{0x2e2f,1},{0x2e30,0},{0x2e50,3},{0x2e52,0},{0x2e5e,9},{0x2e80,3},{0x2e9a,9},{0x2e9b,3},{0x2ef4,9},{0x2f00,3},{0x2fd6,9},{0x2ff0,3},
{0x2ffc,9},{0x3000,0},{0x3004,3},{0x3005,1},{0x3008,0},{0x3012,3},{0x3014,0},{0x3020,3},{0x3021,1},{0x3030,0},{0x3031,1},{0x3036,3},
{0x3038,1},{0x303d,0},{0x303e,3},{0x3040,9},{0x3041,1},{0x3097,9},{0x3099,1},{0x309b,0},{0x309d,1},{0x30a0,0},{0x30a1,1},{0x30fb,0},
{0x30fc,1},{0x3100,9},{0x3105,1},{0x3130,9},{0x3131,1},{0x318f,9},{0x3190,3},{0x3192,1},{0x3196,3},{0x31a0,1},{0x31c0,3},{0x31e4,9},
{0x31f0,1},{0x3200,3},{0x321f,9},{0x3220,1},{0x322a,3},{0x3248,1},{0x3250,3},{0x3251,1},{0x3260,3},{0x3280,1},{0x328a,3},{0x32b1,1},
{0x32c0,3},{0xa000,1},{0xa48d,9},{0xa490,3},{0xa4c7,9},{0xa4d0,1},{0xa4fe,0},{0xa500,1},{0xa60d,0},{0xa610,1},{0xa62c,9},{0xa640,2},
{0xa641,1},{0xa642,2},{0xa643,1},{0xa644,2},{0xa645,1},{0xa646,2},{0xa647,1},{0xa648,2},{0xa649,1},{0xa64a,2},{0xa64b,1},{0xa64c,2},
{0xa64d,1},{0xa64e,2},{0xa64f,1},{0xa650,2},{0xa651,1},{0xa652,2},{0xa653,1},{0xa654,2},{0xa655,1},{0xa656,2},{0xa657,1},{0xa658,2},
{0xa659,1},{0xa65a,2},{0xa65b,1},{0xa65c,2},{0xa65d,1},{0xa65e,2},{0xa65f,1},{0xa660,2},{0xa661,1},{0xa662,2},{0xa663,1},{0xa664,2},
{0xa665,1},{0xa666,2},{0xa667,1},{0xa668,2},{0xa669,1},{0xa66a,2},{0xa66b,1},{0xa66c,2},{0xa66d,1},{0xa673,0},{0xa674,1},{0xa67e,0},
{0xa67f,1},{0xa680,2},{0xa681,1},{0xa682,2},{0xa683,1},{0xa684,2},{0xa685,1},{0xa686,2},{0xa687,1},{0xa688,2},{0xa689,1},{0xa68a,2},
{0xa68b,1},{0xa68c,2},{0xa68d,1},{0xa68e,2},{0xa68f,1},{0xa690,2},{0xa691,1},{0xa692,2},{0xa693,1},{0xa694,2},{0xa695,1},{0xa696,2},
{0xa697,1},{0xa698,2},{0xa699,1},{0xa69a,2},{0xa69b,1},{0xa6f2,0},{0xa6f8,9},{0xa700,0},{0xa717,1},{0xa720,0},{0xa722,2},{0xa723,1},
{0xa724,2},{0xa725,1},{0xa726,2},{0xa727,1},{0xa728,2},{0xa729,1},{0xa72a,2},{0xa72b,1},{0xa72c,2},{0xa72d,1},{0xa72e,2},{0xa72f,1},
{0xa732,2},{0xa733,1},{0xa734,2},{0xa735,1},{0xa736,2},{0xa737,1},{0xa738,2},{0xa739,1},{0xa73a,2},{0xa73b,1},{0xa73c,2},{0xa73d,1},
{0xa73e,2},{0xa73f,1},{0xa740,2},{0xa741,1},{0xa742,2},{0xa743,1},{0xa744,2},{0xa745,1},{0xa746,2},{0xa747,1},{0xa748,2},{0xa749,1},
{0xa74a,2},{0xa74b,1},{0xa74c,2},{0xa74d,1},{0xa74e,2},{0xa74f,1},{0xa750,2},{0xa751,1},{0xa752,2},{0xa753,1},{0xa754,2},{0xa755,1},
{0xa756,2},{0xa757,1},{0xa758,2},{0xa759,1},{0xa75a,2},{0xa75b,1},{0xa75c,2},{0xa75d,1},{0xa75e,2},{0xa75f,1},{0xa760,2},{0xa761,1},
{0xa762,2},{0xa763,1},{0xa764,2},{0xa765,1},{0xa766,2},{0xa767,1},{0xa768,2},{0xa769,1},{0xa76a,2},{0xa76b,1},{0xa76c,2},{0xa76d,1},
{0xa76e,2},{0xa76f,1},{0xa779,2},{0xa77a,1},{0xa77b,2},{0xa77c,1},{0xa77d,2},{0xa77f,1},{0xa780,2},{0xa781,1},{0xa782,2},{0xa783,1},
{0xa784,2},{0xa785,1},{0xa786,2},{0xa787,1},{0xa789,0},{0xa78b,2},{0xa78c,1},{0xa78d,2},{0xa78e,1},{0xa790,2},{0xa791,1},{0xa792,2},
{0xa793,1},{0xa796,2},{0xa797,1},{0xa798,2},{0xa799,1},{0xa79a,2},{0xa79b,1},{0xa79c,2},{0xa79d,1},{0xa79e,2},{0xa79f,1},{0xa7a0,2},
{0xa7a1,1},{0xa7a2,2},{0xa7a3,1},{0xa7a4,2},{0xa7a5,1},{0xa7a6,2},{0xa7a7,1},{0xa7a8,2},{0xa7a9,1},{0xa7aa,2},{0xa7af,1},{0xa7b0,2},
{0xa7b5,1},{0xa7b6,2},{0xa7b7,1},{0xa7b8,2},{0xa7b9,1},{0xa7ba,2},{0xa7bb,1},{0xa7bc,2},{0xa7bd,1},{0xa7be,2},{0xa7bf,1},{0xa7c0,2},
{0xa7c1,1},{0xa7c2,2},{0xa7c3,1},{0xa7c4,2},{0xa7c8,1},{0xa7c9,2},{0xa7ca,1},{0xa7cb,9},{0xa7d0,2},{0xa7d1,1},{0xa7d2,9},{0xa7d3,1},
{0xa7d4,9},{0xa7d5,1},{0xa7d6,2},{0xa7d7,1},{0xa7d8,2},{0xa7d9,1},{0xa7da,9},{0xa7f2,1},{0xa7f5,2},{0xa7f6,1},{0xa828,3},{0xa82c,1},
{0xa82d,9},{0xa830,1},{0xa836,3},{0xa838,0},{0xa839,3},{0xa83a,9},{0xa840,1},{0xa874,0},{0xa878,9},{0xa880,1},{0xa8c6,9},{0xa8ce,0},
{0xa8d0,1},{0xa8da,9},{0xa8e0,1},{0xa8f8,0},{0xa8fb,1},{0xa8fc,0},{0xa8fd,1},{0xa92e,0},{0xa930,1},{0xa954,9},{0xa95f,0},{0xa960,1},
{0xa97d,9},{0xa980,1},{0xa9c1,0},{0xa9ce,9},{0xa9cf,1},{0xa9da,9},{0xa9de,0},{0xa9e0,1},{0xa9ff,9},{0xaa00,1},{0xaa37,9},{0xaa40,1},
{0xaa4e,9},{0xaa50,1},{0xaa5a,9},{0xaa5c,0},{0xaa60,1},{0xaa77,3},{0xaa7a,1},{0xaac3,9},{0xaadb,1},{0xaade,0},{0xaae0,1},{0xaaf0,0},
{0xaaf2,1},{0xaaf7,9},{0xab01,1},{0xab07,9},{0xab09,1},{0xab0f,9},{0xab11,1},{0xab17,9},{0xab20,1},{0xab27,9},{0xab28,1},{0xab2f,9},
{0xab30,1},{0xab5b,0},{0xab5c,1},{0xab6a,0},{0xab6c,9},{0xab70,2},{0xabc0,1},{0xabeb,0},{0xabec,1},{0xabee,9},{0xabf0,1},{0xabfa,9},
{0xac00,1},{0xd7a4,9},{0xd7b0,1},{0xd7c7,9},{0xd7cb,1},{0xd7fc,9},{0xd800,0},{0xf900,1},{0xfa6e,9},{0xfa70,1},{0xfada,9},{0xfb00,1},
{0xfb05,9},{0xfb06,1},{0xfb07,9},{0xfb13,1},{0xfb18,9},{0xfb1d,1},{0xfb29,0},{0xfb2a,1},{0xfb37,9},{0xfb38,1},{0xfb3d,9},{0xfb3e,1},
{0xfb3f,9},{0xfb40,1},{0xfb42,9},{0xfb43,1},{0xfb45,9},{0xfb46,1},{0xfbb2,0},{0xfbc3,9},{0xfbd3,1},{0xfd3e,0},{0xfd40,3},{0xfd50,1},
{0xfd90,9},{0xfd92,1},{0xfdc8,9},{0xfdcf,3},{0xfdf0,1},{0xfdfc,0},{0xfdfd,3},{0xfe00,1},{0xfe10,0},{0xfe1a,9},{0xfe20,1},{0xfe30,0},
{0xfe53,9},{0xfe54,0},{0xfe67,9},{0xfe68,0},{0xfe6c,9},{0xfe70,1},{0xfe75,9},{0xfe76,1},{0xfefd,9},{0xfeff,0},{0xff00,9},{0xff01,0},
{0xff10,1},{0xff1a,0},{0xff21,2},{0xff3b,0},{0xff41,1},{0xff5b,0},{0xff66,1},{0xffbf,9},{0xffc2,1},{0xffc8,9},{0xffca,1},{0xffd0,9},
{0xffd2,1},{0xffd8,9},{0xffda,1},{0xffdd,9},{0xffe0,0},{0xffe4,3},{0xffe5,0},{0xffe7,9},{0xffe8,3},{0xffe9,0},{0xffed,3},{0xffef,9},
{0xfff9,0},{0xfffc,3},{0x10000,1},{0x1000c,9},{0x1000d,1},{0x10027,9},{0x10028,1},{0x1003b,9},{0x1003c,1},{0x1003e,9},{0x1003f,1},{0x1004e,9},
{0x10050,1},{0x1005e,9},{0x10080,1},{0x100fb,9},{0x10100,0},{0x10103,9},{0x10107,1},{0x10134,9},{0x10137,3},{0x10140,1},{0x10179,3},{0x1018a,1},
{0x1018c,3},{0x1018f,9},{0x10190,3},{0x1019d,9},{0x101a0,3},{0x101a1,9},{0x101d0,3},{0x101fd,1},{0x101fe,9},{0x10280,1},{0x1029d,9},{0x102a0,1},
{0x102d1,9},{0x102e0,1},{0x102fc,9},{0x10300,1},{0x10324,9},{0x1032d,1},{0x1034b,9},{0x10350,1},{0x1037b,9},{0x10380,1},{0x1039e,9},{0x1039f,0},
{0x103a0,1},{0x103c4,9},{0x103c8,1},{0x103d0,0},{0x103d1,1},{0x103d6,9},{0x10400,2},{0x10428,1},{0x1049e,9},{0x104a0,1},{0x104aa,9},{0x104b0,2},
{0x104d4,9},{0x104d8,1},{0x104fc,9},{0x10500,1},{0x10528,9},{0x10530,1},{0x10564,9},{0x1056f,0},{0x10570,2},{0x1057b,9},{0x1057c,2},{0x1058b,9},
{0x1058c,2},{0x10593,9},{0x10594,2},{0x10596,9},{0x10597,1},{0x105a2,9},{0x105a3,1},{0x105b2,9},{0x105b3,1},{0x105ba,9},{0x105bb,1},{0x105bd,9},
{0x10600,1},{0x10737,9},{0x10740,1},{0x10756,9},{0x10760,1},{0x10768,9},{0x10780,1},{0x10786,9},{0x10787,1},{0x107b1,9},{0x107b2,1},{0x107bb,9},
{0x10800,1},{0x10806,9},{0x10808,1},{0x10809,9},{0x1080a,1},{0x10836,9},{0x10837,1},{0x10839,9},{0x1083c,1},{0x1083d,9},{0x1083f,1},{0x10856,9},
{0x10857,0},{0x10858,1},{0x10877,3},{0x10879,1},{0x1089f,9},{0x108a7,1},{0x108b0,9},{0x108e0,1},{0x108f3,9},{0x108f4,1},{0x108f6,9},{0x108fb,1},
{0x1091c,9},{0x1091f,0},{0x10920,1},{0x1093a,9},{0x1093f,0},{0x10940,9},{0x10980,1},{0x109b8,9},{0x109bc,1},{0x109d0,9},{0x109d2,1},{0x10a04,9},
{0x10a05,1},{0x10a07,9},{0x10a0c,1},{0x10a14,9},{0x10a15,1},{0x10a18,9},{0x10a19,1},{0x10a36,9},{0x10a38,1},{0x10a3b,9},{0x10a3f,1},{0x10a49,9},
{0x10a50,0},{0x10a59,9},{0x10a60,1},{0x10a7f,0},{0x10a80,1},{0x10aa0,9},{0x10ac0,1},{0x10ac8,3},{0x10ac9,1},{0x10ae7,9},{0x10aeb,1},{0x10af0,0},
{0x10af7,9},{0x10b00,1},{0x10b36,9},{0x10b39,0},{0x10b40,1},{0x10b56,9},{0x10b58,1},{0x10b73,9},{0x10b78,1},{0x10b92,9},{0x10b99,0},{0x10b9d,9},
{0x10ba9,1},{0x10bb0,9},{0x10c00,1},{0x10c49,9},{0x10c80,2},{0x10cb3,9},{0x10cc0,1},{0x10cf3,9},{0x10cfa,1},{0x10d28,9},{0x10d30,1},{0x10d3a,9},
{0x10e60,1},{0x10e7f,9},{0x10e80,1},{0x10eaa,9},{0x10eab,1},{0x10ead,0},{0x10eae,9},{0x10eb0,1},{0x10eb2,9},{0x10efd,1},{0x10f28,9},{0x10f30,1},
{0x10f55,0},{0x10f5a,9},{0x10f70,1},{0x10f86,0},{0x10f8a,9},{0x10fb0,1},{0x10fcc,9},{0x10fe0,1},{0x10ff7,9},{0x11000,1},{0x11047,0},{0x1104e,9},
{0x11052,1},{0x11076,9},{0x1107f,1},{0x110bb,0},{0x110c2,1},{0x110c3,9},{0x110cd,0},{0x110ce,9},{0x110d0,1},{0x110e9,9},{0x110f0,1},{0x110fa,9},
{0x11100,1},{0x11135,9},{0x11136,1},{0x11140,0},{0x11144,1},{0x11148,9},{0x11150,1},{0x11174,0},{0x11176,1},{0x11177,9},{0x11180,1},{0x111c5,0},
{0x111c9,1},{0x111cd,0},{0x111ce,1},{0x111db,0},{0x111dc,1},{0x111dd,0},{0x111e0,9},{0x111e1,1},{0x111f5,9},{0x11200,1},{0x11212,9},{0x11213,1},
{0x11238,0},{0x1123e,1},{0x11242,9},{0x11280,1},{0x11287,9},{0x11288,1},{0x11289,9},{0x1128a,1},{0x1128e,9},{0x1128f,1},{0x1129e,9},{0x1129f,1},
{0x112a9,0},{0x112aa,9},{0x112b0,1},{0x112eb,9},{0x112f0,1},{0x112fa,9},{0x11300,1},{0x11304,9},{0x11305,1},{0x1130d,9},{0x1130f,1},{0x11311,9},
{0x11313,1},{0x11329,9},{0x1132a,1},{0x11331,9},{0x11332,1},{0x11334,9},{0x11335,1},{0x1133a,9},{0x1133b,1},{0x11345,9},{0x11347,1},{0x11349,9},
{0x1134b,1},{0x1134e,9},{0x11350,1},{0x11351,9},{0x11357,1},{0x11358,9},{0x1135d,1},{0x11364,9},{0x11366,1},{0x1136d,9},{0x11370,1},{0x11375,9},
{0x11400,1},{0x1144b,0},{0x11450,1},{0x1145a,0},{0x1145c,9},{0x1145d,0},{0x1145e,1},{0x11462,9},{0x11480,1},{0x114c6,0},{0x114c7,1},{0x114c8,9},
{0x114d0,1},{0x114da,9},{0x11580,1},{0x115b6,9},{0x115b8,1},{0x115c1,0},{0x115d8,1},{0x115de,9},{0x11600,1},{0x11641,0},{0x11644,1},{0x11645,9},
{0x11650,1},{0x1165a,9},{0x11660,0},{0x1166d,9},{0x11680,1},{0x116b9,0},{0x116ba,9},{0x116c0,1},{0x116ca,9},{0x11700,1},{0x1171b,9},{0x1171d,1},
{0x1172c,9},{0x11730,1},{0x1173c,0},{0x1173f,3},{0x11740,1},{0x11747,9},{0x11800,1},{0x1183b,0},{0x1183c,9},{0x118a0,2},{0x118c0,1},{0x118f3,9},
{0x118ff,1},{0x11907,9},{0x11909,1},{0x1190a,9},{0x1190c,1},{0x11914,9},{0x11915,1},{0x11917,9},{0x11918,1},{0x11936,9},{0x11937,1},{0x11939,9},
{0x1193b,1},{0x11944,0},{0x11947,9},{0x11950,1},{0x1195a,9},{0x119a0,1},{0x119a8,9},{0x119aa,1},{0x119d8,9},{0x119da,1},{0x119e2,0},{0x119e3,1},
{0x119e5,9},{0x11a00,1},{0x11a3f,0},{0x11a47,1},{0x11a48,9},{0x11a50,1},{0x11a9a,0},{0x11a9d,1},{0x11a9e,0},{0x11aa3,9},{0x11ab0,1},{0x11af9,9},
{0x11b00,0},{0x11b0a,9},{0x11c00,1},{0x11c09,9},{0x11c0a,1},{0x11c37,9},{0x11c38,1},{0x11c41,0},{0x11c46,9},{0x11c50,1},{0x11c6d,9},{0x11c70,0},
{0x11c72,1},{0x11c90,9},{0x11c92,1},{0x11ca8,9},{0x11ca9,1},{0x11cb7,9},{0x11d00,1},{0x11d07,9},{0x11d08,1},{0x11d0a,9},{0x11d0b,1},{0x11d37,9},
{0x11d3a,1},{0x11d3b,9},{0x11d3c,1},{0x11d3e,9},{0x11d3f,1},{0x11d48,9},{0x11d50,1},{0x11d5a,9},{0x11d60,1},{0x11d66,9},{0x11d67,1},{0x11d69,9},
{0x11d6a,1},{0x11d8f,9},{0x11d90,1},{0x11d92,9},{0x11d93,1},{0x11d99,9},{0x11da0,1},{0x11daa,9},{0x11ee0,1},{0x11ef7,0},{0x11ef9,9},{0x11f00,1},
{0x11f11,9},{0x11f12,1},{0x11f3b,9},{0x11f3e,1},{0x11f43,0},{0x11f50,1},{0x11f5a,9},{0x11fb0,1},{0x11fb1,9},{0x11fc0,1},{0x11fd5,3},{0x11fdd,0},
{0x11fe1,3},{0x11ff2,9},{0x11fff,0},{0x12000,1},{0x1239a,9},{0x12400,1},{0x1246f,9},{0x12470,0},{0x12475,9},{0x12480,1},{0x12544,9},{0x12f90,1},
{0x12ff1,0},{0x12ff3,9},{0x13000,1},{0x13430,0},{0x13440,1},{0x13456,9},{0x14400,1},{0x14647,9},{0x16800,1},{0x16a39,9},{0x16a40,1},{0x16a5f,9},
{0x16a60,1},{0x16a6a,9},{0x16a6e,0},{0x16a70,1},{0x16abf,9},{0x16ac0,1},{0x16aca,9},{0x16ad0,1},{0x16aee,9},{0x16af0,1},{0x16af5,0},{0x16af6,9},
{0x16b00,1},{0x16b37,0},{0x16b3c,3},{0x16b40,1},{0x16b44,0},{0x16b45,3},{0x16b46,9},{0x16b50,1},{0x16b5a,9},{0x16b5b,1},{0x16b62,9},{0x16b63,1},
{0x16b78,9},{0x16b7d,1},{0x16b90,9},{0x16e40,2},{0x16e60,1},{0x16e97,0},{0x16e9b,9},{0x16f00,1},{0x16f4b,9},{0x16f4f,1},{0x16f88,9},{0x16f8f,1},
{0x16fa0,9},{0x16fe0,1},{0x16fe2,0},{0x16fe3,1},{0x16fe5,9},{0x16ff0,1},{0x16ff2,9},{0x17000,3},{0x187f8,9},{0x18800,1},{0x18cd6,9},{0x18d00,3},
{0x18d09,9},{0x1aff0,1},{0x1aff4,9},{0x1aff5,1},{0x1affc,9},{0x1affd,1},{0x1afff,9},{0x1b000,1},{0x1b123,9},{0x1b132,1},{0x1b133,9},{0x1b150,1},
{0x1b153,9},{0x1b155,1},{0x1b156,9},{0x1b164,1},{0x1b168,9},{0x1b170,1},{0x1b2fc,9},{0x1bc00,1},{0x1bc6b,9},{0x1bc70,1},{0x1bc7d,9},{0x1bc80,1},
{0x1bc89,9},{0x1bc90,1},{0x1bc9a,9},{0x1bc9c,3},{0x1bc9d,1},{0x1bc9f,0},{0x1bca4,9},{0x1cf00,1},{0x1cf2e,9},{0x1cf30,1},{0x1cf47,9},{0x1cf50,3},
{0x1cfc4,9},{0x1d000,3},{0x1d0f6,9},{0x1d100,3},{0x1d127,9},{0x1d129,3},{0x1d165,1},{0x1d16a,3},{0x1d16d,1},{0x1d173,0},{0x1d17b,1},{0x1d183,3},
{0x1d185,1},{0x1d18c,3},{0x1d1aa,1},{0x1d1ae,3},{0x1d1eb,9},{0x1d200,3},{0x1d242,1},{0x1d245,3},{0x1d246,9},{0x1d2c0,1},{0x1d2d4,9},{0x1d2e0,1},
{0x1d2f4,9},{0x1d300,3},{0x1d357,9},{0x1d360,1},{0x1d379,9},{0x1d400,1},{0x1d455,9},{0x1d456,1},{0x1d49d,9},{0x1d49e,1},{0x1d4a0,9},{0x1d4a2,1},
{0x1d4a3,9},{0x1d4a5,1},{0x1d4a7,9},{0x1d4a9,1},{0x1d4ad,9},{0x1d4ae,1},{0x1d4ba,9},{0x1d4bb,1},{0x1d4bc,9},{0x1d4bd,1},{0x1d4c4,9},{0x1d4c5,1},
{0x1d506,9},{0x1d507,1},{0x1d50b,9},{0x1d50d,1},{0x1d515,9},{0x1d516,1},{0x1d51d,9},{0x1d51e,1},{0x1d53a,9},{0x1d53b,1},{0x1d53f,9},{0x1d540,1},
{0x1d545,9},{0x1d546,1},{0x1d547,9},{0x1d54a,1},{0x1d551,9},{0x1d552,1},{0x1d6a6,9},{0x1d6a8,1},{0x1d6c1,0},{0x1d6c2,1},{0x1d6db,0},{0x1d6dc,1},
{0x1d6fb,0},{0x1d6fc,1},{0x1d715,0},{0x1d716,1},{0x1d735,0},{0x1d736,1},{0x1d74f,0},{0x1d750,1},{0x1d76f,0},{0x1d770,1},{0x1d789,0},{0x1d78a,1},
{0x1d7a9,0},{0x1d7aa,1},{0x1d7c3,0},{0x1d7c4,1},{0x1d7cc,9},{0x1d7ce,1},{0x1d800,3},{0x1da00,1},{0x1da37,3},{0x1da3b,1},{0x1da6d,3},{0x1da75,1},
{0x1da76,3},{0x1da84,1},{0x1da85,3},{0x1da87,0},{0x1da8c,9},{0x1da9b,1},{0x1daa0,9},{0x1daa1,1},{0x1dab0,9},{0x1df00,1},{0x1df1f,9},{0x1df25,1},
{0x1df2b,9},{0x1e000,1},{0x1e007,9},{0x1e008,1},{0x1e019,9},{0x1e01b,1},{0x1e022,9},{0x1e023,1},{0x1e025,9},{0x1e026,1},{0x1e02b,9},{0x1e030,1},
{0x1e06e,9},{0x1e08f,1},{0x1e090,9},{0x1e100,1},{0x1e12d,9},{0x1e130,1},{0x1e13e,9},{0x1e140,1},{0x1e14a,9},{0x1e14e,1},{0x1e14f,3},{0x1e150,9},
{0x1e290,1},{0x1e2af,9},{0x1e2c0,1},{0x1e2fa,9},{0x1e2ff,0},{0x1e300,9},{0x1e4d0,1},{0x1e4fa,9},{0x1e7e0,1},{0x1e7e7,9},{0x1e7e8,1},{0x1e7ec,9},
{0x1e7ed,1},{0x1e7ef,9},{0x1e7f0,1},{0x1e7ff,9},{0x1e800,1},{0x1e8c5,9},{0x1e8c7,1},{0x1e8d7,9},{0x1e900,2},{0x1e922,1},{0x1e94c,9},{0x1e950,1},
{0x1e95a,9},{0x1e95e,0},{0x1e960,9},{0x1ec71,1},{0x1ecac,3},{0x1ecad,1},{0x1ecb0,0},{0x1ecb1,1},{0x1ecb5,9},{0x1ed01,1},{0x1ed2e,3},{0x1ed2f,1},
{0x1ed3e,9},{0x1ee00,1},{0x1ee04,9},{0x1ee05,1},{0x1ee20,9},{0x1ee21,1},{0x1ee23,9},{0x1ee24,1},{0x1ee25,9},{0x1ee27,1},{0x1ee28,9},{0x1ee29,1},
{0x1ee33,9},{0x1ee34,1},{0x1ee38,9},{0x1ee39,1},{0x1ee3a,9},{0x1ee3b,1},{0x1ee3c,9},{0x1ee42,1},{0x1ee43,9},{0x1ee47,1},{0x1ee48,9},{0x1ee49,1},
{0x1ee4a,9},{0x1ee4b,1},{0x1ee4c,9},{0x1ee4d,1},{0x1ee50,9},{0x1ee51,1},{0x1ee53,9},{0x1ee54,1},{0x1ee55,9},{0x1ee57,1},{0x1ee58,9},{0x1ee59,1},
{0x1ee5a,9},{0x1ee5b,1},{0x1ee5c,9},{0x1ee5d,1},{0x1ee5e,9},{0x1ee5f,1},{0x1ee60,9},{0x1ee61,1},{0x1ee63,9},{0x1ee64,1},{0x1ee65,9},{0x1ee67,1},
{0x1ee6b,9},{0x1ee6c,1},{0x1ee73,9},{0x1ee74,1},{0x1ee78,9},{0x1ee79,1},{0x1ee7d,9},{0x1ee7e,1},{0x1ee7f,9},{0x1ee80,1},{0x1ee8a,9},{0x1ee8b,1},
{0x1ee9c,9},{0x1eea1,1},{0x1eea4,9},{0x1eea5,1},{0x1eeaa,9},{0x1eeab,1},{0x1eebc,9},{0x1eef0,0},{0x1eef2,9},{0x1f000,3},{0x1f02c,9},{0x1f030,3},
{0x1f094,9},{0x1f0a0,3},{0x1f0af,9},{0x1f0b1,3},{0x1f0c0,9},{0x1f0c1,3},{0x1f0d0,9},{0x1f0d1,3},{0x1f0f6,9},{0x1f100,1},{0x1f10d,3},{0x1f1ae,9},
{0x1f1e6,3},{0x1f203,9},{0x1f210,3},{0x1f23c,9},{0x1f240,3},{0x1f249,9},{0x1f250,3},{0x1f252,9},{0x1f260,3},{0x1f266,9},{0x1f300,3},{0x1f3fb,0},
{0x1f400,3},{0x1f6d8,9},{0x1f6dc,3},{0x1f6ed,9},{0x1f6f0,3},{0x1f6fd,9},{0x1f700,3},{0x1f777,9},{0x1f77b,3},{0x1f7da,9},{0x1f7e0,3},{0x1f7ec,9},
{0x1f7f0,3},{0x1f7f1,9},{0x1f800,3},{0x1f80c,9},{0x1f810,3},{0x1f848,9},{0x1f850,3},{0x1f85a,9},{0x1f860,3},{0x1f888,9},{0x1f890,3},{0x1f8ae,9},
{0x1f8b0,3},{0x1f8b2,9},{0x1f900,3},{0x1fa54,9},{0x1fa60,3},{0x1fa6e,9},{0x1fa70,3},{0x1fa7d,9},{0x1fa80,3},{0x1fa89,9},{0x1fa90,3},{0x1fabe,9},
{0x1fabf,3},{0x1fac6,9},{0x1face,3},{0x1fadc,9},{0x1fae0,3},{0x1fae9,9},{0x1faf0,3},{0x1faf9,9},{0x1fb00,3},{0x1fb93,9},{0x1fb94,3},{0x1fbcb,9},
{0x1fbf0,1},{0x1fbfa,9},{0x1fffe,3},{0x2a6e0,9},{0x2a700,3},{0x2b73a,9},{0x2b740,3},{0x2b81e,9},{0x2b820,3},{0x2cea2,9},{0x2ceb0,3},{0x2ebe1,9},
{0x2f800,1},{0x2fa1e,9},{0x2fffe,3},{0x3134b,9},{0x31350,3},{0x323b0,9},{0x3fffe,3},{0x40000,9},{0x4fffe,3},{0x50000,9},{0x5fffe,3},{0x60000,9},
{0x6fffe,3},{0x70000,9},{0x7fffe,3},{0x80000,9},{0x8fffe,3},{0x90000,9},{0x9fffe,3},{0xa0000,9},{0xafffe,3},{0xb0000,9},{0xbfffe,3},{0xc0000,9},
{0xcfffe,3},{0xd0000,9},{0xdfffe,3},{0xe0000,9},{0xe0001,0},{0xe0002,9},{0xe0020,0},{0xe0080,9},{0xe0100,1},{0xe01f0,9},{0xefffe,3},{0xf0000,0},
{0xffffe,3},{0x100000,0},{0x10fffe,3},
};
static const struct { uint32_t from, to; } FOLD[] = {
{0x41,0x61},{0x42,0x62},{0x43,0x63},{0x44,0x64},{0x45,0x65},{0x46,0x66},{0x47,0x67},{0x48,0x68},
{0x49,0x69},{0x4a,0x6a},{0x4b,0x6b},{0x4c,0x6c},{0x4d,0x6d},{0x4e,0x6e},{0x4f,0x6f},{0x50,0x70},
{0x51,0x71},{0x52,0x72},{0x53,0x73},{0x54,0x74},{0x55,0x75},{0x56,0x76},{0x57,0x77},{0x58,0x78},
{0x59,0x79},{0x5a,0x7a},{0xb5,0x3bc},{0xc0,0xe0},{0xc1,0xe1},{0xc2,0xe2},{0xc3,0xe3},{0xc4,0xe4},
{0xc5,0xe5},{0xc6,0xe6},{0xc7,0xe7},{0xc8,0xe8},{0xc9,0xe9},{0xca,0xea},{0xcb,0xeb},{0xcc,0xec},
{0xcd,0xed},{0xce,0xee},{0xcf,0xef},{0xd0,0xf0},{0xd1,0xf1},{0xd2,0xf2},{0xd3,0xf3},{0xd4,0xf4},
{0xd5,0xf5},{0xd6,0xf6},{0xd8,0xf8},{0xd9,0xf9},{0xda,0xfa},{0xdb,0xfb},{0xdc,0xfc},{0xdd,0xfd},
{0xde,0xfe},{0x100,0x101},{0x102,0x103},{0x104,0x105},{0x106,0x107},{0x108,0x109},{0x10a,0x10b},{0x10c,0x10d},
{0x10e,0x10f},{0x110,0x111},{0x112,0x113},{0x114,0x115},{0x116,0x117},{0x118,0x119},{0x11a,0x11b},{0x11c,0x11d},
{0x11e,0x11f},{0x120,0x121},{0x122,0x123},{0x124,0x125},{0x126,0x127},{0x128,0x129},{0x12a,0x12b},{0x12c,0x12d},
{0x12e,0x12f},{0x132,0x133},{0x134,0x135},{0x136,0x137},{0x139,0x13a},{0x13b,0x13c},{0x13d,0x13e},{0x13f,0x140},
{0x141,0x142},{0x143,0x144},{0x145,0x146},{0x147,0x148},{0x14a,0x14b},{0x14c,0x14d},{0x14e,0x14f},{0x150,0x151},
{0x152,0x153},{0x154,0x155},{0x156,0x157},{0x158,0x159},{0x15a,0x15b},{0x15c,0x15d},{0x15e,0x15f},{0x160,0x161},
{0x162,0x163},{0x164,0x165},{0x166,0x167},{0x168,0x169},{0x16a,0x16b},{0x16c,0x16d},{0x16e,0x16f},{0x170,0x171},
{0x172,0x173},{0x174,0x175},{0x176,0x177},{0x178,0xff},{0x179,0x17a},{0x17b,0x17c},{0x17d,0x17e},{0x17f,0x73},
{0x181,0x253},{0x182,0x183},{0x184,0x185},{0x186,0x254},{0x187,0x188},{0x189,0x256},{0x18a,0x257},{0x18b,0x18c},
{0x18e,0x1dd},{0x18f,0x259},{0x190,0x25b},{0x191,0x192},{0x193,0x260},{0x194,0x263},{0x196,0x269},{0x197,0x268},
{0x198,0x199},{0x19c,0x26f},{0x19d,0x272},{0x19f,0x275},{0x1a0,0x1a1},{0x1a2,0x1a3},{0x1a4,0x1a5},{0x1a6,0x280},
{0x1a7,0x1a8},{0x1a9,0x283},{0x1ac,0x1ad},{0x1ae,0x288},{0x1af,0x1b0},{0x1b1,0x28a},{0x1b2,0x28b},{0x1b3,0x1b4},
{0x1b5,0x1b6},{0x1b7,0x292},{0x1b8,0x1b9},{0x1bc,0x1bd},{0x1c4,0x1c6},{0x1c5,0x1c6},{0x1c7,0x1c9},{0x1c8,0x1c9},
{0x1ca,0x1cc},{0x1cb,0x1cc},{0x1cd,0x1ce},{0x1cf,0x1d0},{0x1d1,0x1d2},{0x1d3,0x1d4},{0x1d5,0x1d6},{0x1d7,0x1d8},
{0x1d9,0x1da},{0x1db,0x1dc},{0x1de,0x1df},{0x1e0,0x1e1},{0x1e2,0x1e3},{0x1e4,0x1e5},{0x1e6,0x1e7},{0x1e8,0x1e9},
{0x1ea,0x1eb},{0x1ec,0x1ed},{0x1ee,0x1ef},{0x1f1,0x1f3},{0x1f2,0x1f3},{0x1f4,0x1f5},{0x1f6,0x195},{0x1f7,0x1bf},
{0x1f8,0x1f9},{0x1fa,0x1fb},{0x1fc,0x1fd},{0x1fe,0x1ff},{0x200,0x201},{0x202,0x203},{0x204,0x205},{0x206,0x207},
{0x208,0x209},{0x20a,0x20b},{0x20c,0x20d},{0x20e,0x20f},{0x210,0x211},{0x212,0x213},{0x214,0x215},{0x216,0x217},
{0x218,0x219},{0x21a,0x21b},{0x21c,0x21d},{0x21e,0x21f},{0x220,0x19e},{0x222,0x223},{0x224,0x225},{0x226,0x227},
{0x228,0x229},{0x22a,0x22b},{0x22c,0x22d},{0x22e,0x22f},{0x230,0x231},{0x232,0x233},{0x23a,0x2c65},{0x23b,0x23c},
{0x23d,0x19a},{0x23e,0x2c66},{0x241,0x242},{0x243,0x180},{0x244,0x289},{0x245,0x28c},{0x246,0x247},{0x248,0x249},
{0x24a,0x24b},{0x24c,0x24d},{0x24e,0x24f},{0x345,0x3b9},{0x370,0x371},{0x372,0x373},{0x376,0x377},{0x37f,0x3f3},
{0x386,0x3ac},{0x388,0x3ad},{0x389,0x3ae},{0x38a,0x3af},{0x38c,0x3cc},{0x38e,0x3cd},{0x38f,0x3ce},{0x391,0x3b1},
{0x392,0x3b2},{0x393,0x3b3},{0x394,0x3b4},{0x395,0x3b5},{0x396,0x3b6},{0x397,0x3b7},{0x398,0x3b8},{0x399,0x3b9},
{0x39a,0x3ba},{0x39b,0x3bb},{0x39c,0x3bc},{0x39d,0x3bd},{0x39e,0x3be},{0x39f,0x3bf},{0x3a0,0x3c0},{0x3a1,0x3c1},
{0x3a3,0x3c3},{0x3a4,0x3c4},{0x3a5,0x3c5},{0x3a6,0x3c6},{0x3a7,0x3c7},{0x3a8,0x3c8},{0x3a9,0x3c9},{0x3aa,0x3ca},
{0x3ab,0x3cb},{0x3c2,0x3c3},{0x3cf,0x3d7},{0x3d0,0x3b2},{0x3d1,0x3b8},{0x3d5,0x3c6},{0x3d6,0x3c0},{0x3d8,0x3d9},
{0x3da,0x3db},{0x3dc,0x3dd},{0x3de,0x3df},{0x3e0,0x3e1},{0x3e2,0x3e3},{0x3e4,0x3e5},{0x3e6,0x3e7},{0x3e8,0x3e9},
{0x3ea,0x3eb},{0x3ec,0x3ed},{0x3ee,0x3ef},{0x3f0,0x3ba},{0x3f1,0x3c1},{0x3f4,0x3b8},{0x3f5,0x3b5},{0x3f7,0x3f8},
{0x3f9,0x3f2},{0x3fa,0x3fb},{0x3fd,0x37b},{0x3fe,0x37c},{0x3ff,0x37d},{0x400,0x450},{0x401,0x451},{0x402,0x452},
{0x403,0x453},{0x404,0x454},{0x405,0x455},{0x406,0x456},{0x407,0x457},{0x408,0x458},{0x409,0x459},{0x40a,0x45a},
{0x40b,0x45b},{0x40c,0x45c},{0x40d,0x45d},{0x40e,0x45e},{0x40f,0x45f},{0x410,0x430},{0x411,0x431},{0x412,0x432},
{0x413,0x433},{0x414,0x434},{0x415,0x435},{0x416,0x436},{0x417,0x437},{0x418,0x438},{0x419,0x439},{0x41a,0x43a},
{0x41b,0x43b},{0x41c,0x43c},{0x41d,0x43d},{0x41e,0x43e},{0x41f,0x43f},{0x420,0x440},{0x421,0x441},{0x422,0x442},
{0x423,0x443},{0x424,0x444},{0x425,0x445},{0x426,0x446},{0x427,0x447},{0x428,0x448},{0x429,0x449},{0x42a,0x44a},
{0x42b,0x44b},{0x42c,0x44c},{0x42d,0x44d},{0x42e,0x44e},{0x42f,0x44f},{0x460,0x461},{0x462,0x463},{0x464,0x465},
{0x466,0x467},{0x468,0x469},{0x46a,0x46b},{0x46c,0x46d},{0x46e,0x46f},{0x470,0x471},{0x472,0x473},{0x474,0x475},
{0x476,0x477},{0x478,0x479},{0x47a,0x47b},{0x47c,0x47d},{0x47e,0x47f},{0x480,0x481},{0x48a,0x48b},{0x48c,0x48d},
{0x48e,0x48f},{0x490,0x491},{0x492,0x493},{0x494,0x495},{0x496,0x497},{0x498,0x499},{0x49a,0x49b},{0x49c,0x49d},
{0x49e,0x49f},{0x4a0,0x4a1},{0x4a2,0x4a3},{0x4a4,0x4a5},{0x4a6,0x4a7},{0x4a8,0x4a9},{0x4aa,0x4ab},{0x4ac,0x4ad},
{0x4ae,0x4af},{0x4b0,0x4b1},{0x4b2,0x4b3},{0x4b4,0x4b5},{0x4b6,0x4b7},{0x4b8,0x4b9},{0x4ba,0x4bb},{0x4bc,0x4bd},
{0x4be,0x4bf},{0x4c0,0x4cf},{0x4c1,0x4c2},{0x4c3,0x4c4},{0x4c5,0x4c6},{0x4c7,0x4c8},{0x4c9,0x4ca},{0x4cb,0x4cc},
{0x4cd,0x4ce},{0x4d0,0x4d1},{0x4d2,0x4d3},{0x4d4,0x4d5},{0x4d6,0x4d7},{0x4d8,0x4d9},{0x4da,0x4db},{0x4dc,0x4dd},
{0x4de,0x4df},{0x4e0,0x4e1},{0x4e2,0x4e3},{0x4e4,0x4e5},{0x4e6,0x4e7},{0x4e8,0x4e9},{0x4ea,0x4eb},{0x4ec,0x4ed},
{0x4ee,0x4ef},{0x4f0,0x4f1},{0x4f2,0x4f3},{0x4f4,0x4f5},{0x4f6,0x4f7},{0x4f8,0x4f9},{0x4fa,0x4fb},{0x4fc,0x4fd},
{0x4fe,0x4ff},{0x500,0x501},{0x502,0x503},{0x504,0x505},{0x506,0x507},{0x508,0x509},{0x50a,0x50b},{0x50c,0x50d},
{0x50e,0x50f},{0x510,0x511},{0x512,0x513},{0x514,0x515},{0x516,0x517},{0x518,0x519},{0x51a,0x51b},{0x51c,0x51d},
{0x51e,0x51f},{0x520,0x521},{0x522,0x523},{0x524,0x525},{0x526,0x527},{0x528,0x529},{0x52a,0x52b},{0x52c,0x52d},
{0x52e,0x52f},{0x531,0x561},{0x532,0x562},{0x533,0x563},{0x534,0x564},{0x535,0x565},{0x536,0x566},{0x537,0x567},
{0x538,0x568},{0x539,0x569},{0x53a,0x56a},{0x53b,0x56b},{0x53c,0x56c},{0x53d,0x56d},{0x53e,0x56e},{0x53f,0x56f},
{0x540,0x570},{0x541,0x571},{0x542,0x572},{0x543,0x573},{0x544,0x574},{0x545,0x575},{0x546,0x576},{0x547,0x577},
{0x548,0x578},{0x549,0x579},{0x54a,0x57a},{0x54b,0x57b},{0x54c,0x57c},{0x54d,0x57d},{0x54e,0x57e},{0x54f,0x57f},
{0x550,0x580},{0x551,0x581},{0x552,0x582},{0x553,0x583},{0x554,0x584},{0x555,0x585},{0x556,0x586},{0x10a0,0x2d00},
{0x10a1,0x2d01},{0x10a2,0x2d02},{0x10a3,0x2d03},{0x10a4,0x2d04},{0x10a5,0x2d05},{0x10a6,0x2d06},{0x10a7,0x2d07},{0x10a8,0x2d08},
{0x10a9,0x2d09},{0x10aa,0x2d0a},{0x10ab,0x2d0b},{0x10ac,0x2d0c},{0x10ad,0x2d0d},{0x10ae,0x2d0e},{0x10af,0x2d0f},{0x10b0,0x2d10},
{0x10b1,0x2d11},{0x10b2,0x2d12},{0x10b3,0x2d13},{0x10b4,0x2d14},{0x10b5,0x2d15},{0x10b6,0x2d16},{0x10b7,0x2d17},{0x10b8,0x2d18},
{0x10b9,0x2d19},{0x10ba,0x2d1a},{0x10bb,0x2d1b},{0x10bc,0x2d1c},{0x10bd,0x2d1d},{0x10be,0x2d1e},{0x10bf,0x2d1f},{0x10c0,0x2d20},
{0x10c1,0x2d21},{0x10c2,0x2d22},{0x10c3,0x2d23},{0x10c4,0x2d24},{0x10c5,0x2d25},{0x10c7,0x2d27},{0x10cd,0x2d2d},{0x13f8,0x13f0},
{0x13f9,0x13f1},{0x13fa,0x13f2},{0x13fb,0x13f3},{0x13fc,0x13f4},{0x13fd,0x13f5},{0x1c80,0x432},{0x1c81,0x434},{0x1c82,0x43e},
{0x1c83,0x441},{0x1c84,0x442},{0x1c85,0x442},{0x1c86,0x44a},{0x1c87,0x463},{0x1c88,0xa64b},{0x1c90,0x10d0},{0x1c91,0x10d1},
{0x1c92,0x10d2},{0x1c93,0x10d3},{0x1c94,0x10d4},{0x1c95,0x10d5},{0x1c96,0x10d6},{0x1c97,0x10d7},{0x1c98,0x10d8},{0x1c99,0x10d9},
{0x1c9a,0x10da},{0x1c9b,0x10db},{0x1c9c,0x10dc},{0x1c9d,0x10dd},{0x1c9e,0x10de},{0x1c9f,0x10df},{0x1ca0,0x10e0},{0x1ca1,0x10e1},
{0x1ca2,0x10e2},{0x1ca3,0x10e3},{0x1ca4,0x10e4},{0x1ca5,0x10e5},{0x1ca6,0x10e6},{0x1ca7,0x10e7},{0x1ca8,0x10e8},{0x1ca9,0x10e9},
{0x1caa,0x10ea},{0x1cab,0x10eb},{0x1cac,0x10ec},{0x1cad,0x10ed},{0x1cae,0x10ee},{0x1caf,0x10ef},{0x1cb0,0x10f0},{0x1cb1,0x10f1},
{0x1cb2,0x10f2},{0x1cb3,0x10f3},{0x1cb4,0x10f4},{0x1cb5,0x10f5},{0x1cb6,0x10f6},{0x1cb7,0x10f7},{0x1cb8,0x10f8},{0x1cb9,0x10f9},
{0x1cba,0x10fa},{0x1cbd,0x10fd},{0x1cbe,0x10fe},{0x1cbf,0x10ff},{0x1e00,0x1e01},{0x1e02,0x1e03},{0x1e04,0x1e05},{0x1e06,0x1e07},
{0x1e08,0x1e09},{0x1e0a,0x1e0b},{0x1e0c,0x1e0d},{0x1e0e,0x1e0f},{0x1e10,0x1e11},{0x1e12,0x1e13},{0x1e14,0x1e15},{0x1e16,0x1e17},
{0x1e18,0x1e19},{0x1e1a,0x1e1b},{0x1e1c,0x1e1d},{0x1e1e,0x1e1f},{0x1e20,0x1e21},{0x1e22,0x1e23},{0x1e24,0x1e25},{0x1e26,0x1e27},
{0x1e28,0x1e29},{0x1e2a,0x1e2b},{0x1e2c,0x1e2d},{0x1e2e,0x1e2f},{0x1e30,0x1e31},{0x1e32,0x1e33},{0x1e34,0x1e35},{0x1e36,0x1e37},
{0x1e38,0x1e39},{0x1e3a,0x1e3b},{0x1e3c,0x1e3d},{0x1e3e,0x1e3f},{0x1e40,0x1e41},{0x1e42,0x1e43},{0x1e44,0x1e45},{0x1e46,0x1e47},
{0x1e48,0x1e49},{0x1e4a,0x1e4b},{0x1e4c,0x1e4d},{0x1e4e,0x1e4f},{0x1e50,0x1e51},{0x1e52,0x1e53},{0x1e54,0x1e55},{0x1e56,0x1e57},
{0x1e58,0x1e59},{0x1e5a,0x1e5b},{0x1e5c,0x1e5d},{0x1e5e,0x1e5f},{0x1e60,0x1e61},{0x1e62,0x1e63},{0x1e64,0x1e65},{0x1e66,0x1e67},
{0x1e68,0x1e69},{0x1e6a,0x1e6b},{0x1e6c,0x1e6d},{0x1e6e,0x1e6f},{0x1e70,0x1e71},{0x1e72,0x1e73},{0x1e74,0x1e75},{0x1e76,0x1e77},
{0x1e78,0x1e79},{0x1e7a,0x1e7b},{0x1e7c,0x1e7d},{0x1e7e,0x1e7f},{0x1e80,0x1e81},{0x1e82,0x1e83},{0x1e84,0x1e85},{0x1e86,0x1e87},
{0x1e88,0x1e89},{0x1e8a,0x1e8b},{0x1e8c,0x1e8d},{0x1e8e,0x1e8f},{0x1e90,0x1e91},{0x1e92,0x1e93},{0x1e94,0x1e95},{0x1e9b,0x1e61},
{0x1e9e,0xdf},{0x1ea0,0x1ea1},{0x1ea2,0x1ea3},{0x1ea4,0x1ea5},{0x1ea6,0x1ea7},{0x1ea8,0x1ea9},{0x1eaa,0x1eab},{0x1eac,0x1ead},
{0x1eae,0x1eaf},{0x1eb0,0x1eb1},{0x1eb2,0x1eb3},{0x1eb4,0x1eb5},{0x1eb6,0x1eb7},{0x1eb8,0x1eb9},{0x1eba,0x1ebb},{0x1ebc,0x1ebd},
{0x1ebe,0x1ebf},{0x1ec0,0x1ec1},{0x1ec2,0x1ec3},{0x1ec4,0x1ec5},{0x1ec6,0x1ec7},{0x1ec8,0x1ec9},{0x1eca,0x1ecb},{0x1ecc,0x1ecd},
{0x1ece,0x1ecf},{0x1ed0,0x1ed1},{0x1ed2,0x1ed3},{0x1ed4,0x1ed5},{0x1ed6,0x1ed7},{0x1ed8,0x1ed9},{0x1eda,0x1edb},{0x1edc,0x1edd},
{0x1ede,0x1edf},{0x1ee0,0x1ee1},{0x1ee2,0x1ee3},{0x1ee4,0x1ee5},{0x1ee6,0x1ee7},{0x1ee8,0x1ee9},{0x1eea,0x1eeb},{0x1eec,0x1eed},
{0x1eee,0x1eef},{0x1ef0,0x1ef1},{0x1ef2,0x1ef3},{0x1ef4,0x1ef5},{0x1ef6,0x1ef7},{0x1ef8,0x1ef9},{0x1efa,0x1efb},{0x1efc,0x1efd},
{0x1efe,0x1eff},{0x1f08,0x1f00},{0x1f09,0x1f01},{0x1f0a,0x1f02},{0x1f0b,0x1f03},{0x1f0c,0x1f04},{0x1f0d,0x1f05},{0x1f0e,0x1f06},
{0x1f0f,0x1f07},{0x1f18,0x1f10},{0x1f19,0x1f11},{0x1f1a,0x1f12},{0x1f1b,0x1f13},{0x1f1c,0x1f14},{0x1f1d,0x1f15},{0x1f28,0x1f20},
{0x1f29,0x1f21},{0x1f2a,0x1f22},{0x1f2b,0x1f23},{0x1f2c,0x1f24},{0x1f2d,0x1f25},{0x1f2e,0x1f26},{0x1f2f,0x1f27},{0x1f38,0x1f30},
{0x1f39,0x1f31},{0x1f3a,0x1f32},{0x1f3b,0x1f33},{0x1f3c,0x1f34},{0x1f3d,0x1f35},{0x1f3e,0x1f36},{0x1f3f,0x1f37},{0x1f48,0x1f40},
{0x1f49,0x1f41},{0x1f4a,0x1f42},{0x1f4b,0x1f43},{0x1f4c,0x1f44},{0x1f4d,0x1f45},{0x1f59,0x1f51},{0x1f5b,0x1f53},{0x1f5d,0x1f55},
{0x1f5f,0x1f57},{0x1f68,0x1f60},{0x1f69,0x1f61},{0x1f6a,0x1f62},{0x1f6b,0x1f63},{0x1f6c,0x1f64},{0x1f6d,0x1f65},{0x1f6e,0x1f66},
{0x1f6f,0x1f67},{0x1f88,0x1f80},{0x1f89,0x1f81},{0x1f8a,0x1f82},{0x1f8b,0x1f83},{0x1f8c,0x1f84},{0x1f8d,0x1f85},{0x1f8e,0x1f86},
{0x1f8f,0x1f87},{0x1f98,0x1f90},{0x1f99,0x1f91},{0x1f9a,0x1f92},{0x1f9b,0x1f93},{0x1f9c,0x1f94},{0x1f9d,0x1f95},{0x1f9e,0x1f96},
{0x1f9f,0x1f97},{0x1fa8,0x1fa0},{0x1fa9,0x1fa1},{0x1faa,0x1fa2},{0x1fab,0x1fa3},{0x1fac,0x1fa4},{0x1fad,0x1fa5},{0x1fae,0x1fa6},
{0x1faf,0x1fa7},{0x1fb8,0x1fb0},{0x1fb9,0x1fb1},{0x1fba,0x1f70},{0x1fbb,0x1f71},{0x1fbc,0x1fb3},{0x1fbe,0x3b9},{0x1fc8,0x1f72},
{0x1fc9,0x1f73},{0x1fca,0x1f74},{0x1fcb,0x1f75},{0x1fcc,0x1fc3},{0x1fd8,0x1fd0},{0x1fd9,0x1fd1},{0x1fda,0x1f76},{0x1fdb,0x1f77},
{0x1fe8,0x1fe0},{0x1fe9,0x1fe1},{0x1fea,0x1f7a},{0x1feb,0x1f7b},{0x1fec,0x1fe5},{0x1ff8,0x1f78},{0x1ff9,0x1f79},{0x1ffa,0x1f7c},
{0x1ffb,0x1f7d},{0x1ffc,0x1ff3},{0x2126,0x3c9},{0x212a,0x6b},{0x212b,0xe5},{0x2132,0x214e},{0x2160,0x2170},{0x2161,0x2171},
{0x2162,0x2172},{0x2163,0x2173},{0x2164,0x2174},{0x2165,0x2175},{0x2166,0x2176},{0x2167,0x2177},{0x2168,0x2178},{0x2169,0x2179},
{0x216a,0x217a},{0x216b,0x217b},{0x216c,0x217c},{0x216d,0x217d},{0x216e,0x217e},{0x216f,0x217f},{0x2183,0x2184},{0x2c00,0x2c30},
{0x2c01,0x2c31},{0x2c02,0x2c32},{0x2c03,0x2c33},{0x2c04,0x2c34},{0x2c05,0x2c35},{0x2c06,0x2c36},{0x2c07,0x2c37},{0x2c08,0x2c38},
{0x2c09,0x2c39},{0x2c0a,0x2c3a},{0x2c0b,0x2c3b},{0x2c0c,0x2c3c},{0x2c0d,0x2c3d},{0x2c0e,0x2c3e},{0x2c0f,0x2c3f},{0x2c10,0x2c40},
{0x2c11,0x2c41},{0x2c12,0x2c42},{0x2c13,0x2c43},{0x2c14,0x2c44},{0x2c15,0x2c45},{0x2c16,0x2c46},{0x2c17,0x2c47},{0x2c18,0x2c48},
{0x2c19,0x2c49},{0x2c1a,0x2c4a},{0x2c1b,0x2c4b},{0x2c1c,0x2c4c},{0x2c1d,0x2c4d},{0x2c1e,0x2c4e},{0x2c1f,0x2c4f},{0x2c20,0x2c50},
{0x2c21,0x2c51},{0x2c22,0x2c52},{0x2c23,0x2c53},{0x2c24,0x2c54},{0x2c25,0x2c55},{0x2c26,0x2c56},{0x2c27,0x2c57},{0x2c28,0x2c58},
{0x2c29,0x2c59},{0x2c2a,0x2c5a},{0x2c2b,0x2c5b},{0x2c2c,0x2c5c},{0x2c2d,0x2c5d},{0x2c2e,0x2c5e},{0x2c2f,0x2c5f},{0x2c60,0x2c61},
{0x2c62,0x26b},{0x2c63,0x1d7d},{0x2c64,0x27d},{0x2c67,0x2c68},{0x2c69,0x2c6a},{0x2c6b,0x2c6c},{0x2c6d,0x251},{0x2c6e,0x271},
{0x2c6f,0x250},{0x2c70,0x252},{0x2c72,0x2c73},{0x2c75,0x2c76},{0x2c7e,0x23f},{0x2c7f,0x240},{0x2c80,0x2c81},{0x2c82,0x2c83},
{0x2c84,0x2c85},{0x2c86,0x2c87},{0x2c88,0x2c89},{0x2c8a,0x2c8b},{0x2c8c,0x2c8d},{0x2c8e,0x2c8f},{0x2c90,0x2c91},{0x2c92,0x2c93},
{0x2c94,0x2c95},{0x2c96,0x2c97},{0x2c98,0x2c99},{0x2c9a,0x2c9b},{0x2c9c,0x2c9d},{0x2c9e,0x2c9f},{0x2ca0,0x2ca1},{0x2ca2,0x2ca3},
{0x2ca4,0x2ca5},{0x2ca6,0x2ca7},{0x2ca8,0x2ca9},{0x2caa,0x2cab},{0x2cac,0x2cad},{0x2cae,0x2caf},{0x2cb0,0x2cb1},{0x2cb2,0x2cb3},
{0x2cb4,0x2cb5},{0x2cb6,0x2cb7},{0x2cb8,0x2cb9},{0x2cba,0x2cbb},{0x2cbc,0x2cbd},{0x2cbe,0x2cbf},{0x2cc0,0x2cc1},{0x2cc2,0x2cc3},
{0x2cc4,0x2cc5},{0x2cc6,0x2cc7},{0x2cc8,0x2cc9},{0x2cca,0x2ccb},{0x2ccc,0x2ccd},{0x2cce,0x2ccf},{0x2cd0,0x2cd1},{0x2cd2,0x2cd3},
{0x2cd4,0x2cd5},{0x2cd6,0x2cd7},{0x2cd8,0x2cd9},{0x2cda,0x2cdb},{0x2cdc,0x2cdd},{0x2cde,0x2cdf},{0x2ce0,0x2ce1},{0x2ce2,0x2ce3},
{0x2ceb,0x2cec},{0x2ced,0x2cee},{0x2cf2,0x2cf3},{0xa640,0xa641},{0xa642,0xa643},{0xa644,0xa645},{0xa646,0xa647},{0xa648,0xa649},
{0xa64a,0xa64b},{0xa64c,0xa64d},{0xa64e,0xa64f},{0xa650,0xa651},{0xa652,0xa653},{0xa654,0xa655},{0xa656,0xa657},{0xa658,0xa659},
{0xa65a,0xa65b},{0xa65c,0xa65d},{0xa65e,0xa65f},{0xa660,0xa661},{0xa662,0xa663},{0xa664,0xa665},{0xa666,0xa667},{0xa668,0xa669},
{0xa66a,0xa66b},{0xa66c,0xa66d},{0xa680,0xa681},{0xa682,0xa683},{0xa684,0xa685},{0xa686,0xa687},{0xa688,0xa689},{0xa68a,0xa68b},
{0xa68c,0xa68d},{0xa68e,0xa68f},{0xa690,0xa691},{0xa692,0xa693},{0xa694,0xa695},{0xa696,0xa697},{0xa698,0xa699},{0xa69a,0xa69b},
{0xa722,0xa723},{0xa724,0xa725},{0xa726,0xa727},{0xa728,0xa729},{0xa72a,0xa72b},{0xa72c,0xa72d},{0xa72e,0xa72f},{0xa732,0xa733},
{0xa734,0xa735},{0xa736,0xa737},{0xa738,0xa739},{0xa73a,0xa73b},{0xa73c,0xa73d},{0xa73e,0xa73f},{0xa740,0xa741},{0xa742,0xa743},
{0xa744,0xa745},{0xa746,0xa747},{0xa748,0xa749},{0xa74a,0xa74b},{0xa74c,0xa74d},{0xa74e,0xa74f},{0xa750,0xa751},{0xa752,0xa753},
{0xa754,0xa755},{0xa756,0xa757},{0xa758,0xa759},{0xa75a,0xa75b},{0xa75c,0xa75d},{0xa75e,0xa75f},{0xa760,0xa761},{0xa762,0xa763},
{0xa764,0xa765},{0xa766,0xa767},{0xa768,0xa769},{0xa76a,0xa76b},{0xa76c,0xa76d},{0xa76e,0xa76f},{0xa779,0xa77a},{0xa77b,0xa77c},
{0xa77d,0x1d79},{0xa77e,0xa77f},{0xa780,0xa781},{0xa782,0xa783},{0xa784,0xa785},{0xa786,0xa787},{0xa78b,0xa78c},{0xa78d,0x265},
{0xa790,0xa791},{0xa792,0xa793},{0xa796,0xa797},{0xa798,0xa799},{0xa79a,0xa79b},{0xa79c,0xa79d},{0xa79e,0xa79f},{0xa7a0,0xa7a1},
{0xa7a2,0xa7a3},{0xa7a4,0xa7a5},{0xa7a6,0xa7a7},{0xa7a8,0xa7a9},{0xa7aa,0x266},{0xa7ab,0x25c},{0xa7ac,0x261},{0xa7ad,0x26c},
{0xa7ae,0x26a},{0xa7b0,0x29e},{0xa7b1,0x287},{0xa7b2,0x29d},{0xa7b3,0xab53},{0xa7b4,0xa7b5},{0xa7b6,0xa7b7},{0xa7b8,0xa7b9},
{0xa7ba,0xa7bb},{0xa7bc,0xa7bd},{0xa7be,0xa7bf},{0xa7c0,0xa7c1},{0xa7c2,0xa7c3},{0xa7c4,0xa794},{0xa7c5,0x282},{0xa7c6,0x1d8e},
{0xa7c7,0xa7c8},{0xa7c9,0xa7ca},{0xa7d0,0xa7d1},{0xa7d6,0xa7d7},{0xa7d8,0xa7d9},{0xa7f5,0xa7f6},{0xab70,0x13a0},{0xab71,0x13a1},
{0xab72,0x13a2},{0xab73,0x13a3},{0xab74,0x13a4},{0xab75,0x13a5},{0xab76,0x13a6},{0xab77,0x13a7},{0xab78,0x13a8},{0xab79,0x13a9},
{0xab7a,0x13aa},{0xab7b,0x13ab},{0xab7c,0x13ac},{0xab7d,0x13ad},{0xab7e,0x13ae},{0xab7f,0x13af},{0xab80,0x13b0},{0xab81,0x13b1},
{0xab82,0x13b2},{0xab83,0x13b3},{0xab84,0x13b4},{0xab85,0x13b5},{0xab86,0x13b6},{0xab87,0x13b7},{0xab88,0x13b8},{0xab89,0x13b9},
{0xab8a,0x13ba},{0xab8b,0x13bb},{0xab8c,0x13bc},{0xab8d,0x13bd},{0xab8e,0x13be},{0xab8f,0x13bf},{0xab90,0x13c0},{0xab91,0x13c1},
{0xab92,0x13c2},{0xab93,0x13c3},{0xab94,0x13c4},{0xab95,0x13c5},{0xab96,0x13c6},{0xab97,0x13c7},{0xab98,0x13c8},{0xab99,0x13c9},
{0xab9a,0x13ca},{0xab9b,0x13cb},{0xab9c,0x13cc},{0xab9d,0x13cd},{0xab9e,0x13ce},{0xab9f,0x13cf},{0xaba0,0x13d0},{0xaba1,0x13d1},
{0xaba2,0x13d2},{0xaba3,0x13d3},{0xaba4,0x13d4},{0xaba5,0x13d5},{0xaba6,0x13d6},{0xaba7,0x13d7},{0xaba8,0x13d8},{0xaba9,0x13d9},
{0xabaa,0x13da},{0xabab,0x13db},{0xabac,0x13dc},{0xabad,0x13dd},{0xabae,0x13de},{0xabaf,0x13df},{0xabb0,0x13e0},{0xabb1,0x13e1},
{0xabb2,0x13e2},{0xabb3,0x13e3},{0xabb4,0x13e4},{0xabb5,0x13e5},{0xabb6,0x13e6},{0xabb7,0x13e7},{0xabb8,0x13e8},{0xabb9,0x13e9},
{0xabba,0x13ea},{0xabbb,0x13eb},{0xabbc,0x13ec},{0xabbd,0x13ed},{0xabbe,0x13ee},{0xabbf,0x13ef},{0xff21,0xff41},{0xff22,0xff42},
{0xff23,0xff43},{0xff24,0xff44},{0xff25,0xff45},{0xff26,0xff46},{0xff27,0xff47},{0xff28,0xff48},{0xff29,0xff49},{0xff2a,0xff4a},
{0xff2b,0xff4b},{0xff2c,0xff4c},{0xff2d,0xff4d},{0xff2e,0xff4e},{0xff2f,0xff4f},{0xff30,0xff50},{0xff31,0xff51},{0xff32,0xff52},
{0xff33,0xff53},{0xff34,0xff54},{0xff35,0xff55},{0xff36,0xff56},{0xff37,0xff57},{0xff38,0xff58},{0xff39,0xff59},{0xff3a,0xff5a},
{0x10400,0x10428},{0x10401,0x10429},{0x10402,0x1042a},{0x10403,0x1042b},{0x10404,0x1042c},{0x10405,0x1042d},{0x10406,0x1042e},{0x10407,0x1042f},
{0x10408,0x10430},{0x10409,0x10431},{0x1040a,0x10432},{0x1040b,0x10433},{0x1040c,0x10434},{0x1040d,0x10435},{0x1040e,0x10436},{0x1040f,0x10437},
{0x10410,0x10438},{0x10411,0x10439},{0x10412,0x1043a},{0x10413,0x1043b},{0x10414,0x1043c},{0x10415,0x1043d},{0x10416,0x1043e},{0x10417,0x1043f},
{0x10418,0x10440},{0x10419,0x10441},{0x1041a,0x10442},{0x1041b,0x10443},{0x1041c,0x10444},{0x1041d,0x10445},{0x1041e,0x10446},{0x1041f,0x10447},
{0x10420,0x10448},{0x10421,0x10449},{0x10422,0x1044a},{0x10423,0x1044b},{0x10424,0x1044c},{0x10425,0x1044d},{0x10426,0x1044e},{0x10427,0x1044f},
{0x104b0,0x104d8},{0x104b1,0x104d9},{0x104b2,0x104da},{0x104b3,0x104db},{0x104b4,0x104dc},{0x104b5,0x104dd},{0x104b6,0x104de},{0x104b7,0x104df},
{0x104b8,0x104e0},{0x104b9,0x104e1},{0x104ba,0x104e2},{0x104bb,0x104e3},{0x104bc,0x104e4},{0x104bd,0x104e5},{0x104be,0x104e6},{0x104bf,0x104e7},
{0x104c0,0x104e8},{0x104c1,0x104e9},{0x104c2,0x104ea},{0x104c3,0x104eb},{0x104c4,0x104ec},{0x104c5,0x104ed},{0x104c6,0x104ee},{0x104c7,0x104ef},
{0x104c8,0x104f0},{0x104c9,0x104f1},{0x104ca,0x104f2},{0x104cb,0x104f3},{0x104cc,0x104f4},{0x104cd,0x104f5},{0x104ce,0x104f6},{0x104cf,0x104f7},
{0x104d0,0x104f8},{0x104d1,0x104f9},{0x104d2,0x104fa},{0x104d3,0x104fb},{0x10570,0x10597},{0x10571,0x10598},{0x10572,0x10599},{0x10573,0x1059a},
{0x10574,0x1059b},{0x10575,0x1059c},{0x10576,0x1059d},{0x10577,0x1059e},{0x10578,0x1059f},{0x10579,0x105a0},{0x1057a,0x105a1},{0x1057c,0x105a3},
{0x1057d,0x105a4},{0x1057e,0x105a5},{0x1057f,0x105a6},{0x10580,0x105a7},{0x10581,0x105a8},{0x10582,0x105a9},{0x10583,0x105aa},{0x10584,0x105ab},
{0x10585,0x105ac},{0x10586,0x105ad},{0x10587,0x105ae},{0x10588,0x105af},{0x10589,0x105b0},{0x1058a,0x105b1},{0x1058c,0x105b3},{0x1058d,0x105b4},
{0x1058e,0x105b5},{0x1058f,0x105b6},{0x10590,0x105b7},{0x10591,0x105b8},{0x10592,0x105b9},{0x10594,0x105bb},{0x10595,0x105bc},{0x10c80,0x10cc0},
{0x10c81,0x10cc1},{0x10c82,0x10cc2},{0x10c83,0x10cc3},{0x10c84,0x10cc4},{0x10c85,0x10cc5},{0x10c86,0x10cc6},{0x10c87,0x10cc7},{0x10c88,0x10cc8},
{0x10c89,0x10cc9},{0x10c8a,0x10cca},{0x10c8b,0x10ccb},{0x10c8c,0x10ccc},{0x10c8d,0x10ccd},{0x10c8e,0x10cce},{0x10c8f,0x10ccf},{0x10c90,0x10cd0},
{0x10c91,0x10cd1},{0x10c92,0x10cd2},{0x10c93,0x10cd3},{0x10c94,0x10cd4},{0x10c95,0x10cd5},{0x10c96,0x10cd6},{0x10c97,0x10cd7},{0x10c98,0x10cd8},
{0x10c99,0x10cd9},{0x10c9a,0x10cda},{0x10c9b,0x10cdb},{0x10c9c,0x10cdc},{0x10c9d,0x10cdd},{0x10c9e,0x10cde},{0x10c9f,0x10cdf},{0x10ca0,0x10ce0},
{0x10ca1,0x10ce1},{0x10ca2,0x10ce2},{0x10ca3,0x10ce3},{0x10ca4,0x10ce4},{0x10ca5,0x10ce5},{0x10ca6,0x10ce6},{0x10ca7,0x10ce7},{0x10ca8,0x10ce8},
{0x10ca9,0x10ce9},{0x10caa,0x10cea},{0x10cab,0x10ceb},{0x10cac,0x10cec},{0x10cad,0x10ced},{0x10cae,0x10cee},{0x10caf,0x10cef},{0x10cb0,0x10cf0},
{0x10cb1,0x10cf1},{0x10cb2,0x10cf2},{0x118a0,0x118c0},{0x118a1,0x118c1},{0x118a2,0x118c2},{0x118a3,0x118c3},{0x118a4,0x118c4},{0x118a5,0x118c5},
{0x118a6,0x118c6},{0x118a7,0x118c7},{0x118a8,0x118c8},{0x118a9,0x118c9},{0x118aa,0x118ca},{0x118ab,0x118cb},{0x118ac,0x118cc},{0x118ad,0x118cd},
{0x118ae,0x118ce},{0x118af,0x118cf},{0x118b0,0x118d0},{0x118b1,0x118d1},{0x118b2,0x118d2},{0x118b3,0x118d3},{0x118b4,0x118d4},{0x118b5,0x118d5},
{0x118b6,0x118d6},{0x118b7,0x118d7},{0x118b8,0x118d8},{0x118b9,0x118d9},{0x118ba,0x118da},{0x118bb,0x118db},{0x118bc,0x118dc},{0x118bd,0x118dd},
{0x118be,0x118de},{0x118bf,0x118df},{0x16e40,0x16e60},{0x16e41,0x16e61},{0x16e42,0x16e62},{0x16e43,0x16e63},{0x16e44,0x16e64},{0x16e45,0x16e65},
{0x16e46,0x16e66},{0x16e47,0x16e67},{0x16e48,0x16e68},{0x16e49,0x16e69},{0x16e4a,0x16e6a},{0x16e4b,0x16e6b},{0x16e4c,0x16e6c},{0x16e4d,0x16e6d},
{0x16e4e,0x16e6e},{0x16e4f,0x16e6f},{0x16e50,0x16e70},{0x16e51,0x16e71},{0x16e52,0x16e72},{0x16e53,0x16e73},{0x16e54,0x16e74},{0x16e55,0x16e75},
{0x16e56,0x16e76},{0x16e57,0x16e77},{0x16e58,0x16e78},{0x16e59,0x16e79},{0x16e5a,0x16e7a},{0x16e5b,0x16e7b},{0x16e5c,0x16e7c},{0x16e5d,0x16e7d},
{0x16e5e,0x16e7e},{0x16e5f,0x16e7f},{0x1e900,0x1e922},{0x1e901,0x1e923},{0x1e902,0x1e924},{0x1e903,0x1e925},{0x1e904,0x1e926},{0x1e905,0x1e927},
{0x1e906,0x1e928},{0x1e907,0x1e929},{0x1e908,0x1e92a},{0x1e909,0x1e92b},{0x1e90a,0x1e92c},{0x1e90b,0x1e92d},{0x1e90c,0x1e92e},{0x1e90d,0x1e92f},
{0x1e90e,0x1e930},{0x1e90f,0x1e931},{0x1e910,0x1e932},{0x1e911,0x1e933},{0x1e912,0x1e934},{0x1e913,0x1e935},{0x1e914,0x1e936},{0x1e915,0x1e937},
{0x1e916,0x1e938},{0x1e917,0x1e939},{0x1e918,0x1e93a},{0x1e919,0x1e93b},{0x1e91a,0x1e93c},{0x1e91b,0x1e93d},{0x1e91c,0x1e93e},{0x1e91d,0x1e93f},
{0x1e91e,0x1e940},{0x1e91f,0x1e941},{0x1e920,0x1e942},{0x1e921,0x1e943},
};
