{0x0,0x1f,0x100},
{0x20,0x20,0x1},
{0x21,0x27,0x100},
{0x28,0x29,0x20000},
{0x2a,0x2b,0x100},
{0x2c,0x2c,0x40},
{0x2d,0x2e,0x100},
{0x2f,0x2f,0x1000},
{0x30,0x39,0x8},
{0x3a,0x3a,0x2000},
{0x3b,0x3f,0x100},
{0x40,0x5b,0x80},
{0x5c,0x5c,0x100},
{0x5d,0x5d,0x20000},
{0x5e,0x5f,0x100},
{0x60,0x7b,0x80},
{0x7c,0x7c,0x100},
{0x7d,0x7d,0x20000},
{0x7e,0x9f,0x100},
{0xa0,0xa0,0x1},
{0xa1,0xb6,0x100},
{0xb7,0xb7,0x20},
{0xb8,0xbe,0x100},
{0xbf,0x100,0x80},
{0x101,0x36f,0x100},
{0x370,0x4ff,0x80},
{0x500,0xf39,0x100},
{0xf3a,0xf3d,0x20000},
{0xf3e,0x167f,0x100},
{0x1680,0x1680,0x1},
{0x1681,0x169a,0x100},
{0x169b,0x169c,0x20000},
{0x169d,0x180d,0x100},
{0x180e,0x180e,0x1},
{0x180f,0x1fff,0x100},
{0x2000,0x200b,0x1},
{0x200c,0x202e,0x100},
{0x202f,0x202f,0x1},
{0x2030,0x2044,0x100},
{0x2045,0x2046,0x20000},
{0x2047,0x205e,0x100},
{0x205f,0x205f,0x1},
{0x2060,0x207c,0x100},
{0x207d,0x207e,0x20000},
{0x207f,0x208c,0x100},
{0x208d,0x208e,0x20000},
{0x208f,0x223b,0x100},
{0x223c,0x223c,0x8600},
{0x223d,0x2307,0x100},
{0x2308,0x230b,0x20000},
{0x230c,0x2328,0x100},
{0x2329,0x232a,0x20000},
{0x232b,0x25ca,0x100},
{0x25cb,0x25cb,0x804},
{0x25cc,0x2767,0x100},
{0x2768,0x2775,0x20000},
{0x2776,0x27c4,0x100},
{0x27c5,0x27c6,0x20000},
{0x27c7,0x27e5,0x100},
{0x27e6,0x27ef,0x20000},
{0x27f0,0x2982,0x100},
{0x2983,0x2998,0x20000},
{0x2999,0x29d7,0x100},
{0x29d8,0x29db,0x20000},
{0x29dc,0x29fb,0x100},
{0x29fc,0x29fd,0x20000},
{0x29fe,0x2e21,0x100},
{0x2e22,0x2e29,0x20000},
{0x2e2a,0x2fff,0x100},
{0x3000,0x3000,0x1},
{0x3001,0x3002,0x2},
{0x3003,0x3004,0x100},
{0x3005,0x3005,0x4},
{0x3006,0x3006,0x100},
{0x3007,0x3007,0x804},
{0x3008,0x3011,0x20000},
{0x3012,0x3013,0x100},
{0x3014,0x301b,0x20000},
{0x301c,0x301c,0x8600},
{0x301d,0x303f,0x100},
{0x3040,0x3040,0x400},
{0x3041,0x3041,0x100400},
{0x3042,0x3042,0x400},
{0x3043,0x3043,0x100400},
{0x3044,0x3044,0x400},
{0x3045,0x3045,0x100400},
{0x3046,0x3046,0x400},
{0x3047,0x3047,0x100400},
{0x3048,0x3048,0x400},
{0x3049,0x3049,0x100400},
{0x304a,0x3062,0x400},
{0x3063,0x3063,0x100400},
{0x3064,0x3082,0x400},
{0x3083,0x3083,0x100400},
{0x3084,0x3084,0x400},
{0x3085,0x3085,0x100400},
{0x3086,0x3086,0x400},
{0x3087,0x3087,0x100400},
{0x3088,0x308d,0x400},
{0x308e,0x308e,0x100400},
{0x308f,0x3094,0x400},
{0x3095,0x3096,0x100400},
{0x3097,0x309f,0x400},
{0x30a0,0x30a0,0x200},
{0x30a1,0x30a1,0x100200},
{0x30a2,0x30a2,0x200},
{0x30a3,0x30a3,0x100200},
{0x30a4,0x30a4,0x200},
{0x30a5,0x30a5,0x100200},
{0x30a6,0x30a6,0x200},
{0x30a7,0x30a7,0x100200},
{0x30a8,0x30a8,0x200},
{0x30a9,0x30a9,0x100200},
{0x30aa,0x30c2,0x200},
{0x30c3,0x30c3,0x100200},
{0x30c4,0x30e2,0x200},
{0x30e3,0x30e3,0x100200},
{0x30e4,0x30e4,0x200},
{0x30e5,0x30e5,0x100200},
{0x30e6,0x30e6,0x200},
{0x30e7,0x30e7,0x100200},
{0x30e8,0x30ed,0x200},
{0x30ee,0x30ee,0x100200},
{0x30ef,0x30f4,0x200},
{0x30f5,0x30f6,0x100200},
{0x30f7,0x30fa,0x200},
{0x30fb,0x30fb,0x20},
{0x30fc,0x30fc,0x8600},
{0x30fd,0x30ff,0x200},
{0x3100,0x337a,0x100},
{0x337b,0x337e,0x4100},
{0x337f,0x4dff,0x100},
{0x4e00,0x4e00,0x804},
{0x4e01,0x4e02,0x4},
{0x4e03,0x4e03,0x804},
{0x4e04,0x4e06,0x4},
{0x4e07,0x4e07,0x80800},
{0x4e08,0x4e08,0x4},
{0x4e09,0x4e09,0x804},
{0x4e0a,0x4e5c,0x4},
{0x4e5d,0x4e5d,0x804},
{0x4e5e,0x4e8b,0x4},
{0x4e8c,0x4e8c,0x804},
{0x4e8d,0x4e93,0x4},
{0x4e94,0x4e94,0x804},
{0x4e95,0x4f54,0x4},
{0x4f55,0x4f55,0x40004},
{0x4f56,0x5103,0x4},
{0x5104,0x5104,0x80800},
{0x5105,0x5145,0x4},
{0x5146,0x5146,0x80800},
{0x5147,0x516a,0x4},
{0x516b,0x516b,0x804},
{0x516c,0x516c,0x4},
{0x516d,0x516d,0x804},
{0x516e,0x5340,0x4},
{0x5341,0x5341,0x80800},
{0x5342,0x5342,0x4},
{0x5343,0x5343,0x80800},
{0x5344,0x56da,0x4},
{0x56db,0x56db,0x804},
{0x56dc,0x5e7d,0x4},
{0x5e7e,0x5e7e,0x40004},
{0x5e7f,0x656f,0x4},
{0x6570,0x6570,0x40004},
{0x6571,0x767d,0x4},
{0x767e,0x767e,0x80800},
{0x767f,0x96f5,0x4},
{0x96f6,0x96f6,0x804},
{0x96f7,0x9fff,0x4},
{0xa000,0xfe58,0x100},
{0xfe59,0xfe5e,0x20000},
{0xfe5f,0xfefe,0x100},
{0xfeff,0xfeff,0x1},
{0xff00,0xff07,0x100},
{0xff08,0xff09,0x20000},
{0xff0a,0xff0b,0x100},
{0xff0c,0xff0c,0x40},
{0xff0d,0xff0d,0x100},
{0xff0e,0xff0e,0x10},
{0xff0f,0xff0f,0x1000},
{0xff10,0xff19,0x8},
{0xff1a,0xff1a,0x2000},
{0xff1b,0xff1f,0x100},
{0xff20,0xff3b,0x80},
{0xff3c,0xff3c,0x100},
{0xff3d,0xff3d,0x20000},
{0xff3e,0xff3f,0x100},
{0xff40,0xff5b,0x80},
{0xff5c,0xff5c,0x100},
{0xff5d,0xff5d,0x20000},
{0xff5e,0xff5e,0x8600},
{0xff5f,0xff60,0x20000},
{0xff61,0xff61,0x100},
{0xff62,0xff63,0x20000},
{0xff64,0xff65,0x100},
{0xff66,0xff6f,0x10000},
{0xff70,0xff70,0x18000},
{0xff71,0xff9f,0x10000},
{0xffa0,0x10ffff,0x100},
