/* Unicode 15.0.0: first, last, general category, upper, lower and title case offset (UD: not one-to-one). Generated by tools/gen_ucd.py */
#define UD 0x7fffffff
#define UCDN 4228
static const struct { unsigned a,b; char c[3]; int u,l,t; } UCD[UCDN]={
{0x0,0x1F,"Cc",0,0,0},
{0x20,0x20,"Zs",0,0,0},
{0x21,0x23,"Po",0,0,0},
{0x24,0x24,"Sc",0,0,0},
{0x25,0x27,"Po",0,0,0},
{0x28,0x28,"Ps",0,0,0},
{0x29,0x29,"Pe",0,0,0},
{0x2A,0x2A,"Po",0,0,0},
{0x2B,0x2B,"Sm",0,0,0},
{0x2C,0x2C,"Po",0,0,0},
{0x2D,0x2D,"Pd",0,0,0},
{0x2E,0x2F,"Po",0,0,0},
{0x30,0x39,"Nd",0,0,0},
{0x3A,0x3B,"Po",0,0,0},
{0x3C,0x3E,"Sm",0,0,0},
{0x3F,0x40,"Po",0,0,0},
{0x41,0x5A,"Lu",0,32,0},
{0x5B,0x5B,"Ps",0,0,0},
{0x5C,0x5C,"Po",0,0,0},
{0x5D,0x5D,"Pe",0,0,0},
{0x5E,0x5E,"Sk",0,0,0},
{0x5F,0x5F,"Pc",0,0,0},
{0x60,0x60,"Sk",0,0,0},
{0x61,0x7A,"Ll",-32,0,-32},
{0x7B,0x7B,"Ps",0,0,0},
{0x7C,0x7C,"Sm",0,0,0},
{0x7D,0x7D,"Pe",0,0,0},
{0x7E,0x7E,"Sm",0,0,0},
{0x7F,0x9F,"Cc",0,0,0},
{0xA0,0xA0,"Zs",0,0,0},
{0xA1,0xA1,"Po",0,0,0},
{0xA2,0xA5,"Sc",0,0,0},
{0xA6,0xA6,"So",0,0,0},
{0xA7,0xA7,"Po",0,0,0},
{0xA8,0xA8,"Sk",0,0,0},
{0xA9,0xA9,"So",0,0,0},
{0xAA,0xAA,"Lo",0,0,0},
{0xAB,0xAB,"Pi",0,0,0},
{0xAC,0xAC,"Sm",0,0,0},
{0xAD,0xAD,"Cf",0,0,0},
{0xAE,0xAE,"So",0,0,0},
{0xAF,0xAF,"Sk",0,0,0},
{0xB0,0xB0,"So",0,0,0},
{0xB1,0xB1,"Sm",0,0,0},
{0xB2,0xB3,"No",0,0,0},
{0xB4,0xB4,"Sk",0,0,0},
{0xB5,0xB5,"Ll",743,0,743},
{0xB6,0xB7,"Po",0,0,0},
{0xB8,0xB8,"Sk",0,0,0},
{0xB9,0xB9,"No",0,0,0},
{0xBA,0xBA,"Lo",0,0,0},
{0xBB,0xBB,"Pf",0,0,0},
{0xBC,0xBE,"No",0,0,0},
{0xBF,0xBF,"Po",0,0,0},
{0xC0,0xD6,"Lu",0,32,0},
{0xD7,0xD7,"Sm",0,0,0},
{0xD8,0xDE,"Lu",0,32,0},
{0xDF,0xDF,"Ll",UD,0,UD},
{0xE0,0xF6,"Ll",-32,0,-32},
{0xF7,0xF7,"Sm",0,0,0},
{0xF8,0xFE,"Ll",-32,0,-32},
{0xFF,0xFF,"Ll",121,0,121},
{0x100,0x100,"Lu",0,1,0},
{0x101,0x101,"Ll",-1,0,-1},
{0x102,0x102,"Lu",0,1,0},
{0x103,0x103,"Ll",-1,0,-1},
{0x104,0x104,"Lu",0,1,0},
{0x105,0x105,"Ll",-1,0,-1},
{0x106,0x106,"Lu",0,1,0},
{0x107,0x107,"Ll",-1,0,-1},
{0x108,0x108,"Lu",0,1,0},
{0x109,0x109,"Ll",-1,0,-1},
{0x10A,0x10A,"Lu",0,1,0},
{0x10B,0x10B,"Ll",-1,0,-1},
{0x10C,0x10C,"Lu",0,1,0},
{0x10D,0x10D,"Ll",-1,0,-1},
{0x10E,0x10E,"Lu",0,1,0},
{0x10F,0x10F,"Ll",-1,0,-1},
{0x110,0x110,"Lu",0,1,0},
{0x111,0x111,"Ll",-1,0,-1},
{0x112,0x112,"Lu",0,1,0},
{0x113,0x113,"Ll",-1,0,-1},
{0x114,0x114,"Lu",0,1,0},
{0x115,0x115,"Ll",-1,0,-1},
{0x116,0x116,"Lu",0,1,0},
{0x117,0x117,"Ll",-1,0,-1},
{0x118,0x118,"Lu",0,1,0},
{0x119,0x119,"Ll",-1,0,-1},
{0x11A,0x11A,"Lu",0,1,0},
{0x11B,0x11B,"Ll",-1,0,-1},
{0x11C,0x11C,"Lu",0,1,0},
{0x11D,0x11D,"Ll",-1,0,-1},
{0x11E,0x11E,"Lu",0,1,0},
{0x11F,0x11F,"Ll",-1,0,-1},
{0x120,0x120,"Lu",0,1,0},
{0x121,0x121,"Ll",-1,0,-1},
{0x122,0x122,"Lu",0,1,0},
{0x123,0x123,"Ll",-1,0,-1},
{0x124,0x124,"Lu",0,1,0},
{0x125,0x125,"Ll",-1,0,-1},
{0x126,0x126,"Lu",0,1,0},
{0x127,0x127,"Ll",-1,0,-1},
{0x128,0x128,"Lu",0,1,0},
{0x129,0x129,"Ll",-1,0,-1},
{0x12A,0x12A,"Lu",0,1,0},
{0x12B,0x12B,"Ll",-1,0,-1},
{0x12C,0x12C,"Lu",0,1,0},
{0x12D,0x12D,"Ll",-1,0,-1},
{0x12E,0x12E,"Lu",0,1,0},
{0x12F,0x12F,"Ll",-1,0,-1},
{0x130,0x130,"Lu",0,UD,0},
{0x131,0x131,"Ll",-232,0,-232},
{0x132,0x132,"Lu",0,1,0},
{0x133,0x133,"Ll",-1,0,-1},
{0x134,0x134,"Lu",0,1,0},
{0x135,0x135,"Ll",-1,0,-1},
{0x136,0x136,"Lu",0,1,0},
{0x137,0x137,"Ll",-1,0,-1},
{0x138,0x138,"Ll",0,0,0},
{0x139,0x139,"Lu",0,1,0},
{0x13A,0x13A,"Ll",-1,0,-1},
{0x13B,0x13B,"Lu",0,1,0},
{0x13C,0x13C,"Ll",-1,0,-1},
{0x13D,0x13D,"Lu",0,1,0},
{0x13E,0x13E,"Ll",-1,0,-1},
{0x13F,0x13F,"Lu",0,1,0},
{0x140,0x140,"Ll",-1,0,-1},
{0x141,0x141,"Lu",0,1,0},
{0x142,0x142,"Ll",-1,0,-1},
{0x143,0x143,"Lu",0,1,0},
{0x144,0x144,"Ll",-1,0,-1},
{0x145,0x145,"Lu",0,1,0},
{0x146,0x146,"Ll",-1,0,-1},
{0x147,0x147,"Lu",0,1,0},
{0x148,0x148,"Ll",-1,0,-1},
{0x149,0x149,"Ll",UD,0,UD},
{0x14A,0x14A,"Lu",0,1,0},
{0x14B,0x14B,"Ll",-1,0,-1},
{0x14C,0x14C,"Lu",0,1,0},
{0x14D,0x14D,"Ll",-1,0,-1},
{0x14E,0x14E,"Lu",0,1,0},
{0x14F,0x14F,"Ll",-1,0,-1},
{0x150,0x150,"Lu",0,1,0},
{0x151,0x151,"Ll",-1,0,-1},
{0x152,0x152,"Lu",0,1,0},
{0x153,0x153,"Ll",-1,0,-1},
{0x154,0x154,"Lu",0,1,0},
{0x155,0x155,"Ll",-1,0,-1},
{0x156,0x156,"Lu",0,1,0},
{0x157,0x157,"Ll",-1,0,-1},
{0x158,0x158,"Lu",0,1,0},
{0x159,0x159,"Ll",-1,0,-1},
{0x15A,0x15A,"Lu",0,1,0},
{0x15B,0x15B,"Ll",-1,0,-1},
{0x15C,0x15C,"Lu",0,1,0},
{0x15D,0x15D,"Ll",-1,0,-1},
{0x15E,0x15E,"Lu",0,1,0},
{0x15F,0x15F,"Ll",-1,0,-1},
{0x160,0x160,"Lu",0,1,0},
{0x161,0x161,"Ll",-1,0,-1},
{0x162,0x162,"Lu",0,1,0},
{0x163,0x163,"Ll",-1,0,-1},
{0x164,0x164,"Lu",0,1,0},
{0x165,0x165,"Ll",-1,0,-1},
{0x166,0x166,"Lu",0,1,0},
{0x167,0x167,"Ll",-1,0,-1},
{0x168,0x168,"Lu",0,1,0},
{0x169,0x169,"Ll",-1,0,-1},
{0x16A,0x16A,"Lu",0,1,0},
{0x16B,0x16B,"Ll",-1,0,-1},
{0x16C,0x16C,"Lu",0,1,0},
{0x16D,0x16D,"Ll",-1,0,-1},
{0x16E,0x16E,"Lu",0,1,0},
{0x16F,0x16F,"Ll",-1,0,-1},
{0x170,0x170,"Lu",0,1,0},
{0x171,0x171,"Ll",-1,0,-1},
{0x172,0x172,"Lu",0,1,0},
{0x173,0x173,"Ll",-1,0,-1},
{0x174,0x174,"Lu",0,1,0},
{0x175,0x175,"Ll",-1,0,-1},
{0x176,0x176,"Lu",0,1,0},
{0x177,0x177,"Ll",-1,0,-1},
{0x178,0x178,"Lu",0,-121,0},
{0x179,0x179,"Lu",0,1,0},
{0x17A,0x17A,"Ll",-1,0,-1},
{0x17B,0x17B,"Lu",0,1,0},
{0x17C,0x17C,"Ll",-1,0,-1},
{0x17D,0x17D,"Lu",0,1,0},
{0x17E,0x17E,"Ll",-1,0,-1},
{0x17F,0x17F,"Ll",-300,0,-300},
{0x180,0x180,"Ll",195,0,195},
{0x181,0x181,"Lu",0,210,0},
{0x182,0x182,"Lu",0,1,0},
{0x183,0x183,"Ll",-1,0,-1},
{0x184,0x184,"Lu",0,1,0},
{0x185,0x185,"Ll",-1,0,-1},
{0x186,0x186,"Lu",0,206,0},
{0x187,0x187,"Lu",0,1,0},
{0x188,0x188,"Ll",-1,0,-1},
{0x189,0x18A,"Lu",0,205,0},
{0x18B,0x18B,"Lu",0,1,0},
{0x18C,0x18C,"Ll",-1,0,-1},
{0x18D,0x18D,"Ll",0,0,0},
{0x18E,0x18E,"Lu",0,79,0},
{0x18F,0x18F,"Lu",0,202,0},
{0x190,0x190,"Lu",0,203,0},
{0x191,0x191,"Lu",0,1,0},
{0x192,0x192,"Ll",-1,0,-1},
{0x193,0x193,"Lu",0,205,0},
{0x194,0x194,"Lu",0,207,0},
{0x195,0x195,"Ll",97,0,97},
{0x196,0x196,"Lu",0,211,0},
{0x197,0x197,"Lu",0,209,0},
{0x198,0x198,"Lu",0,1,0},
{0x199,0x199,"Ll",-1,0,-1},
{0x19A,0x19A,"Ll",163,0,163},
{0x19B,0x19B,"Ll",0,0,0},
{0x19C,0x19C,"Lu",0,211,0},
{0x19D,0x19D,"Lu",0,213,0},
{0x19E,0x19E,"Ll",130,0,130},
{0x19F,0x19F,"Lu",0,214,0},
{0x1A0,0x1A0,"Lu",0,1,0},
{0x1A1,0x1A1,"Ll",-1,0,-1},
{0x1A2,0x1A2,"Lu",0,1,0},
{0x1A3,0x1A3,"Ll",-1,0,-1},
{0x1A4,0x1A4,"Lu",0,1,0},
{0x1A5,0x1A5,"Ll",-1,0,-1},
{0x1A6,0x1A6,"Lu",0,218,0},
{0x1A7,0x1A7,"Lu",0,1,0},
{0x1A8,0x1A8,"Ll",-1,0,-1},
{0x1A9,0x1A9,"Lu",0,218,0},
{0x1AA,0x1AB,"Ll",0,0,0},
{0x1AC,0x1AC,"Lu",0,1,0},
{0x1AD,0x1AD,"Ll",-1,0,-1},
{0x1AE,0x1AE,"Lu",0,218,0},
{0x1AF,0x1AF,"Lu",0,1,0},
{0x1B0,0x1B0,"Ll",-1,0,-1},
{0x1B1,0x1B2,"Lu",0,217,0},
{0x1B3,0x1B3,"Lu",0,1,0},
{0x1B4,0x1B4,"Ll",-1,0,-1},
{0x1B5,0x1B5,"Lu",0,1,0},
{0x1B6,0x1B6,"Ll",-1,0,-1},
{0x1B7,0x1B7,"Lu",0,219,0},
{0x1B8,0x1B8,"Lu",0,1,0},
{0x1B9,0x1B9,"Ll",-1,0,-1},
{0x1BA,0x1BA,"Ll",0,0,0},
{0x1BB,0x1BB,"Lo",0,0,0},
{0x1BC,0x1BC,"Lu",0,1,0},
{0x1BD,0x1BD,"Ll",-1,0,-1},
{0x1BE,0x1BE,"Ll",0,0,0},
{0x1BF,0x1BF,"Ll",56,0,56},
{0x1C0,0x1C3,"Lo",0,0,0},
{0x1C4,0x1C4,"Lu",0,2,1},
{0x1C5,0x1C5,"Lt",-1,1,0},
{0x1C6,0x1C6,"Ll",-2,0,-1},
{0x1C7,0x1C7,"Lu",0,2,1},
{0x1C8,0x1C8,"Lt",-1,1,0},
{0x1C9,0x1C9,"Ll",-2,0,-1},
{0x1CA,0x1CA,"Lu",0,2,1},
{0x1CB,0x1CB,"Lt",-1,1,0},
{0x1CC,0x1CC,"Ll",-2,0,-1},
{0x1CD,0x1CD,"Lu",0,1,0},
{0x1CE,0x1CE,"Ll",-1,0,-1},
{0x1CF,0x1CF,"Lu",0,1,0},
{0x1D0,0x1D0,"Ll",-1,0,-1},
{0x1D1,0x1D1,"Lu",0,1,0},
{0x1D2,0x1D2,"Ll",-1,0,-1},
{0x1D3,0x1D3,"Lu",0,1,0},
{0x1D4,0x1D4,"Ll",-1,0,-1},
{0x1D5,0x1D5,"Lu",0,1,0},
{0x1D6,0x1D6,"Ll",-1,0,-1},
{0x1D7,0x1D7,"Lu",0,1,0},
{0x1D8,0x1D8,"Ll",-1,0,-1},
{0x1D9,0x1D9,"Lu",0,1,0},
{0x1DA,0x1DA,"Ll",-1,0,-1},
{0x1DB,0x1DB,"Lu",0,1,0},
{0x1DC,0x1DC,"Ll",-1,0,-1},
{0x1DD,0x1DD,"Ll",-79,0,-79},
{0x1DE,0x1DE,"Lu",0,1,0},
{0x1DF,0x1DF,"Ll",-1,0,-1},
{0x1E0,0x1E0,"Lu",0,1,0},
{0x1E1,0x1E1,"Ll",-1,0,-1},
{0x1E2,0x1E2,"Lu",0,1,0},
{0x1E3,0x1E3,"Ll",-1,0,-1},
{0x1E4,0x1E4,"Lu",0,1,0},
{0x1E5,0x1E5,"Ll",-1,0,-1},
{0x1E6,0x1E6,"Lu",0,1,0},
{0x1E7,0x1E7,"Ll",-1,0,-1},
{0x1E8,0x1E8,"Lu",0,1,0},
{0x1E9,0x1E9,"Ll",-1,0,-1},
{0x1EA,0x1EA,"Lu",0,1,0},
{0x1EB,0x1EB,"Ll",-1,0,-1},
{0x1EC,0x1EC,"Lu",0,1,0},
{0x1ED,0x1ED,"Ll",-1,0,-1},
{0x1EE,0x1EE,"Lu",0,1,0},
{0x1EF,0x1EF,"Ll",-1,0,-1},
{0x1F0,0x1F0,"Ll",UD,0,UD},
{0x1F1,0x1F1,"Lu",0,2,1},
{0x1F2,0x1F2,"Lt",-1,1,0},
{0x1F3,0x1F3,"Ll",-2,0,-1},
{0x1F4,0x1F4,"Lu",0,1,0},
{0x1F5,0x1F5,"Ll",-1,0,-1},
{0x1F6,0x1F6,"Lu",0,-97,0},
{0x1F7,0x1F7,"Lu",0,-56,0},
{0x1F8,0x1F8,"Lu",0,1,0},
{0x1F9,0x1F9,"Ll",-1,0,-1},
{0x1FA,0x1FA,"Lu",0,1,0},
{0x1FB,0x1FB,"Ll",-1,0,-1},
{0x1FC,0x1FC,"Lu",0,1,0},
{0x1FD,0x1FD,"Ll",-1,0,-1},
{0x1FE,0x1FE,"Lu",0,1,0},
{0x1FF,0x1FF,"Ll",-1,0,-1},
{0x200,0x200,"Lu",0,1,0},
{0x201,0x201,"Ll",-1,0,-1},
{0x202,0x202,"Lu",0,1,0},
{0x203,0x203,"Ll",-1,0,-1},
{0x204,0x204,"Lu",0,1,0},
{0x205,0x205,"Ll",-1,0,-1},
{0x206,0x206,"Lu",0,1,0},
{0x207,0x207,"Ll",-1,0,-1},
{0x208,0x208,"Lu",0,1,0},
{0x209,0x209,"Ll",-1,0,-1},
{0x20A,0x20A,"Lu",0,1,0},
{0x20B,0x20B,"Ll",-1,0,-1},
{0x20C,0x20C,"Lu",0,1,0},
{0x20D,0x20D,"Ll",-1,0,-1},
{0x20E,0x20E,"Lu",0,1,0},
{0x20F,0x20F,"Ll",-1,0,-1},
{0x210,0x210,"Lu",0,1,0},
{0x211,0x211,"Ll",-1,0,-1},
{0x212,0x212,"Lu",0,1,0},
{0x213,0x213,"Ll",-1,0,-1},
{0x214,0x214,"Lu",0,1,0},
{0x215,0x215,"Ll",-1,0,-1},
{0x216,0x216,"Lu",0,1,0},
{0x217,0x217,"Ll",-1,0,-1},
{0x218,0x218,"Lu",0,1,0},
{0x219,0x219,"Ll",-1,0,-1},
{0x21A,0x21A,"Lu",0,1,0},
{0x21B,0x21B,"Ll",-1,0,-1},
{0x21C,0x21C,"Lu",0,1,0},
{0x21D,0x21D,"Ll",-1,0,-1},
{0x21E,0x21E,"Lu",0,1,0},
{0x21F,0x21F,"Ll",-1,0,-1},
{0x220,0x220,"Lu",0,-130,0},
{0x221,0x221,"Ll",0,0,0},
{0x222,0x222,"Lu",0,1,0},
{0x223,0x223,"Ll",-1,0,-1},
{0x224,0x224,"Lu",0,1,0},
{0x225,0x225,"Ll",-1,0,-1},
{0x226,0x226,"Lu",0,1,0},
{0x227,0x227,"Ll",-1,0,-1},
{0x228,0x228,"Lu",0,1,0},
{0x229,0x229,"Ll",-1,0,-1},
{0x22A,0x22A,"Lu",0,1,0},
{0x22B,0x22B,"Ll",-1,0,-1},
{0x22C,0x22C,"Lu",0,1,0},
{0x22D,0x22D,"Ll",-1,0,-1},
{0x22E,0x22E,"Lu",0,1,0},
{0x22F,0x22F,"Ll",-1,0,-1},
{0x230,0x230,"Lu",0,1,0},
{0x231,0x231,"Ll",-1,0,-1},
{0x232,0x232,"Lu",0,1,0},
{0x233,0x233,"Ll",-1,0,-1},
{0x234,0x239,"Ll",0,0,0},
{0x23A,0x23A,"Lu",0,10795,0},
{0x23B,0x23B,"Lu",0,1,0},
{0x23C,0x23C,"Ll",-1,0,-1},
{0x23D,0x23D,"Lu",0,-163,0},
{0x23E,0x23E,"Lu",0,10792,0},
{0x23F,0x240,"Ll",10815,0,10815},
{0x241,0x241,"Lu",0,1,0},
{0x242,0x242,"Ll",-1,0,-1},
{0x243,0x243,"Lu",0,-195,0},
{0x244,0x244,"Lu",0,69,0},
{0x245,0x245,"Lu",0,71,0},
{0x246,0x246,"Lu",0,1,0},
{0x247,0x247,"Ll",-1,0,-1},
{0x248,0x248,"Lu",0,1,0},
{0x249,0x249,"Ll",-1,0,-1},
{0x24A,0x24A,"Lu",0,1,0},
{0x24B,0x24B,"Ll",-1,0,-1},
{0x24C,0x24C,"Lu",0,1,0},
{0x24D,0x24D,"Ll",-1,0,-1},
{0x24E,0x24E,"Lu",0,1,0},
{0x24F,0x24F,"Ll",-1,0,-1},
{0x250,0x250,"Ll",10783,0,10783},
{0x251,0x251,"Ll",10780,0,10780},
{0x252,0x252,"Ll",10782,0,10782},
{0x253,0x253,"Ll",-210,0,-210},
{0x254,0x254,"Ll",-206,0,-206},
{0x255,0x255,"Ll",0,0,0},
{0x256,0x257,"Ll",-205,0,-205},
{0x258,0x258,"Ll",0,0,0},
{0x259,0x259,"Ll",-202,0,-202},
{0x25A,0x25A,"Ll",0,0,0},
{0x25B,0x25B,"Ll",-203,0,-203},
{0x25C,0x25C,"Ll",42319,0,42319},
{0x25D,0x25F,"Ll",0,0,0},
{0x260,0x260,"Ll",-205,0,-205},
{0x261,0x261,"Ll",42315,0,42315},
{0x262,0x262,"Ll",0,0,0},
{0x263,0x263,"Ll",-207,0,-207},
{0x264,0x264,"Ll",0,0,0},
{0x265,0x265,"Ll",42280,0,42280},
{0x266,0x266,"Ll",42308,0,42308},
{0x267,0x267,"Ll",0,0,0},
{0x268,0x268,"Ll",-209,0,-209},
{0x269,0x269,"Ll",-211,0,-211},
{0x26A,0x26A,"Ll",42308,0,42308},
{0x26B,0x26B,"Ll",10743,0,10743},
{0x26C,0x26C,"Ll",42305,0,42305},
{0x26D,0x26E,"Ll",0,0,0},
{0x26F,0x26F,"Ll",-211,0,-211},
{0x270,0x270,"Ll",0,0,0},
{0x271,0x271,"Ll",10749,0,10749},
{0x272,0x272,"Ll",-213,0,-213},
{0x273,0x274,"Ll",0,0,0},
{0x275,0x275,"Ll",-214,0,-214},
{0x276,0x27C,"Ll",0,0,0},
{0x27D,0x27D,"Ll",10727,0,10727},
{0x27E,0x27F,"Ll",0,0,0},
{0x280,0x280,"Ll",-218,0,-218},
{0x281,0x281,"Ll",0,0,0},
{0x282,0x282,"Ll",42307,0,42307},
{0x283,0x283,"Ll",-218,0,-218},
{0x284,0x286,"Ll",0,0,0},
{0x287,0x287,"Ll",42282,0,42282},
{0x288,0x288,"Ll",-218,0,-218},
{0x289,0x289,"Ll",-69,0,-69},
{0x28A,0x28B,"Ll",-217,0,-217},
{0x28C,0x28C,"Ll",-71,0,-71},
{0x28D,0x291,"Ll",0,0,0},
{0x292,0x292,"Ll",-219,0,-219},
{0x293,0x293,"Ll",0,0,0},
{0x294,0x294,"Lo",0,0,0},
{0x295,0x29C,"Ll",0,0,0},
{0x29D,0x29D,"Ll",42261,0,42261},
{0x29E,0x29E,"Ll",42258,0,42258},
{0x29F,0x2AF,"Ll",0,0,0},
{0x2B0,0x2C1,"Lm",0,0,0},
{0x2C2,0x2C5,"Sk",0,0,0},
{0x2C6,0x2D1,"Lm",0,0,0},
{0x2D2,0x2DF,"Sk",0,0,0},
{0x2E0,0x2E4,"Lm",0,0,0},
{0x2E5,0x2EB,"Sk",0,0,0},
{0x2EC,0x2EC,"Lm",0,0,0},
{0x2ED,0x2ED,"Sk",0,0,0},
{0x2EE,0x2EE,"Lm",0,0,0},
{0x2EF,0x2FF,"Sk",0,0,0},
{0x300,0x344,"Mn",0,0,0},
{0x345,0x345,"Mn",84,0,84},
{0x346,0x36F,"Mn",0,0,0},
{0x370,0x370,"Lu",0,1,0},
{0x371,0x371,"Ll",-1,0,-1},
{0x372,0x372,"Lu",0,1,0},
{0x373,0x373,"Ll",-1,0,-1},
{0x374,0x374,"Lm",0,0,0},
{0x375,0x375,"Sk",0,0,0},
{0x376,0x376,"Lu",0,1,0},
{0x377,0x377,"Ll",-1,0,-1},
{0x378,0x379,"Cn",0,0,0},
{0x37A,0x37A,"Lm",0,0,0},
{0x37B,0x37D,"Ll",130,0,130},
{0x37E,0x37E,"Po",0,0,0},
{0x37F,0x37F,"Lu",0,116,0},
{0x380,0x383,"Cn",0,0,0},
{0x384,0x385,"Sk",0,0,0},
{0x386,0x386,"Lu",0,38,0},
{0x387,0x387,"Po",0,0,0},
{0x388,0x38A,"Lu",0,37,0},
{0x38B,0x38B,"Cn",0,0,0},
{0x38C,0x38C,"Lu",0,64,0},
{0x38D,0x38D,"Cn",0,0,0},
{0x38E,0x38F,"Lu",0,63,0},
{0x390,0x390,"Ll",UD,0,UD},
{0x391,0x3A1,"Lu",0,32,0},
{0x3A2,0x3A2,"Cn",0,0,0},
{0x3A3,0x3AB,"Lu",0,32,0},
{0x3AC,0x3AC,"Ll",-38,0,-38},
{0x3AD,0x3AF,"Ll",-37,0,-37},
{0x3B0,0x3B0,"Ll",UD,0,UD},
{0x3B1,0x3C1,"Ll",-32,0,-32},
{0x3C2,0x3C2,"Ll",-31,0,-31},
{0x3C3,0x3CB,"Ll",-32,0,-32},
{0x3CC,0x3CC,"Ll",-64,0,-64},
{0x3CD,0x3CE,"Ll",-63,0,-63},
{0x3CF,0x3CF,"Lu",0,8,0},
{0x3D0,0x3D0,"Ll",-62,0,-62},
{0x3D1,0x3D1,"Ll",-57,0,-57},
{0x3D2,0x3D4,"Lu",0,0,0},
{0x3D5,0x3D5,"Ll",-47,0,-47},
{0x3D6,0x3D6,"Ll",-54,0,-54},
{0x3D7,0x3D7,"Ll",-8,0,-8},
{0x3D8,0x3D8,"Lu",0,1,0},
{0x3D9,0x3D9,"Ll",-1,0,-1},
{0x3DA,0x3DA,"Lu",0,1,0},
{0x3DB,0x3DB,"Ll",-1,0,-1},
{0x3DC,0x3DC,"Lu",0,1,0},
{0x3DD,0x3DD,"Ll",-1,0,-1},
{0x3DE,0x3DE,"Lu",0,1,0},
{0x3DF,0x3DF,"Ll",-1,0,-1},
{0x3E0,0x3E0,"Lu",0,1,0},
{0x3E1,0x3E1,"Ll",-1,0,-1},
{0x3E2,0x3E2,"Lu",0,1,0},
{0x3E3,0x3E3,"Ll",-1,0,-1},
{0x3E4,0x3E4,"Lu",0,1,0},
{0x3E5,0x3E5,"Ll",-1,0,-1},
{0x3E6,0x3E6,"Lu",0,1,0},
{0x3E7,0x3E7,"Ll",-1,0,-1},
{0x3E8,0x3E8,"Lu",0,1,0},
{0x3E9,0x3E9,"Ll",-1,0,-1},
{0x3EA,0x3EA,"Lu",0,1,0},
{0x3EB,0x3EB,"Ll",-1,0,-1},
{0x3EC,0x3EC,"Lu",0,1,0},
{0x3ED,0x3ED,"Ll",-1,0,-1},
{0x3EE,0x3EE,"Lu",0,1,0},
{0x3EF,0x3EF,"Ll",-1,0,-1},
{0x3F0,0x3F0,"Ll",-86,0,-86},
{0x3F1,0x3F1,"Ll",-80,0,-80},
{0x3F2,0x3F2,"Ll",7,0,7},
{0x3F3,0x3F3,"Ll",-116,0,-116},
{0x3F4,0x3F4,"Lu",0,-60,0},
{0x3F5,0x3F5,"Ll",-96,0,-96},
{0x3F6,0x3F6,"Sm",0,0,0},
{0x3F7,0x3F7,"Lu",0,1,0},
{0x3F8,0x3F8,"Ll",-1,0,-1},
{0x3F9,0x3F9,"Lu",0,-7,0},
{0x3FA,0x3FA,"Lu",0,1,0},
{0x3FB,0x3FB,"Ll",-1,0,-1},
{0x3FC,0x3FC,"Ll",0,0,0},
{0x3FD,0x3FF,"Lu",0,-130,0},
{0x400,0x40F,"Lu",0,80,0},
{0x410,0x42F,"Lu",0,32,0},
{0x430,0x44F,"Ll",-32,0,-32},
{0x450,0x45F,"Ll",-80,0,-80},
{0x460,0x460,"Lu",0,1,0},
{0x461,0x461,"Ll",-1,0,-1},
{0x462,0x462,"Lu",0,1,0},
{0x463,0x463,"Ll",-1,0,-1},
{0x464,0x464,"Lu",0,1,0},
{0x465,0x465,"Ll",-1,0,-1},
{0x466,0x466,"Lu",0,1,0},
{0x467,0x467,"Ll",-1,0,-1},
{0x468,0x468,"Lu",0,1,0},
{0x469,0x469,"Ll",-1,0,-1},
{0x46A,0x46A,"Lu",0,1,0},
{0x46B,0x46B,"Ll",-1,0,-1},
{0x46C,0x46C,"Lu",0,1,0},
{0x46D,0x46D,"Ll",-1,0,-1},
{0x46E,0x46E,"Lu",0,1,0},
{0x46F,0x46F,"Ll",-1,0,-1},
{0x470,0x470,"Lu",0,1,0},
{0x471,0x471,"Ll",-1,0,-1},
{0x472,0x472,"Lu",0,1,0},
{0x473,0x473,"Ll",-1,0,-1},
{0x474,0x474,"Lu",0,1,0},
{0x475,0x475,"Ll",-1,0,-1},
{0x476,0x476,"Lu",0,1,0},
{0x477,0x477,"Ll",-1,0,-1},
{0x478,0x478,"Lu",0,1,0},
{0x479,0x479,"Ll",-1,0,-1},
{0x47A,0x47A,"Lu",0,1,0},
{0x47B,0x47B,"Ll",-1,0,-1},
{0x47C,0x47C,"Lu",0,1,0},
{0x47D,0x47D,"Ll",-1,0,-1},
{0x47E,0x47E,"Lu",0,1,0},
{0x47F,0x47F,"Ll",-1,0,-1},
{0x480,0x480,"Lu",0,1,0},
{0x481,0x481,"Ll",-1,0,-1},
{0x482,0x482,"So",0,0,0},
{0x483,0x487,"Mn",0,0,0},
{0x488,0x489,"Me",0,0,0},
{0x48A,0x48A,"Lu",0,1,0},
{0x48B,0x48B,"Ll",-1,0,-1},
{0x48C,0x48C,"Lu",0,1,0},
{0x48D,0x48D,"Ll",-1,0,-1},
{0x48E,0x48E,"Lu",0,1,0},
{0x48F,0x48F,"Ll",-1,0,-1},
{0x490,0x490,"Lu",0,1,0},
{0x491,0x491,"Ll",-1,0,-1},
{0x492,0x492,"Lu",0,1,0},
{0x493,0x493,"Ll",-1,0,-1},
{0x494,0x494,"Lu",0,1,0},
{0x495,0x495,"Ll",-1,0,-1},
{0x496,0x496,"Lu",0,1,0},
{0x497,0x497,"Ll",-1,0,-1},
{0x498,0x498,"Lu",0,1,0},
{0x499,0x499,"Ll",-1,0,-1},
{0x49A,0x49A,"Lu",0,1,0},
{0x49B,0x49B,"Ll",-1,0,-1},
{0x49C,0x49C,"Lu",0,1,0},
{0x49D,0x49D,"Ll",-1,0,-1},
{0x49E,0x49E,"Lu",0,1,0},
{0x49F,0x49F,"Ll",-1,0,-1},
{0x4A0,0x4A0,"Lu",0,1,0},
{0x4A1,0x4A1,"Ll",-1,0,-1},
{0x4A2,0x4A2,"Lu",0,1,0},
{0x4A3,0x4A3,"Ll",-1,0,-1},
{0x4A4,0x4A4,"Lu",0,1,0},
{0x4A5,0x4A5,"Ll",-1,0,-1},
{0x4A6,0x4A6,"Lu",0,1,0},
{0x4A7,0x4A7,"Ll",-1,0,-1},
{0x4A8,0x4A8,"Lu",0,1,0},
{0x4A9,0x4A9,"Ll",-1,0,-1},
{0x4AA,0x4AA,"Lu",0,1,0},
{0x4AB,0x4AB,"Ll",-1,0,-1},
{0x4AC,0x4AC,"Lu",0,1,0},
{0x4AD,0x4AD,"Ll",-1,0,-1},
{0x4AE,0x4AE,"Lu",0,1,0},
{0x4AF,0x4AF,"Ll",-1,0,-1},
{0x4B0,0x4B0,"Lu",0,1,0},
{0x4B1,0x4B1,"Ll",-1,0,-1},
{0x4B2,0x4B2,"Lu",0,1,0},
{0x4B3,0x4B3,"Ll",-1,0,-1},
{0x4B4,0x4B4,"Lu",0,1,0},
{0x4B5,0x4B5,"Ll",-1,0,-1},
{0x4B6,0x4B6,"Lu",0,1,0},
{0x4B7,0x4B7,"Ll",-1,0,-1},
{0x4B8,0x4B8,"Lu",0,1,0},
{0x4B9,0x4B9,"Ll",-1,0,-1},
{0x4BA,0x4BA,"Lu",0,1,0},
{0x4BB,0x4BB,"Ll",-1,0,-1},
{0x4BC,0x4BC,"Lu",0,1,0},
{0x4BD,0x4BD,"Ll",-1,0,-1},
{0x4BE,0x4BE,"Lu",0,1,0},
{0x4BF,0x4BF,"Ll",-1,0,-1},
{0x4C0,0x4C0,"Lu",0,15,0},
{0x4C1,0x4C1,"Lu",0,1,0},
{0x4C2,0x4C2,"Ll",-1,0,-1},
{0x4C3,0x4C3,"Lu",0,1,0},
{0x4C4,0x4C4,"Ll",-1,0,-1},
{0x4C5,0x4C5,"Lu",0,1,0},
{0x4C6,0x4C6,"Ll",-1,0,-1},
{0x4C7,0x4C7,"Lu",0,1,0},
{0x4C8,0x4C8,"Ll",-1,0,-1},
{0x4C9,0x4C9,"Lu",0,1,0},
{0x4CA,0x4CA,"Ll",-1,0,-1},
{0x4CB,0x4CB,"Lu",0,1,0},
{0x4CC,0x4CC,"Ll",-1,0,-1},
{0x4CD,0x4CD,"Lu",0,1,0},
{0x4CE,0x4CE,"Ll",-1,0,-1},
{0x4CF,0x4CF,"Ll",-15,0,-15},
{0x4D0,0x4D0,"Lu",0,1,0},
{0x4D1,0x4D1,"Ll",-1,0,-1},
{0x4D2,0x4D2,"Lu",0,1,0},
{0x4D3,0x4D3,"Ll",-1,0,-1},
{0x4D4,0x4D4,"Lu",0,1,0},
{0x4D5,0x4D5,"Ll",-1,0,-1},
{0x4D6,0x4D6,"Lu",0,1,0},
{0x4D7,0x4D7,"Ll",-1,0,-1},
{0x4D8,0x4D8,"Lu",0,1,0},
{0x4D9,0x4D9,"Ll",-1,0,-1},
{0x4DA,0x4DA,"Lu",0,1,0},
{0x4DB,0x4DB,"Ll",-1,0,-1},
{0x4DC,0x4DC,"Lu",0,1,0},
{0x4DD,0x4DD,"Ll",-1,0,-1},
{0x4DE,0x4DE,"Lu",0,1,0},
{0x4DF,0x4DF,"Ll",-1,0,-1},
{0x4E0,0x4E0,"Lu",0,1,0},
{0x4E1,0x4E1,"Ll",-1,0,-1},
{0x4E2,0x4E2,"Lu",0,1,0},
{0x4E3,0x4E3,"Ll",-1,0,-1},
{0x4E4,0x4E4,"Lu",0,1,0},
{0x4E5,0x4E5,"Ll",-1,0,-1},
{0x4E6,0x4E6,"Lu",0,1,0},
{0x4E7,0x4E7,"Ll",-1,0,-1},
{0x4E8,0x4E8,"Lu",0,1,0},
{0x4E9,0x4E9,"Ll",-1,0,-1},
{0x4EA,0x4EA,"Lu",0,1,0},
{0x4EB,0x4EB,"Ll",-1,0,-1},
{0x4EC,0x4EC,"Lu",0,1,0},
{0x4ED,0x4ED,"Ll",-1,0,-1},
{0x4EE,0x4EE,"Lu",0,1,0},
{0x4EF,0x4EF,"Ll",-1,0,-1},
{0x4F0,0x4F0,"Lu",0,1,0},
{0x4F1,0x4F1,"Ll",-1,0,-1},
{0x4F2,0x4F2,"Lu",0,1,0},
{0x4F3,0x4F3,"Ll",-1,0,-1},
{0x4F4,0x4F4,"Lu",0,1,0},
{0x4F5,0x4F5,"Ll",-1,0,-1},
{0x4F6,0x4F6,"Lu",0,1,0},
{0x4F7,0x4F7,"Ll",-1,0,-1},
{0x4F8,0x4F8,"Lu",0,1,0},
{0x4F9,0x4F9,"Ll",-1,0,-1},
{0x4FA,0x4FA,"Lu",0,1,0},
{0x4FB,0x4FB,"Ll",-1,0,-1},
{0x4FC,0x4FC,"Lu",0,1,0},
{0x4FD,0x4FD,"Ll",-1,0,-1},
{0x4FE,0x4FE,"Lu",0,1,0},
{0x4FF,0x4FF,"Ll",-1,0,-1},
{0x500,0x500,"Lu",0,1,0},
{0x501,0x501,"Ll",-1,0,-1},
{0x502,0x502,"Lu",0,1,0},
{0x503,0x503,"Ll",-1,0,-1},
{0x504,0x504,"Lu",0,1,0},
{0x505,0x505,"Ll",-1,0,-1},
{0x506,0x506,"Lu",0,1,0},
{0x507,0x507,"Ll",-1,0,-1},
{0x508,0x508,"Lu",0,1,0},
{0x509,0x509,"Ll",-1,0,-1},
{0x50A,0x50A,"Lu",0,1,0},
{0x50B,0x50B,"Ll",-1,0,-1},
{0x50C,0x50C,"Lu",0,1,0},
{0x50D,0x50D,"Ll",-1,0,-1},
{0x50E,0x50E,"Lu",0,1,0},
{0x50F,0x50F,"Ll",-1,0,-1},
{0x510,0x510,"Lu",0,1,0},
{0x511,0x511,"Ll",-1,0,-1},
{0x512,0x512,"Lu",0,1,0},
{0x513,0x513,"Ll",-1,0,-1},
{0x514,0x514,"Lu",0,1,0},
{0x515,0x515,"Ll",-1,0,-1},
{0x516,0x516,"Lu",0,1,0},
{0x517,0x517,"Ll",-1,0,-1},
{0x518,0x518,"Lu",0,1,0},
{0x519,0x519,"Ll",-1,0,-1},
{0x51A,0x51A,"Lu",0,1,0},
{0x51B,0x51B,"Ll",-1,0,-1},
{0x51C,0x51C,"Lu",0,1,0},
{0x51D,0x51D,"Ll",-1,0,-1},
{0x51E,0x51E,"Lu",0,1,0},
{0x51F,0x51F,"Ll",-1,0,-1},
{0x520,0x520,"Lu",0,1,0},
{0x521,0x521,"Ll",-1,0,-1},
{0x522,0x522,"Lu",0,1,0},
{0x523,0x523,"Ll",-1,0,-1},
{0x524,0x524,"Lu",0,1,0},
{0x525,0x525,"Ll",-1,0,-1},
{0x526,0x526,"Lu",0,1,0},
{0x527,0x527,"Ll",-1,0,-1},
{0x528,0x528,"Lu",0,1,0},
{0x529,0x529,"Ll",-1,0,-1},
{0x52A,0x52A,"Lu",0,1,0},
{0x52B,0x52B,"Ll",-1,0,-1},
{0x52C,0x52C,"Lu",0,1,0},
{0x52D,0x52D,"Ll",-1,0,-1},
{0x52E,0x52E,"Lu",0,1,0},
{0x52F,0x52F,"Ll",-1,0,-1},
{0x530,0x530,"Cn",0,0,0},
{0x531,0x556,"Lu",0,48,0},
{0x557,0x558,"Cn",0,0,0},
{0x559,0x559,"Lm",0,0,0},
{0x55A,0x55F,"Po",0,0,0},
{0x560,0x560,"Ll",0,0,0},
{0x561,0x586,"Ll",-48,0,-48},
{0x587,0x587,"Ll",UD,0,UD},
{0x588,0x588,"Ll",0,0,0},
{0x589,0x589,"Po",0,0,0},
{0x58A,0x58A,"Pd",0,0,0},
{0x58B,0x58C,"Cn",0,0,0},
{0x58D,0x58E,"So",0,0,0},
{0x58F,0x58F,"Sc",0,0,0},
{0x590,0x590,"Cn",0,0,0},
{0x591,0x5BD,"Mn",0,0,0},
{0x5BE,0x5BE,"Pd",0,0,0},
{0x5BF,0x5BF,"Mn",0,0,0},
{0x5C0,0x5C0,"Po",0,0,0},
{0x5C1,0x5C2,"Mn",0,0,0},
{0x5C3,0x5C3,"Po",0,0,0},
{0x5C4,0x5C5,"Mn",0,0,0},
{0x5C6,0x5C6,"Po",0,0,0},
{0x5C7,0x5C7,"Mn",0,0,0},
{0x5C8,0x5CF,"Cn",0,0,0},
{0x5D0,0x5EA,"Lo",0,0,0},
{0x5EB,0x5EE,"Cn",0,0,0},
{0x5EF,0x5F2,"Lo",0,0,0},
{0x5F3,0x5F4,"Po",0,0,0},
{0x5F5,0x5FF,"Cn",0,0,0},
{0x600,0x605,"Cf",0,0,0},
{0x606,0x608,"Sm",0,0,0},
{0x609,0x60A,"Po",0,0,0},
{0x60B,0x60B,"Sc",0,0,0},
{0x60C,0x60D,"Po",0,0,0},
{0x60E,0x60F,"So",0,0,0},
{0x610,0x61A,"Mn",0,0,0},
{0x61B,0x61B,"Po",0,0,0},
{0x61C,0x61C,"Cf",0,0,0},
{0x61D,0x61F,"Po",0,0,0},
{0x620,0x63F,"Lo",0,0,0},
{0x640,0x640,"Lm",0,0,0},
{0x641,0x64A,"Lo",0,0,0},
{0x64B,0x65F,"Mn",0,0,0},
{0x660,0x669,"Nd",0,0,0},
{0x66A,0x66D,"Po",0,0,0},
{0x66E,0x66F,"Lo",0,0,0},
{0x670,0x670,"Mn",0,0,0},
{0x671,0x6D3,"Lo",0,0,0},
{0x6D4,0x6D4,"Po",0,0,0},
{0x6D5,0x6D5,"Lo",0,0,0},
{0x6D6,0x6DC,"Mn",0,0,0},
{0x6DD,0x6DD,"Cf",0,0,0},
{0x6DE,0x6DE,"So",0,0,0},
{0x6DF,0x6E4,"Mn",0,0,0},
{0x6E5,0x6E6,"Lm",0,0,0},
{0x6E7,0x6E8,"Mn",0,0,0},
{0x6E9,0x6E9,"So",0,0,0},
{0x6EA,0x6ED,"Mn",0,0,0},
{0x6EE,0x6EF,"Lo",0,0,0},
{0x6F0,0x6F9,"Nd",0,0,0},
{0x6FA,0x6FC,"Lo",0,0,0},
{0x6FD,0x6FE,"So",0,0,0},
{0x6FF,0x6FF,"Lo",0,0,0},
{0x700,0x70D,"Po",0,0,0},
{0x70E,0x70E,"Cn",0,0,0},
{0x70F,0x70F,"Cf",0,0,0},
{0x710,0x710,"Lo",0,0,0},
{0x711,0x711,"Mn",0,0,0},
{0x712,0x72F,"Lo",0,0,0},
{0x730,0x74A,"Mn",0,0,0},
{0x74B,0x74C,"Cn",0,0,0},
{0x74D,0x7A5,"Lo",0,0,0},
{0x7A6,0x7B0,"Mn",0,0,0},
{0x7B1,0x7B1,"Lo",0,0,0},
{0x7B2,0x7BF,"Cn",0,0,0},
{0x7C0,0x7C9,"Nd",0,0,0},
{0x7CA,0x7EA,"Lo",0,0,0},
{0x7EB,0x7F3,"Mn",0,0,0},
{0x7F4,0x7F5,"Lm",0,0,0},
{0x7F6,0x7F6,"So",0,0,0},
{0x7F7,0x7F9,"Po",0,0,0},
{0x7FA,0x7FA,"Lm",0,0,0},
{0x7FB,0x7FC,"Cn",0,0,0},
{0x7FD,0x7FD,"Mn",0,0,0},
{0x7FE,0x7FF,"Sc",0,0,0},
{0x800,0x815,"Lo",0,0,0},
{0x816,0x819,"Mn",0,0,0},
{0x81A,0x81A,"Lm",0,0,0},
{0x81B,0x823,"Mn",0,0,0},
{0x824,0x824,"Lm",0,0,0},
{0x825,0x827,"Mn",0,0,0},
{0x828,0x828,"Lm",0,0,0},
{0x829,0x82D,"Mn",0,0,0},
{0x82E,0x82F,"Cn",0,0,0},
{0x830,0x83E,"Po",0,0,0},
{0x83F,0x83F,"Cn",0,0,0},
{0x840,0x858,"Lo",0,0,0},
{0x859,0x85B,"Mn",0,0,0},
{0x85C,0x85D,"Cn",0,0,0},
{0x85E,0x85E,"Po",0,0,0},
{0x85F,0x85F,"Cn",0,0,0},
{0x860,0x86A,"Lo",0,0,0},
{0x86B,0x86F,"Cn",0,0,0},
{0x870,0x887,"Lo",0,0,0},
{0x888,0x888,"Sk",0,0,0},
{0x889,0x88E,"Lo",0,0,0},
{0x88F,0x88F,"Cn",0,0,0},
{0x890,0x891,"Cf",0,0,0},
{0x892,0x897,"Cn",0,0,0},
{0x898,0x89F,"Mn",0,0,0},
{0x8A0,0x8C8,"Lo",0,0,0},
{0x8C9,0x8C9,"Lm",0,0,0},
{0x8CA,0x8E1,"Mn",0,0,0},
{0x8E2,0x8E2,"Cf",0,0,0},
{0x8E3,0x902,"Mn",0,0,0},
{0x903,0x903,"Mc",0,0,0},
{0x904,0x939,"Lo",0,0,0},
{0x93A,0x93A,"Mn",0,0,0},
{0x93B,0x93B,"Mc",0,0,0},
{0x93C,0x93C,"Mn",0,0,0},
{0x93D,0x93D,"Lo",0,0,0},
{0x93E,0x940,"Mc",0,0,0},
{0x941,0x948,"Mn",0,0,0},
{0x949,0x94C,"Mc",0,0,0},
{0x94D,0x94D,"Mn",0,0,0},
{0x94E,0x94F,"Mc",0,0,0},
{0x950,0x950,"Lo",0,0,0},
{0x951,0x957,"Mn",0,0,0},
{0x958,0x961,"Lo",0,0,0},
{0x962,0x963,"Mn",0,0,0},
{0x964,0x965,"Po",0,0,0},
{0x966,0x96F,"Nd",0,0,0},
{0x970,0x970,"Po",0,0,0},
{0x971,0x971,"Lm",0,0,0},
{0x972,0x980,"Lo",0,0,0},
{0x981,0x981,"Mn",0,0,0},
{0x982,0x983,"Mc",0,0,0},
{0x984,0x984,"Cn",0,0,0},
{0x985,0x98C,"Lo",0,0,0},
{0x98D,0x98E,"Cn",0,0,0},
{0x98F,0x990,"Lo",0,0,0},
{0x991,0x992,"Cn",0,0,0},
{0x993,0x9A8,"Lo",0,0,0},
{0x9A9,0x9A9,"Cn",0,0,0},
{0x9AA,0x9B0,"Lo",0,0,0},
{0x9B1,0x9B1,"Cn",0,0,0},
{0x9B2,0x9B2,"Lo",0,0,0},
{0x9B3,0x9B5,"Cn",0,0,0},
{0x9B6,0x9B9,"Lo",0,0,0},
{0x9BA,0x9BB,"Cn",0,0,0},
{0x9BC,0x9BC,"Mn",0,0,0},
{0x9BD,0x9BD,"Lo",0,0,0},
{0x9BE,0x9C0,"Mc",0,0,0},
{0x9C1,0x9C4,"Mn",0,0,0},
{0x9C5,0x9C6,"Cn",0,0,0},
{0x9C7,0x9C8,"Mc",0,0,0},
{0x9C9,0x9CA,"Cn",0,0,0},
{0x9CB,0x9CC,"Mc",0,0,0},
{0x9CD,0x9CD,"Mn",0,0,0},
{0x9CE,0x9CE,"Lo",0,0,0},
{0x9CF,0x9D6,"Cn",0,0,0},
{0x9D7,0x9D7,"Mc",0,0,0},
{0x9D8,0x9DB,"Cn",0,0,0},
{0x9DC,0x9DD,"Lo",0,0,0},
{0x9DE,0x9DE,"Cn",0,0,0},
{0x9DF,0x9E1,"Lo",0,0,0},
{0x9E2,0x9E3,"Mn",0,0,0},
{0x9E4,0x9E5,"Cn",0,0,0},
{0x9E6,0x9EF,"Nd",0,0,0},
{0x9F0,0x9F1,"Lo",0,0,0},
{0x9F2,0x9F3,"Sc",0,0,0},
{0x9F4,0x9F9,"No",0,0,0},
{0x9FA,0x9FA,"So",0,0,0},
{0x9FB,0x9FB,"Sc",0,0,0},
{0x9FC,0x9FC,"Lo",0,0,0},
{0x9FD,0x9FD,"Po",0,0,0},
{0x9FE,0x9FE,"Mn",0,0,0},
{0x9FF,0xA00,"Cn",0,0,0},
{0xA01,0xA02,"Mn",0,0,0},
{0xA03,0xA03,"Mc",0,0,0},
{0xA04,0xA04,"Cn",0,0,0},
{0xA05,0xA0A,"Lo",0,0,0},
{0xA0B,0xA0E,"Cn",0,0,0},
{0xA0F,0xA10,"Lo",0,0,0},
{0xA11,0xA12,"Cn",0,0,0},
{0xA13,0xA28,"Lo",0,0,0},
{0xA29,0xA29,"Cn",0,0,0},
{0xA2A,0xA30,"Lo",0,0,0},
{0xA31,0xA31,"Cn",0,0,0},
{0xA32,0xA33,"Lo",0,0,0},
{0xA34,0xA34,"Cn",0,0,0},
{0xA35,0xA36,"Lo",0,0,0},
{0xA37,0xA37,"Cn",0,0,0},
{0xA38,0xA39,"Lo",0,0,0},
{0xA3A,0xA3B,"Cn",0,0,0},
{0xA3C,0xA3C,"Mn",0,0,0},
{0xA3D,0xA3D,"Cn",0,0,0},
{0xA3E,0xA40,"Mc",0,0,0},
{0xA41,0xA42,"Mn",0,0,0},
{0xA43,0xA46,"Cn",0,0,0},
{0xA47,0xA48,"Mn",0,0,0},
{0xA49,0xA4A,"Cn",0,0,0},
{0xA4B,0xA4D,"Mn",0,0,0},
{0xA4E,0xA50,"Cn",0,0,0},
{0xA51,0xA51,"Mn",0,0,0},
{0xA52,0xA58,"Cn",0,0,0},
{0xA59,0xA5C,"Lo",0,0,0},
{0xA5D,0xA5D,"Cn",0,0,0},
{0xA5E,0xA5E,"Lo",0,0,0},
{0xA5F,0xA65,"Cn",0,0,0},
{0xA66,0xA6F,"Nd",0,0,0},
{0xA70,0xA71,"Mn",0,0,0},
{0xA72,0xA74,"Lo",0,0,0},
{0xA75,0xA75,"Mn",0,0,0},
{0xA76,0xA76,"Po",0,0,0},
{0xA77,0xA80,"Cn",0,0,0},
{0xA81,0xA82,"Mn",0,0,0},
{0xA83,0xA83,"Mc",0,0,0},
{0xA84,0xA84,"Cn",0,0,0},
{0xA85,0xA8D,"Lo",0,0,0},
{0xA8E,0xA8E,"Cn",0,0,0},
{0xA8F,0xA91,"Lo",0,0,0},
{0xA92,0xA92,"Cn",0,0,0},
{0xA93,0xAA8,"Lo",0,0,0},
{0xAA9,0xAA9,"Cn",0,0,0},
{0xAAA,0xAB0,"Lo",0,0,0},
{0xAB1,0xAB1,"Cn",0,0,0},
{0xAB2,0xAB3,"Lo",0,0,0},
{0xAB4,0xAB4,"Cn",0,0,0},
{0xAB5,0xAB9,"Lo",0,0,0},
{0xABA,0xABB,"Cn",0,0,0},
{0xABC,0xABC,"Mn",0,0,0},
{0xABD,0xABD,"Lo",0,0,0},
{0xABE,0xAC0,"Mc",0,0,0},
{0xAC1,0xAC5,"Mn",0,0,0},
{0xAC6,0xAC6,"Cn",0,0,0},
{0xAC7,0xAC8,"Mn",0,0,0},
{0xAC9,0xAC9,"Mc",0,0,0},
{0xACA,0xACA,"Cn",0,0,0},
{0xACB,0xACC,"Mc",0,0,0},
{0xACD,0xACD,"Mn",0,0,0},
{0xACE,0xACF,"Cn",0,0,0},
{0xAD0,0xAD0,"Lo",0,0,0},
{0xAD1,0xADF,"Cn",0,0,0},
{0xAE0,0xAE1,"Lo",0,0,0},
{0xAE2,0xAE3,"Mn",0,0,0},
{0xAE4,0xAE5,"Cn",0,0,0},
{0xAE6,0xAEF,"Nd",0,0,0},
{0xAF0,0xAF0,"Po",0,0,0},
{0xAF1,0xAF1,"Sc",0,0,0},
{0xAF2,0xAF8,"Cn",0,0,0},
{0xAF9,0xAF9,"Lo",0,0,0},
{0xAFA,0xAFF,"Mn",0,0,0},
{0xB00,0xB00,"Cn",0,0,0},
{0xB01,0xB01,"Mn",0,0,0},
{0xB02,0xB03,"Mc",0,0,0},
{0xB04,0xB04,"Cn",0,0,0},
{0xB05,0xB0C,"Lo",0,0,0},
{0xB0D,0xB0E,"Cn",0,0,0},
{0xB0F,0xB10,"Lo",0,0,0},
{0xB11,0xB12,"Cn",0,0,0},
{0xB13,0xB28,"Lo",0,0,0},
{0xB29,0xB29,"Cn",0,0,0},
{0xB2A,0xB30,"Lo",0,0,0},
{0xB31,0xB31,"Cn",0,0,0},
{0xB32,0xB33,"Lo",0,0,0},
{0xB34,0xB34,"Cn",0,0,0},
{0xB35,0xB39,"Lo",0,0,0},
{0xB3A,0xB3B,"Cn",0,0,0},
{0xB3C,0xB3C,"Mn",0,0,0},
{0xB3D,0xB3D,"Lo",0,0,0},
{0xB3E,0xB3E,"Mc",0,0,0},
{0xB3F,0xB3F,"Mn",0,0,0},
{0xB40,0xB40,"Mc",0,0,0},
{0xB41,0xB44,"Mn",0,0,0},
{0xB45,0xB46,"Cn",0,0,0},
{0xB47,0xB48,"Mc",0,0,0},
{0xB49,0xB4A,"Cn",0,0,0},
{0xB4B,0xB4C,"Mc",0,0,0},
{0xB4D,0xB4D,"Mn",0,0,0},
{0xB4E,0xB54,"Cn",0,0,0},
{0xB55,0xB56,"Mn",0,0,0},
{0xB57,0xB57,"Mc",0,0,0},
{0xB58,0xB5B,"Cn",0,0,0},
{0xB5C,0xB5D,"Lo",0,0,0},
{0xB5E,0xB5E,"Cn",0,0,0},
{0xB5F,0xB61,"Lo",0,0,0},
{0xB62,0xB63,"Mn",0,0,0},
{0xB64,0xB65,"Cn",0,0,0},
{0xB66,0xB6F,"Nd",0,0,0},
{0xB70,0xB70,"So",0,0,0},
{0xB71,0xB71,"Lo",0,0,0},
{0xB72,0xB77,"No",0,0,0},
{0xB78,0xB81,"Cn",0,0,0},
{0xB82,0xB82,"Mn",0,0,0},
{0xB83,0xB83,"Lo",0,0,0},
{0xB84,0xB84,"Cn",0,0,0},
{0xB85,0xB8A,"Lo",0,0,0},
{0xB8B,0xB8D,"Cn",0,0,0},
{0xB8E,0xB90,"Lo",0,0,0},
{0xB91,0xB91,"Cn",0,0,0},
{0xB92,0xB95,"Lo",0,0,0},
{0xB96,0xB98,"Cn",0,0,0},
{0xB99,0xB9A,"Lo",0,0,0},
{0xB9B,0xB9B,"Cn",0,0,0},
{0xB9C,0xB9C,"Lo",0,0,0},
{0xB9D,0xB9D,"Cn",0,0,0},
{0xB9E,0xB9F,"Lo",0,0,0},
{0xBA0,0xBA2,"Cn",0,0,0},
{0xBA3,0xBA4,"Lo",0,0,0},
{0xBA5,0xBA7,"Cn",0,0,0},
{0xBA8,0xBAA,"Lo",0,0,0},
{0xBAB,0xBAD,"Cn",0,0,0},
{0xBAE,0xBB9,"Lo",0,0,0},
{0xBBA,0xBBD,"Cn",0,0,0},
{0xBBE,0xBBF,"Mc",0,0,0},
{0xBC0,0xBC0,"Mn",0,0,0},
{0xBC1,0xBC2,"Mc",0,0,0},
{0xBC3,0xBC5,"Cn",0,0,0},
{0xBC6,0xBC8,"Mc",0,0,0},
{0xBC9,0xBC9,"Cn",0,0,0},
{0xBCA,0xBCC,"Mc",0,0,0},
{0xBCD,0xBCD,"Mn",0,0,0},
{0xBCE,0xBCF,"Cn",0,0,0},
{0xBD0,0xBD0,"Lo",0,0,0},
{0xBD1,0xBD6,"Cn",0,0,0},
{0xBD7,0xBD7,"Mc",0,0,0},
{0xBD8,0xBE5,"Cn",0,0,0},
{0xBE6,0xBEF,"Nd",0,0,0},
{0xBF0,0xBF2,"No",0,0,0},
{0xBF3,0xBF8,"So",0,0,0},
{0xBF9,0xBF9,"Sc",0,0,0},
{0xBFA,0xBFA,"So",0,0,0},
{0xBFB,0xBFF,"Cn",0,0,0},
{0xC00,0xC00,"Mn",0,0,0},
{0xC01,0xC03,"Mc",0,0,0},
{0xC04,0xC04,"Mn",0,0,0},
{0xC05,0xC0C,"Lo",0,0,0},
{0xC0D,0xC0D,"Cn",0,0,0},
{0xC0E,0xC10,"Lo",0,0,0},
{0xC11,0xC11,"Cn",0,0,0},
{0xC12,0xC28,"Lo",0,0,0},
{0xC29,0xC29,"Cn",0,0,0},
{0xC2A,0xC39,"Lo",0,0,0},
{0xC3A,0xC3B,"Cn",0,0,0},
{0xC3C,0xC3C,"Mn",0,0,0},
{0xC3D,0xC3D,"Lo",0,0,0},
{0xC3E,0xC40,"Mn",0,0,0},
{0xC41,0xC44,"Mc",0,0,0},
{0xC45,0xC45,"Cn",0,0,0},
{0xC46,0xC48,"Mn",0,0,0},
{0xC49,0xC49,"Cn",0,0,0},
{0xC4A,0xC4D,"Mn",0,0,0},
{0xC4E,0xC54,"Cn",0,0,0},
{0xC55,0xC56,"Mn",0,0,0},
{0xC57,0xC57,"Cn",0,0,0},
{0xC58,0xC5A,"Lo",0,0,0},
{0xC5B,0xC5C,"Cn",0,0,0},
{0xC5D,0xC5D,"Lo",0,0,0},
{0xC5E,0xC5F,"Cn",0,0,0},
{0xC60,0xC61,"Lo",0,0,0},
{0xC62,0xC63,"Mn",0,0,0},
{0xC64,0xC65,"Cn",0,0,0},
{0xC66,0xC6F,"Nd",0,0,0},
{0xC70,0xC76,"Cn",0,0,0},
{0xC77,0xC77,"Po",0,0,0},
{0xC78,0xC7E,"No",0,0,0},
{0xC7F,0xC7F,"So",0,0,0},
{0xC80,0xC80,"Lo",0,0,0},
{0xC81,0xC81,"Mn",0,0,0},
{0xC82,0xC83,"Mc",0,0,0},
{0xC84,0xC84,"Po",0,0,0},
{0xC85,0xC8C,"Lo",0,0,0},
{0xC8D,0xC8D,"Cn",0,0,0},
{0xC8E,0xC90,"Lo",0,0,0},
{0xC91,0xC91,"Cn",0,0,0},
{0xC92,0xCA8,"Lo",0,0,0},
{0xCA9,0xCA9,"Cn",0,0,0},
{0xCAA,0xCB3,"Lo",0,0,0},
{0xCB4,0xCB4,"Cn",0,0,0},
{0xCB5,0xCB9,"Lo",0,0,0},
{0xCBA,0xCBB,"Cn",0,0,0},
{0xCBC,0xCBC,"Mn",0,0,0},
{0xCBD,0xCBD,"Lo",0,0,0},
{0xCBE,0xCBE,"Mc",0,0,0},
{0xCBF,0xCBF,"Mn",0,0,0},
{0xCC0,0xCC4,"Mc",0,0,0},
{0xCC5,0xCC5,"Cn",0,0,0},
{0xCC6,0xCC6,"Mn",0,0,0},
{0xCC7,0xCC8,"Mc",0,0,0},
{0xCC9,0xCC9,"Cn",0,0,0},
{0xCCA,0xCCB,"Mc",0,0,0},
{0xCCC,0xCCD,"Mn",0,0,0},
{0xCCE,0xCD4,"Cn",0,0,0},
{0xCD5,0xCD6,"Mc",0,0,0},
{0xCD7,0xCDC,"Cn",0,0,0},
{0xCDD,0xCDE,"Lo",0,0,0},
{0xCDF,0xCDF,"Cn",0,0,0},
{0xCE0,0xCE1,"Lo",0,0,0},
{0xCE2,0xCE3,"Mn",0,0,0},
{0xCE4,0xCE5,"Cn",0,0,0},
{0xCE6,0xCEF,"Nd",0,0,0},
{0xCF0,0xCF0,"Cn",0,0,0},
{0xCF1,0xCF2,"Lo",0,0,0},
{0xCF3,0xCF3,"Mc",0,0,0},
{0xCF4,0xCFF,"Cn",0,0,0},
{0xD00,0xD01,"Mn",0,0,0},
{0xD02,0xD03,"Mc",0,0,0},
{0xD04,0xD0C,"Lo",0,0,0},
{0xD0D,0xD0D,"Cn",0,0,0},
{0xD0E,0xD10,"Lo",0,0,0},
{0xD11,0xD11,"Cn",0,0,0},
{0xD12,0xD3A,"Lo",0,0,0},
{0xD3B,0xD3C,"Mn",0,0,0},
{0xD3D,0xD3D,"Lo",0,0,0},
{0xD3E,0xD40,"Mc",0,0,0},
{0xD41,0xD44,"Mn",0,0,0},
{0xD45,0xD45,"Cn",0,0,0},
{0xD46,0xD48,"Mc",0,0,0},
{0xD49,0xD49,"Cn",0,0,0},
{0xD4A,0xD4C,"Mc",0,0,0},
{0xD4D,0xD4D,"Mn",0,0,0},
{0xD4E,0xD4E,"Lo",0,0,0},
{0xD4F,0xD4F,"So",0,0,0},
{0xD50,0xD53,"Cn",0,0,0},
{0xD54,0xD56,"Lo",0,0,0},
{0xD57,0xD57,"Mc",0,0,0},
{0xD58,0xD5E,"No",0,0,0},
{0xD5F,0xD61,"Lo",0,0,0},
{0xD62,0xD63,"Mn",0,0,0},
{0xD64,0xD65,"Cn",0,0,0},
{0xD66,0xD6F,"Nd",0,0,0},
{0xD70,0xD78,"No",0,0,0},
{0xD79,0xD79,"So",0,0,0},
{0xD7A,0xD7F,"Lo",0,0,0},
{0xD80,0xD80,"Cn",0,0,0},
{0xD81,0xD81,"Mn",0,0,0},
{0xD82,0xD83,"Mc",0,0,0},
{0xD84,0xD84,"Cn",0,0,0},
{0xD85,0xD96,"Lo",0,0,0},
{0xD97,0xD99,"Cn",0,0,0},
{0xD9A,0xDB1,"Lo",0,0,0},
{0xDB2,0xDB2,"Cn",0,0,0},
{0xDB3,0xDBB,"Lo",0,0,0},
{0xDBC,0xDBC,"Cn",0,0,0},
{0xDBD,0xDBD,"Lo",0,0,0},
{0xDBE,0xDBF,"Cn",0,0,0},
{0xDC0,0xDC6,"Lo",0,0,0},
{0xDC7,0xDC9,"Cn",0,0,0},
{0xDCA,0xDCA,"Mn",0,0,0},
{0xDCB,0xDCE,"Cn",0,0,0},
{0xDCF,0xDD1,"Mc",0,0,0},
{0xDD2,0xDD4,"Mn",0,0,0},
{0xDD5,0xDD5,"Cn",0,0,0},
{0xDD6,0xDD6,"Mn",0,0,0},
{0xDD7,0xDD7,"Cn",0,0,0},
{0xDD8,0xDDF,"Mc",0,0,0},
{0xDE0,0xDE5,"Cn",0,0,0},
{0xDE6,0xDEF,"Nd",0,0,0},
{0xDF0,0xDF1,"Cn",0,0,0},
{0xDF2,0xDF3,"Mc",0,0,0},
{0xDF4,0xDF4,"Po",0,0,0},
{0xDF5,0xE00,"Cn",0,0,0},
{0xE01,0xE30,"Lo",0,0,0},
{0xE31,0xE31,"Mn",0,0,0},
{0xE32,0xE33,"Lo",0,0,0},
{0xE34,0xE3A,"Mn",0,0,0},
{0xE3B,0xE3E,"Cn",0,0,0},
{0xE3F,0xE3F,"Sc",0,0,0},
{0xE40,0xE45,"Lo",0,0,0},
{0xE46,0xE46,"Lm",0,0,0},
{0xE47,0xE4E,"Mn",0,0,0},
{0xE4F,0xE4F,"Po",0,0,0},
{0xE50,0xE59,"Nd",0,0,0},
{0xE5A,0xE5B,"Po",0,0,0},
{0xE5C,0xE80,"Cn",0,0,0},
{0xE81,0xE82,"Lo",0,0,0},
{0xE83,0xE83,"Cn",0,0,0},
{0xE84,0xE84,"Lo",0,0,0},
{0xE85,0xE85,"Cn",0,0,0},
{0xE86,0xE8A,"Lo",0,0,0},
{0xE8B,0xE8B,"Cn",0,0,0},
{0xE8C,0xEA3,"Lo",0,0,0},
{0xEA4,0xEA4,"Cn",0,0,0},
{0xEA5,0xEA5,"Lo",0,0,0},
{0xEA6,0xEA6,"Cn",0,0,0},
{0xEA7,0xEB0,"Lo",0,0,0},
{0xEB1,0xEB1,"Mn",0,0,0},
{0xEB2,0xEB3,"Lo",0,0,0},
{0xEB4,0xEBC,"Mn",0,0,0},
{0xEBD,0xEBD,"Lo",0,0,0},
{0xEBE,0xEBF,"Cn",0,0,0},
{0xEC0,0xEC4,"Lo",0,0,0},
{0xEC5,0xEC5,"Cn",0,0,0},
{0xEC6,0xEC6,"Lm",0,0,0},
{0xEC7,0xEC7,"Cn",0,0,0},
{0xEC8,0xECE,"Mn",0,0,0},
{0xECF,0xECF,"Cn",0,0,0},
{0xED0,0xED9,"Nd",0,0,0},
{0xEDA,0xEDB,"Cn",0,0,0},
{0xEDC,0xEDF,"Lo",0,0,0},
{0xEE0,0xEFF,"Cn",0,0,0},
{0xF00,0xF00,"Lo",0,0,0},
{0xF01,0xF03,"So",0,0,0},
{0xF04,0xF12,"Po",0,0,0},
{0xF13,0xF13,"So",0,0,0},
{0xF14,0xF14,"Po",0,0,0},
{0xF15,0xF17,"So",0,0,0},
{0xF18,0xF19,"Mn",0,0,0},
{0xF1A,0xF1F,"So",0,0,0},
{0xF20,0xF29,"Nd",0,0,0},
{0xF2A,0xF33,"No",0,0,0},
{0xF34,0xF34,"So",0,0,0},
{0xF35,0xF35,"Mn",0,0,0},
{0xF36,0xF36,"So",0,0,0},
{0xF37,0xF37,"Mn",0,0,0},
{0xF38,0xF38,"So",0,0,0},
{0xF39,0xF39,"Mn",0,0,0},
{0xF3A,0xF3A,"Ps",0,0,0},
{0xF3B,0xF3B,"Pe",0,0,0},
{0xF3C,0xF3C,"Ps",0,0,0},
{0xF3D,0xF3D,"Pe",0,0,0},
{0xF3E,0xF3F,"Mc",0,0,0},
{0xF40,0xF47,"Lo",0,0,0},
{0xF48,0xF48,"Cn",0,0,0},
{0xF49,0xF6C,"Lo",0,0,0},
{0xF6D,0xF70,"Cn",0,0,0},
{0xF71,0xF7E,"Mn",0,0,0},
{0xF7F,0xF7F,"Mc",0,0,0},
{0xF80,0xF84,"Mn",0,0,0},
{0xF85,0xF85,"Po",0,0,0},
{0xF86,0xF87,"Mn",0,0,0},
{0xF88,0xF8C,"Lo",0,0,0},
{0xF8D,0xF97,"Mn",0,0,0},
{0xF98,0xF98,"Cn",0,0,0},
{0xF99,0xFBC,"Mn",0,0,0},
{0xFBD,0xFBD,"Cn",0,0,0},
{0xFBE,0xFC5,"So",0,0,0},
{0xFC6,0xFC6,"Mn",0,0,0},
{0xFC7,0xFCC,"So",0,0,0},
{0xFCD,0xFCD,"Cn",0,0,0},
{0xFCE,0xFCF,"So",0,0,0},
{0xFD0,0xFD4,"Po",0,0,0},
{0xFD5,0xFD8,"So",0,0,0},
{0xFD9,0xFDA,"Po",0,0,0},
{0xFDB,0xFFF,"Cn",0,0,0},
{0x1000,0x102A,"Lo",0,0,0},
{0x102B,0x102C,"Mc",0,0,0},
{0x102D,0x1030,"Mn",0,0,0},
{0x1031,0x1031,"Mc",0,0,0},
{0x1032,0x1037,"Mn",0,0,0},
{0x1038,0x1038,"Mc",0,0,0},
{0x1039,0x103A,"Mn",0,0,0},
{0x103B,0x103C,"Mc",0,0,0},
{0x103D,0x103E,"Mn",0,0,0},
{0x103F,0x103F,"Lo",0,0,0},
{0x1040,0x1049,"Nd",0,0,0},
{0x104A,0x104F,"Po",0,0,0},
{0x1050,0x1055,"Lo",0,0,0},
{0x1056,0x1057,"Mc",0,0,0},
{0x1058,0x1059,"Mn",0,0,0},
{0x105A,0x105D,"Lo",0,0,0},
{0x105E,0x1060,"Mn",0,0,0},
{0x1061,0x1061,"Lo",0,0,0},
{0x1062,0x1064,"Mc",0,0,0},
{0x1065,0x1066,"Lo",0,0,0},
{0x1067,0x106D,"Mc",0,0,0},
{0x106E,0x1070,"Lo",0,0,0},
{0x1071,0x1074,"Mn",0,0,0},
{0x1075,0x1081,"Lo",0,0,0},
{0x1082,0x1082,"Mn",0,0,0},
{0x1083,0x1084,"Mc",0,0,0},
{0x1085,0x1086,"Mn",0,0,0},
{0x1087,0x108C,"Mc",0,0,0},
{0x108D,0x108D,"Mn",0,0,0},
{0x108E,0x108E,"Lo",0,0,0},
{0x108F,0x108F,"Mc",0,0,0},
{0x1090,0x1099,"Nd",0,0,0},
{0x109A,0x109C,"Mc",0,0,0},
{0x109D,0x109D,"Mn",0,0,0},
{0x109E,0x109F,"So",0,0,0},
{0x10A0,0x10C5,"Lu",0,7264,0},
{0x10C6,0x10C6,"Cn",0,0,0},
{0x10C7,0x10C7,"Lu",0,7264,0},
{0x10C8,0x10CC,"Cn",0,0,0},
{0x10CD,0x10CD,"Lu",0,7264,0},
{0x10CE,0x10CF,"Cn",0,0,0},
{0x10D0,0x10FA,"Ll",3008,0,0},
{0x10FB,0x10FB,"Po",0,0,0},
{0x10FC,0x10FC,"Lm",0,0,0},
{0x10FD,0x10FF,"Ll",3008,0,0},
{0x1100,0x1248,"Lo",0,0,0},
{0x1249,0x1249,"Cn",0,0,0},
{0x124A,0x124D,"Lo",0,0,0},
{0x124E,0x124F,"Cn",0,0,0},
{0x1250,0x1256,"Lo",0,0,0},
{0x1257,0x1257,"Cn",0,0,0},
{0x1258,0x1258,"Lo",0,0,0},
{0x1259,0x1259,"Cn",0,0,0},
{0x125A,0x125D,"Lo",0,0,0},
{0x125E,0x125F,"Cn",0,0,0},
{0x1260,0x1288,"Lo",0,0,0},
{0x1289,0x1289,"Cn",0,0,0},
{0x128A,0x128D,"Lo",0,0,0},
{0x128E,0x128F,"Cn",0,0,0},
{0x1290,0x12B0,"Lo",0,0,0},
{0x12B1,0x12B1,"Cn",0,0,0},
{0x12B2,0x12B5,"Lo",0,0,0},
{0x12B6,0x12B7,"Cn",0,0,0},
{0x12B8,0x12BE,"Lo",0,0,0},
{0x12BF,0x12BF,"Cn",0,0,0},
{0x12C0,0x12C0,"Lo",0,0,0},
{0x12C1,0x12C1,"Cn",0,0,0},
{0x12C2,0x12C5,"Lo",0,0,0},
{0x12C6,0x12C7,"Cn",0,0,0},
{0x12C8,0x12D6,"Lo",0,0,0},
{0x12D7,0x12D7,"Cn",0,0,0},
{0x12D8,0x1310,"Lo",0,0,0},
{0x1311,0x1311,"Cn",0,0,0},
{0x1312,0x1315,"Lo",0,0,0},
{0x1316,0x1317,"Cn",0,0,0},
{0x1318,0x135A,"Lo",0,0,0},
{0x135B,0x135C,"Cn",0,0,0},
{0x135D,0x135F,"Mn",0,0,0},
{0x1360,0x1368,"Po",0,0,0},
{0x1369,0x137C,"No",0,0,0},
{0x137D,0x137F,"Cn",0,0,0},
{0x1380,0x138F,"Lo",0,0,0},
{0x1390,0x1399,"So",0,0,0},
{0x139A,0x139F,"Cn",0,0,0},
{0x13A0,0x13EF,"Lu",0,38864,0},
{0x13F0,0x13F5,"Lu",0,8,0},
{0x13F6,0x13F7,"Cn",0,0,0},
{0x13F8,0x13FD,"Ll",-8,0,-8},
{0x13FE,0x13FF,"Cn",0,0,0},
{0x1400,0x1400,"Pd",0,0,0},
{0x1401,0x166C,"Lo",0,0,0},
{0x166D,0x166D,"So",0,0,0},
{0x166E,0x166E,"Po",0,0,0},
{0x166F,0x167F,"Lo",0,0,0},
{0x1680,0x1680,"Zs",0,0,0},
{0x1681,0x169A,"Lo",0,0,0},
{0x169B,0x169B,"Ps",0,0,0},
{0x169C,0x169C,"Pe",0,0,0},
{0x169D,0x169F,"Cn",0,0,0},
{0x16A0,0x16EA,"Lo",0,0,0},
{0x16EB,0x16ED,"Po",0,0,0},
{0x16EE,0x16F0,"Nl",0,0,0},
{0x16F1,0x16F8,"Lo",0,0,0},
{0x16F9,0x16FF,"Cn",0,0,0},
{0x1700,0x1711,"Lo",0,0,0},
{0x1712,0x1714,"Mn",0,0,0},
{0x1715,0x1715,"Mc",0,0,0},
{0x1716,0x171E,"Cn",0,0,0},
{0x171F,0x1731,"Lo",0,0,0},
{0x1732,0x1733,"Mn",0,0,0},
{0x1734,0x1734,"Mc",0,0,0},
{0x1735,0x1736,"Po",0,0,0},
{0x1737,0x173F,"Cn",0,0,0},
{0x1740,0x1751,"Lo",0,0,0},
{0x1752,0x1753,"Mn",0,0,0},
{0x1754,0x175F,"Cn",0,0,0},
{0x1760,0x176C,"Lo",0,0,0},
{0x176D,0x176D,"Cn",0,0,0},
{0x176E,0x1770,"Lo",0,0,0},
{0x1771,0x1771,"Cn",0,0,0},
{0x1772,0x1773,"Mn",0,0,0},
{0x1774,0x177F,"Cn",0,0,0},
{0x1780,0x17B3,"Lo",0,0,0},
{0x17B4,0x17B5,"Mn",0,0,0},
{0x17B6,0x17B6,"Mc",0,0,0},
{0x17B7,0x17BD,"Mn",0,0,0},
{0x17BE,0x17C5,"Mc",0,0,0},
{0x17C6,0x17C6,"Mn",0,0,0},
{0x17C7,0x17C8,"Mc",0,0,0},
{0x17C9,0x17D3,"Mn",0,0,0},
{0x17D4,0x17D6,"Po",0,0,0},
{0x17D7,0x17D7,"Lm",0,0,0},
{0x17D8,0x17DA,"Po",0,0,0},
{0x17DB,0x17DB,"Sc",0,0,0},
{0x17DC,0x17DC,"Lo",0,0,0},
{0x17DD,0x17DD,"Mn",0,0,0},
{0x17DE,0x17DF,"Cn",0,0,0},
{0x17E0,0x17E9,"Nd",0,0,0},
{0x17EA,0x17EF,"Cn",0,0,0},
{0x17F0,0x17F9,"No",0,0,0},
{0x17FA,0x17FF,"Cn",0,0,0},
{0x1800,0x1805,"Po",0,0,0},
{0x1806,0x1806,"Pd",0,0,0},
{0x1807,0x180A,"Po",0,0,0},
{0x180B,0x180D,"Mn",0,0,0},
{0x180E,0x180E,"Cf",0,0,0},
{0x180F,0x180F,"Mn",0,0,0},
{0x1810,0x1819,"Nd",0,0,0},
{0x181A,0x181F,"Cn",0,0,0},
{0x1820,0x1842,"Lo",0,0,0},
{0x1843,0x1843,"Lm",0,0,0},
{0x1844,0x1878,"Lo",0,0,0},
{0x1879,0x187F,"Cn",0,0,0},
{0x1880,0x1884,"Lo",0,0,0},
{0x1885,0x1886,"Mn",0,0,0},
{0x1887,0x18A8,"Lo",0,0,0},
{0x18A9,0x18A9,"Mn",0,0,0},
{0x18AA,0x18AA,"Lo",0,0,0},
{0x18AB,0x18AF,"Cn",0,0,0},
{0x18B0,0x18F5,"Lo",0,0,0},
{0x18F6,0x18FF,"Cn",0,0,0},
{0x1900,0x191E,"Lo",0,0,0},
{0x191F,0x191F,"Cn",0,0,0},
{0x1920,0x1922,"Mn",0,0,0},
{0x1923,0x1926,"Mc",0,0,0},
{0x1927,0x1928,"Mn",0,0,0},
{0x1929,0x192B,"Mc",0,0,0},
{0x192C,0x192F,"Cn",0,0,0},
{0x1930,0x1931,"Mc",0,0,0},
{0x1932,0x1932,"Mn",0,0,0},
{0x1933,0x1938,"Mc",0,0,0},
{0x1939,0x193B,"Mn",0,0,0},
{0x193C,0x193F,"Cn",0,0,0},
{0x1940,0x1940,"So",0,0,0},
{0x1941,0x1943,"Cn",0,0,0},
{0x1944,0x1945,"Po",0,0,0},
{0x1946,0x194F,"Nd",0,0,0},
{0x1950,0x196D,"Lo",0,0,0},
{0x196E,0x196F,"Cn",0,0,0},
{0x1970,0x1974,"Lo",0,0,0},
{0x1975,0x197F,"Cn",0,0,0},
{0x1980,0x19AB,"Lo",0,0,0},
{0x19AC,0x19AF,"Cn",0,0,0},
{0x19B0,0x19C9,"Lo",0,0,0},
{0x19CA,0x19CF,"Cn",0,0,0},
{0x19D0,0x19D9,"Nd",0,0,0},
{0x19DA,0x19DA,"No",0,0,0},
{0x19DB,0x19DD,"Cn",0,0,0},
{0x19DE,0x19FF,"So",0,0,0},
{0x1A00,0x1A16,"Lo",0,0,0},
{0x1A17,0x1A18,"Mn",0,0,0},
{0x1A19,0x1A1A,"Mc",0,0,0},
{0x1A1B,0x1A1B,"Mn",0,0,0},
{0x1A1C,0x1A1D,"Cn",0,0,0},
{0x1A1E,0x1A1F,"Po",0,0,0},
{0x1A20,0x1A54,"Lo",0,0,0},
{0x1A55,0x1A55,"Mc",0,0,0},
{0x1A56,0x1A56,"Mn",0,0,0},
{0x1A57,0x1A57,"Mc",0,0,0},
{0x1A58,0x1A5E,"Mn",0,0,0},
{0x1A5F,0x1A5F,"Cn",0,0,0},
{0x1A60,0x1A60,"Mn",0,0,0},
{0x1A61,0x1A61,"Mc",0,0,0},
{0x1A62,0x1A62,"Mn",0,0,0},
{0x1A63,0x1A64,"Mc",0,0,0},
{0x1A65,0x1A6C,"Mn",0,0,0},
{0x1A6D,0x1A72,"Mc",0,0,0},
{0x1A73,0x1A7C,"Mn",0,0,0},
{0x1A7D,0x1A7E,"Cn",0,0,0},
{0x1A7F,0x1A7F,"Mn",0,0,0},
{0x1A80,0x1A89,"Nd",0,0,0},
{0x1A8A,0x1A8F,"Cn",0,0,0},
{0x1A90,0x1A99,"Nd",0,0,0},
{0x1A9A,0x1A9F,"Cn",0,0,0},
{0x1AA0,0x1AA6,"Po",0,0,0},
{0x1AA7,0x1AA7,"Lm",0,0,0},
{0x1AA8,0x1AAD,"Po",0,0,0},
{0x1AAE,0x1AAF,"Cn",0,0,0},
{0x1AB0,0x1ABD,"Mn",0,0,0},
{0x1ABE,0x1ABE,"Me",0,0,0},
{0x1ABF,0x1ACE,"Mn",0,0,0},
{0x1ACF,0x1AFF,"Cn",0,0,0},
{0x1B00,0x1B03,"Mn",0,0,0},
{0x1B04,0x1B04,"Mc",0,0,0},
{0x1B05,0x1B33,"Lo",0,0,0},
{0x1B34,0x1B34,"Mn",0,0,0},
{0x1B35,0x1B35,"Mc",0,0,0},
{0x1B36,0x1B3A,"Mn",0,0,0},
{0x1B3B,0x1B3B,"Mc",0,0,0},
{0x1B3C,0x1B3C,"Mn",0,0,0},
{0x1B3D,0x1B41,"Mc",0,0,0},
{0x1B42,0x1B42,"Mn",0,0,0},
{0x1B43,0x1B44,"Mc",0,0,0},
{0x1B45,0x1B4C,"Lo",0,0,0},
{0x1B4D,0x1B4F,"Cn",0,0,0},
{0x1B50,0x1B59,"Nd",0,0,0},
{0x1B5A,0x1B60,"Po",0,0,0},
{0x1B61,0x1B6A,"So",0,0,0},
{0x1B6B,0x1B73,"Mn",0,0,0},
{0x1B74,0x1B7C,"So",0,0,0},
{0x1B7D,0x1B7E,"Po",0,0,0},
{0x1B7F,0x1B7F,"Cn",0,0,0},
{0x1B80,0x1B81,"Mn",0,0,0},
{0x1B82,0x1B82,"Mc",0,0,0},
{0x1B83,0x1BA0,"Lo",0,0,0},
{0x1BA1,0x1BA1,"Mc",0,0,0},
{0x1BA2,0x1BA5,"Mn",0,0,0},
{0x1BA6,0x1BA7,"Mc",0,0,0},
{0x1BA8,0x1BA9,"Mn",0,0,0},
{0x1BAA,0x1BAA,"Mc",0,0,0},
{0x1BAB,0x1BAD,"Mn",0,0,0},
{0x1BAE,0x1BAF,"Lo",0,0,0},
{0x1BB0,0x1BB9,"Nd",0,0,0},
{0x1BBA,0x1BE5,"Lo",0,0,0},
{0x1BE6,0x1BE6,"Mn",0,0,0},
{0x1BE7,0x1BE7,"Mc",0,0,0},
{0x1BE8,0x1BE9,"Mn",0,0,0},
{0x1BEA,0x1BEC,"Mc",0,0,0},
{0x1BED,0x1BED,"Mn",0,0,0},
{0x1BEE,0x1BEE,"Mc",0,0,0},
{0x1BEF,0x1BF1,"Mn",0,0,0},
{0x1BF2,0x1BF3,"Mc",0,0,0},
{0x1BF4,0x1BFB,"Cn",0,0,0},
{0x1BFC,0x1BFF,"Po",0,0,0},
{0x1C00,0x1C23,"Lo",0,0,0},
{0x1C24,0x1C2B,"Mc",0,0,0},
{0x1C2C,0x1C33,"Mn",0,0,0},
{0x1C34,0x1C35,"Mc",0,0,0},
{0x1C36,0x1C37,"Mn",0,0,0},
{0x1C38,0x1C3A,"Cn",0,0,0},
{0x1C3B,0x1C3F,"Po",0,0,0},
{0x1C40,0x1C49,"Nd",0,0,0},
{0x1C4A,0x1C4C,"Cn",0,0,0},
{0x1C4D,0x1C4F,"Lo",0,0,0},
{0x1C50,0x1C59,"Nd",0,0,0},
{0x1C5A,0x1C77,"Lo",0,0,0},
{0x1C78,0x1C7D,"Lm",0,0,0},
{0x1C7E,0x1C7F,"Po",0,0,0},
{0x1C80,0x1C80,"Ll",-6254,0,-6254},
{0x1C81,0x1C81,"Ll",-6253,0,-6253},
{0x1C82,0x1C82,"Ll",-6244,0,-6244},
{0x1C83,0x1C84,"Ll",-6242,0,-6242},
{0x1C85,0x1C85,"Ll",-6243,0,-6243},
{0x1C86,0x1C86,"Ll",-6236,0,-6236},
{0x1C87,0x1C87,"Ll",-6181,0,-6181},
{0x1C88,0x1C88,"Ll",35266,0,35266},
{0x1C89,0x1C8F,"Cn",0,0,0},
{0x1C90,0x1CBA,"Lu",0,-3008,0},
{0x1CBB,0x1CBC,"Cn",0,0,0},
{0x1CBD,0x1CBF,"Lu",0,-3008,0},
{0x1CC0,0x1CC7,"Po",0,0,0},
{0x1CC8,0x1CCF,"Cn",0,0,0},
{0x1CD0,0x1CD2,"Mn",0,0,0},
{0x1CD3,0x1CD3,"Po",0,0,0},
{0x1CD4,0x1CE0,"Mn",0,0,0},
{0x1CE1,0x1CE1,"Mc",0,0,0},
{0x1CE2,0x1CE8,"Mn",0,0,0},
{0x1CE9,0x1CEC,"Lo",0,0,0},
{0x1CED,0x1CED,"Mn",0,0,0},
{0x1CEE,0x1CF3,"Lo",0,0,0},
{0x1CF4,0x1CF4,"Mn",0,0,0},
{0x1CF5,0x1CF6,"Lo",0,0,0},
{0x1CF7,0x1CF7,"Mc",0,0,0},
{0x1CF8,0x1CF9,"Mn",0,0,0},
{0x1CFA,0x1CFA,"Lo",0,0,0},
{0x1CFB,0x1CFF,"Cn",0,0,0},
{0x1D00,0x1D2B,"Ll",0,0,0},
{0x1D2C,0x1D6A,"Lm",0,0,0},
{0x1D6B,0x1D77,"Ll",0,0,0},
{0x1D78,0x1D78,"Lm",0,0,0},
{0x1D79,0x1D79,"Ll",35332,0,35332},
{0x1D7A,0x1D7C,"Ll",0,0,0},
{0x1D7D,0x1D7D,"Ll",3814,0,3814},
{0x1D7E,0x1D8D,"Ll",0,0,0},
{0x1D8E,0x1D8E,"Ll",35384,0,35384},
{0x1D8F,0x1D9A,"Ll",0,0,0},
{0x1D9B,0x1DBF,"Lm",0,0,0},
{0x1DC0,0x1DFF,"Mn",0,0,0},
{0x1E00,0x1E00,"Lu",0,1,0},
{0x1E01,0x1E01,"Ll",-1,0,-1},
{0x1E02,0x1E02,"Lu",0,1,0},
{0x1E03,0x1E03,"Ll",-1,0,-1},
{0x1E04,0x1E04,"Lu",0,1,0},
{0x1E05,0x1E05,"Ll",-1,0,-1},
{0x1E06,0x1E06,"Lu",0,1,0},
{0x1E07,0x1E07,"Ll",-1,0,-1},
{0x1E08,0x1E08,"Lu",0,1,0},
{0x1E09,0x1E09,"Ll",-1,0,-1},
{0x1E0A,0x1E0A,"Lu",0,1,0},
{0x1E0B,0x1E0B,"Ll",-1,0,-1},
{0x1E0C,0x1E0C,"Lu",0,1,0},
{0x1E0D,0x1E0D,"Ll",-1,0,-1},
{0x1E0E,0x1E0E,"Lu",0,1,0},
{0x1E0F,0x1E0F,"Ll",-1,0,-1},
{0x1E10,0x1E10,"Lu",0,1,0},
{0x1E11,0x1E11,"Ll",-1,0,-1},
{0x1E12,0x1E12,"Lu",0,1,0},
{0x1E13,0x1E13,"Ll",-1,0,-1},
{0x1E14,0x1E14,"Lu",0,1,0},
{0x1E15,0x1E15,"Ll",-1,0,-1},
{0x1E16,0x1E16,"Lu",0,1,0},
{0x1E17,0x1E17,"Ll",-1,0,-1},
{0x1E18,0x1E18,"Lu",0,1,0},
{0x1E19,0x1E19,"Ll",-1,0,-1},
{0x1E1A,0x1E1A,"Lu",0,1,0},
{0x1E1B,0x1E1B,"Ll",-1,0,-1},
{0x1E1C,0x1E1C,"Lu",0,1,0},
{0x1E1D,0x1E1D,"Ll",-1,0,-1},
{0x1E1E,0x1E1E,"Lu",0,1,0},
{0x1E1F,0x1E1F,"Ll",-1,0,-1},
{0x1E20,0x1E20,"Lu",0,1,0},
{0x1E21,0x1E21,"Ll",-1,0,-1},
{0x1E22,0x1E22,"Lu",0,1,0},
{0x1E23,0x1E23,"Ll",-1,0,-1},
{0x1E24,0x1E24,"Lu",0,1,0},
{0x1E25,0x1E25,"Ll",-1,0,-1},
{0x1E26,0x1E26,"Lu",0,1,0},
{0x1E27,0x1E27,"Ll",-1,0,-1},
{0x1E28,0x1E28,"Lu",0,1,0},
{0x1E29,0x1E29,"Ll",-1,0,-1},
{0x1E2A,0x1E2A,"Lu",0,1,0},
{0x1E2B,0x1E2B,"Ll",-1,0,-1},
{0x1E2C,0x1E2C,"Lu",0,1,0},
{0x1E2D,0x1E2D,"Ll",-1,0,-1},
{0x1E2E,0x1E2E,"Lu",0,1,0},
{0x1E2F,0x1E2F,"Ll",-1,0,-1},
{0x1E30,0x1E30,"Lu",0,1,0},
{0x1E31,0x1E31,"Ll",-1,0,-1},
{0x1E32,0x1E32,"Lu",0,1,0},
{0x1E33,0x1E33,"Ll",-1,0,-1},
{0x1E34,0x1E34,"Lu",0,1,0},
{0x1E35,0x1E35,"Ll",-1,0,-1},
{0x1E36,0x1E36,"Lu",0,1,0},
{0x1E37,0x1E37,"Ll",-1,0,-1},
{0x1E38,0x1E38,"Lu",0,1,0},
{0x1E39,0x1E39,"Ll",-1,0,-1},
{0x1E3A,0x1E3A,"Lu",0,1,0},
{0x1E3B,0x1E3B,"Ll",-1,0,-1},
{0x1E3C,0x1E3C,"Lu",0,1,0},
{0x1E3D,0x1E3D,"Ll",-1,0,-1},
{0x1E3E,0x1E3E,"Lu",0,1,0},
{0x1E3F,0x1E3F,"Ll",-1,0,-1},
{0x1E40,0x1E40,"Lu",0,1,0},
{0x1E41,0x1E41,"Ll",-1,0,-1},
{0x1E42,0x1E42,"Lu",0,1,0},
{0x1E43,0x1E43,"Ll",-1,0,-1},
{0x1E44,0x1E44,"Lu",0,1,0},
{0x1E45,0x1E45,"Ll",-1,0,-1},
{0x1E46,0x1E46,"Lu",0,1,0},
{0x1E47,0x1E47,"Ll",-1,0,-1},
{0x1E48,0x1E48,"Lu",0,1,0},
{0x1E49,0x1E49,"Ll",-1,0,-1},
{0x1E4A,0x1E4A,"Lu",0,1,0},
{0x1E4B,0x1E4B,"Ll",-1,0,-1},
{0x1E4C,0x1E4C,"Lu",0,1,0},
{0x1E4D,0x1E4D,"Ll",-1,0,-1},
{0x1E4E,0x1E4E,"Lu",0,1,0},
{0x1E4F,0x1E4F,"Ll",-1,0,-1},
{0x1E50,0x1E50,"Lu",0,1,0},
{0x1E51,0x1E51,"Ll",-1,0,-1},
{0x1E52,0x1E52,"Lu",0,1,0},
{0x1E53,0x1E53,"Ll",-1,0,-1},
{0x1E54,0x1E54,"Lu",0,1,0},
{0x1E55,0x1E55,"Ll",-1,0,-1},
{0x1E56,0x1E56,"Lu",0,1,0},
{0x1E57,0x1E57,"Ll",-1,0,-1},
{0x1E58,0x1E58,"Lu",0,1,0},
{0x1E59,0x1E59,"Ll",-1,0,-1},
{0x1E5A,0x1E5A,"Lu",0,1,0},
{0x1E5B,0x1E5B,"Ll",-1,0,-1},
{0x1E5C,0x1E5C,"Lu",0,1,0},
{0x1E5D,0x1E5D,"Ll",-1,0,-1},
{0x1E5E,0x1E5E,"Lu",0,1,0},
{0x1E5F,0x1E5F,"Ll",-1,0,-1},
{0x1E60,0x1E60,"Lu",0,1,0},
{0x1E61,0x1E61,"Ll",-1,0,-1},
{0x1E62,0x1E62,"Lu",0,1,0},
{0x1E63,0x1E63,"Ll",-1,0,-1},
{0x1E64,0x1E64,"Lu",0,1,0},
{0x1E65,0x1E65,"Ll",-1,0,-1},
{0x1E66,0x1E66,"Lu",0,1,0},
{0x1E67,0x1E67,"Ll",-1,0,-1},
{0x1E68,0x1E68,"Lu",0,1,0},
{0x1E69,0x1E69,"Ll",-1,0,-1},
{0x1E6A,0x1E6A,"Lu",0,1,0},
{0x1E6B,0x1E6B,"Ll",-1,0,-1},
{0x1E6C,0x1E6C,"Lu",0,1,0},
{0x1E6D,0x1E6D,"Ll",-1,0,-1},
{0x1E6E,0x1E6E,"Lu",0,1,0},
{0x1E6F,0x1E6F,"Ll",-1,0,-1},
{0x1E70,0x1E70,"Lu",0,1,0},
{0x1E71,0x1E71,"Ll",-1,0,-1},
{0x1E72,0x1E72,"Lu",0,1,0},
{0x1E73,0x1E73,"Ll",-1,0,-1},
{0x1E74,0x1E74,"Lu",0,1,0},
{0x1E75,0x1E75,"Ll",-1,0,-1},
{0x1E76,0x1E76,"Lu",0,1,0},
{0x1E77,0x1E77,"Ll",-1,0,-1},
{0x1E78,0x1E78,"Lu",0,1,0},
{0x1E79,0x1E79,"Ll",-1,0,-1},
{0x1E7A,0x1E7A,"Lu",0,1,0},
{0x1E7B,0x1E7B,"Ll",-1,0,-1},
{0x1E7C,0x1E7C,"Lu",0,1,0},
{0x1E7D,0x1E7D,"Ll",-1,0,-1},
{0x1E7E,0x1E7E,"Lu",0,1,0},
{0x1E7F,0x1E7F,"Ll",-1,0,-1},
{0x1E80,0x1E80,"Lu",0,1,0},
{0x1E81,0x1E81,"Ll",-1,0,-1},
{0x1E82,0x1E82,"Lu",0,1,0},
{0x1E83,0x1E83,"Ll",-1,0,-1},
{0x1E84,0x1E84,"Lu",0,1,0},
{0x1E85,0x1E85,"Ll",-1,0,-1},
{0x1E86,0x1E86,"Lu",0,1,0},
{0x1E87,0x1E87,"Ll",-1,0,-1},
{0x1E88,0x1E88,"Lu",0,1,0},
{0x1E89,0x1E89,"Ll",-1,0,-1},
{0x1E8A,0x1E8A,"Lu",0,1,0},
{0x1E8B,0x1E8B,"Ll",-1,0,-1},
{0x1E8C,0x1E8C,"Lu",0,1,0},
{0x1E8D,0x1E8D,"Ll",-1,0,-1},
{0x1E8E,0x1E8E,"Lu",0,1,0},
{0x1E8F,0x1E8F,"Ll",-1,0,-1},
{0x1E90,0x1E90,"Lu",0,1,0},
{0x1E91,0x1E91,"Ll",-1,0,-1},
{0x1E92,0x1E92,"Lu",0,1,0},
{0x1E93,0x1E93,"Ll",-1,0,-1},
{0x1E94,0x1E94,"Lu",0,1,0},
{0x1E95,0x1E95,"Ll",-1,0,-1},
{0x1E96,0x1E9A,"Ll",UD,0,UD},
{0x1E9B,0x1E9B,"Ll",-59,0,-59},
{0x1E9C,0x1E9D,"Ll",0,0,0},
{0x1E9E,0x1E9E,"Lu",0,-7615,0},
{0x1E9F,0x1E9F,"Ll",0,0,0},
{0x1EA0,0x1EA0,"Lu",0,1,0},
{0x1EA1,0x1EA1,"Ll",-1,0,-1},
{0x1EA2,0x1EA2,"Lu",0,1,0},
{0x1EA3,0x1EA3,"Ll",-1,0,-1},
{0x1EA4,0x1EA4,"Lu",0,1,0},
{0x1EA5,0x1EA5,"Ll",-1,0,-1},
{0x1EA6,0x1EA6,"Lu",0,1,0},
{0x1EA7,0x1EA7,"Ll",-1,0,-1},
{0x1EA8,0x1EA8,"Lu",0,1,0},
{0x1EA9,0x1EA9,"Ll",-1,0,-1},
{0x1EAA,0x1EAA,"Lu",0,1,0},
{0x1EAB,0x1EAB,"Ll",-1,0,-1},
{0x1EAC,0x1EAC,"Lu",0,1,0},
{0x1EAD,0x1EAD,"Ll",-1,0,-1},
{0x1EAE,0x1EAE,"Lu",0,1,0},
{0x1EAF,0x1EAF,"Ll",-1,0,-1},
{0x1EB0,0x1EB0,"Lu",0,1,0},
{0x1EB1,0x1EB1,"Ll",-1,0,-1},
{0x1EB2,0x1EB2,"Lu",0,1,0},
{0x1EB3,0x1EB3,"Ll",-1,0,-1},
{0x1EB4,0x1EB4,"Lu",0,1,0},
{0x1EB5,0x1EB5,"Ll",-1,0,-1},
{0x1EB6,0x1EB6,"Lu",0,1,0},
{0x1EB7,0x1EB7,"Ll",-1,0,-1},
{0x1EB8,0x1EB8,"Lu",0,1,0},
{0x1EB9,0x1EB9,"Ll",-1,0,-1},
{0x1EBA,0x1EBA,"Lu",0,1,0},
{0x1EBB,0x1EBB,"Ll",-1,0,-1},
{0x1EBC,0x1EBC,"Lu",0,1,0},
{0x1EBD,0x1EBD,"Ll",-1,0,-1},
{0x1EBE,0x1EBE,"Lu",0,1,0},
{0x1EBF,0x1EBF,"Ll",-1,0,-1},
{0x1EC0,0x1EC0,"Lu",0,1,0},
{0x1EC1,0x1EC1,"Ll",-1,0,-1},
{0x1EC2,0x1EC2,"Lu",0,1,0},
{0x1EC3,0x1EC3,"Ll",-1,0,-1},
{0x1EC4,0x1EC4,"Lu",0,1,0},
{0x1EC5,0x1EC5,"Ll",-1,0,-1},
{0x1EC6,0x1EC6,"Lu",0,1,0},
{0x1EC7,0x1EC7,"Ll",-1,0,-1},
{0x1EC8,0x1EC8,"Lu",0,1,0},
{0x1EC9,0x1EC9,"Ll",-1,0,-1},
{0x1ECA,0x1ECA,"Lu",0,1,0},
{0x1ECB,0x1ECB,"Ll",-1,0,-1},
{0x1ECC,0x1ECC,"Lu",0,1,0},
{0x1ECD,0x1ECD,"Ll",-1,0,-1},
{0x1ECE,0x1ECE,"Lu",0,1,0},
{0x1ECF,0x1ECF,"Ll",-1,0,-1},
{0x1ED0,0x1ED0,"Lu",0,1,0},
{0x1ED1,0x1ED1,"Ll",-1,0,-1},
{0x1ED2,0x1ED2,"Lu",0,1,0},
{0x1ED3,0x1ED3,"Ll",-1,0,-1},
{0x1ED4,0x1ED4,"Lu",0,1,0},
{0x1ED5,0x1ED5,"Ll",-1,0,-1},
{0x1ED6,0x1ED6,"Lu",0,1,0},
{0x1ED7,0x1ED7,"Ll",-1,0,-1},
{0x1ED8,0x1ED8,"Lu",0,1,0},
{0x1ED9,0x1ED9,"Ll",-1,0,-1},
{0x1EDA,0x1EDA,"Lu",0,1,0},
{0x1EDB,0x1EDB,"Ll",-1,0,-1},
{0x1EDC,0x1EDC,"Lu",0,1,0},
{0x1EDD,0x1EDD,"Ll",-1,0,-1},
{0x1EDE,0x1EDE,"Lu",0,1,0},
{0x1EDF,0x1EDF,"Ll",-1,0,-1},
{0x1EE0,0x1EE0,"Lu",0,1,0},
{0x1EE1,0x1EE1,"Ll",-1,0,-1},
{0x1EE2,0x1EE2,"Lu",0,1,0},
{0x1EE3,0x1EE3,"Ll",-1,0,-1},
{0x1EE4,0x1EE4,"Lu",0,1,0},
{0x1EE5,0x1EE5,"Ll",-1,0,-1},
{0x1EE6,0x1EE6,"Lu",0,1,0},
{0x1EE7,0x1EE7,"Ll",-1,0,-1},
{0x1EE8,0x1EE8,"Lu",0,1,0},
{0x1EE9,0x1EE9,"Ll",-1,0,-1},
{0x1EEA,0x1EEA,"Lu",0,1,0},
{0x1EEB,0x1EEB,"Ll",-1,0,-1},
{0x1EEC,0x1EEC,"Lu",0,1,0},
{0x1EED,0x1EED,"Ll",-1,0,-1},
{0x1EEE,0x1EEE,"Lu",0,1,0},
{0x1EEF,0x1EEF,"Ll",-1,0,-1},
{0x1EF0,0x1EF0,"Lu",0,1,0},
{0x1EF1,0x1EF1,"Ll",-1,0,-1},
{0x1EF2,0x1EF2,"Lu",0,1,0},
{0x1EF3,0x1EF3,"Ll",-1,0,-1},
{0x1EF4,0x1EF4,"Lu",0,1,0},
{0x1EF5,0x1EF5,"Ll",-1,0,-1},
{0x1EF6,0x1EF6,"Lu",0,1,0},
{0x1EF7,0x1EF7,"Ll",-1,0,-1},
{0x1EF8,0x1EF8,"Lu",0,1,0},
{0x1EF9,0x1EF9,"Ll",-1,0,-1},
{0x1EFA,0x1EFA,"Lu",0,1,0},
{0x1EFB,0x1EFB,"Ll",-1,0,-1},
{0x1EFC,0x1EFC,"Lu",0,1,0},
{0x1EFD,0x1EFD,"Ll",-1,0,-1},
{0x1EFE,0x1EFE,"Lu",0,1,0},
{0x1EFF,0x1EFF,"Ll",-1,0,-1},
{0x1F00,0x1F07,"Ll",8,0,8},
{0x1F08,0x1F0F,"Lu",0,-8,0},
{0x1F10,0x1F15,"Ll",8,0,8},
{0x1F16,0x1F17,"Cn",0,0,0},
{0x1F18,0x1F1D,"Lu",0,-8,0},
{0x1F1E,0x1F1F,"Cn",0,0,0},
{0x1F20,0x1F27,"Ll",8,0,8},
{0x1F28,0x1F2F,"Lu",0,-8,0},
{0x1F30,0x1F37,"Ll",8,0,8},
{0x1F38,0x1F3F,"Lu",0,-8,0},
{0x1F40,0x1F45,"Ll",8,0,8},
{0x1F46,0x1F47,"Cn",0,0,0},
{0x1F48,0x1F4D,"Lu",0,-8,0},
{0x1F4E,0x1F4F,"Cn",0,0,0},
{0x1F50,0x1F50,"Ll",UD,0,UD},
{0x1F51,0x1F51,"Ll",8,0,8},
{0x1F52,0x1F52,"Ll",UD,0,UD},
{0x1F53,0x1F53,"Ll",8,0,8},
{0x1F54,0x1F54,"Ll",UD,0,UD},
{0x1F55,0x1F55,"Ll",8,0,8},
{0x1F56,0x1F56,"Ll",UD,0,UD},
{0x1F57,0x1F57,"Ll",8,0,8},
{0x1F58,0x1F58,"Cn",0,0,0},
{0x1F59,0x1F59,"Lu",0,-8,0},
{0x1F5A,0x1F5A,"Cn",0,0,0},
{0x1F5B,0x1F5B,"Lu",0,-8,0},
{0x1F5C,0x1F5C,"Cn",0,0,0},
{0x1F5D,0x1F5D,"Lu",0,-8,0},
{0x1F5E,0x1F5E,"Cn",0,0,0},
{0x1F5F,0x1F5F,"Lu",0,-8,0},
{0x1F60,0x1F67,"Ll",8,0,8},
{0x1F68,0x1F6F,"Lu",0,-8,0},
{0x1F70,0x1F71,"Ll",74,0,74},
{0x1F72,0x1F75,"Ll",86,0,86},
{0x1F76,0x1F77,"Ll",100,0,100},
{0x1F78,0x1F79,"Ll",128,0,128},
{0x1F7A,0x1F7B,"Ll",112,0,112},
{0x1F7C,0x1F7D,"Ll",126,0,126},
{0x1F7E,0x1F7F,"Cn",0,0,0},
{0x1F80,0x1F87,"Ll",UD,0,8},
{0x1F88,0x1F8F,"Lt",UD,-8,0},
{0x1F90,0x1F97,"Ll",UD,0,8},
{0x1F98,0x1F9F,"Lt",UD,-8,0},
{0x1FA0,0x1FA7,"Ll",UD,0,8},
{0x1FA8,0x1FAF,"Lt",UD,-8,0},
{0x1FB0,0x1FB1,"Ll",8,0,8},
{0x1FB2,0x1FB2,"Ll",UD,0,UD},
{0x1FB3,0x1FB3,"Ll",UD,0,9},
{0x1FB4,0x1FB4,"Ll",UD,0,UD},
{0x1FB5,0x1FB5,"Cn",0,0,0},
{0x1FB6,0x1FB7,"Ll",UD,0,UD},
{0x1FB8,0x1FB9,"Lu",0,-8,0},
{0x1FBA,0x1FBB,"Lu",0,-74,0},
{0x1FBC,0x1FBC,"Lt",UD,-9,0},
{0x1FBD,0x1FBD,"Sk",0,0,0},
{0x1FBE,0x1FBE,"Ll",-7205,0,-7205},
{0x1FBF,0x1FC1,"Sk",0,0,0},
{0x1FC2,0x1FC2,"Ll",UD,0,UD},
{0x1FC3,0x1FC3,"Ll",UD,0,9},
{0x1FC4,0x1FC4,"Ll",UD,0,UD},
{0x1FC5,0x1FC5,"Cn",0,0,0},
{0x1FC6,0x1FC7,"Ll",UD,0,UD},
{0x1FC8,0x1FCB,"Lu",0,-86,0},
{0x1FCC,0x1FCC,"Lt",UD,-9,0},
{0x1FCD,0x1FCF,"Sk",0,0,0},
{0x1FD0,0x1FD1,"Ll",8,0,8},
{0x1FD2,0x1FD3,"Ll",UD,0,UD},
{0x1FD4,0x1FD5,"Cn",0,0,0},
{0x1FD6,0x1FD7,"Ll",UD,0,UD},
{0x1FD8,0x1FD9,"Lu",0,-8,0},
{0x1FDA,0x1FDB,"Lu",0,-100,0},
{0x1FDC,0x1FDC,"Cn",0,0,0},
{0x1FDD,0x1FDF,"Sk",0,0,0},
{0x1FE0,0x1FE1,"Ll",8,0,8},
{0x1FE2,0x1FE4,"Ll",UD,0,UD},
{0x1FE5,0x1FE5,"Ll",7,0,7},
{0x1FE6,0x1FE7,"Ll",UD,0,UD},
{0x1FE8,0x1FE9,"Lu",0,-8,0},
{0x1FEA,0x1FEB,"Lu",0,-112,0},
{0x1FEC,0x1FEC,"Lu",0,-7,0},
{0x1FED,0x1FEF,"Sk",0,0,0},
{0x1FF0,0x1FF1,"Cn",0,0,0},
{0x1FF2,0x1FF2,"Ll",UD,0,UD},
{0x1FF3,0x1FF3,"Ll",UD,0,9},
{0x1FF4,0x1FF4,"Ll",UD,0,UD},
{0x1FF5,0x1FF5,"Cn",0,0,0},
{0x1FF6,0x1FF7,"Ll",UD,0,UD},
{0x1FF8,0x1FF9,"Lu",0,-128,0},
{0x1FFA,0x1FFB,"Lu",0,-126,0},
{0x1FFC,0x1FFC,"Lt",UD,-9,0},
{0x1FFD,0x1FFE,"Sk",0,0,0},
{0x1FFF,0x1FFF,"Cn",0,0,0},
{0x2000,0x200A,"Zs",0,0,0},
{0x200B,0x200F,"Cf",0,0,0},
{0x2010,0x2015,"Pd",0,0,0},
{0x2016,0x2017,"Po",0,0,0},
{0x2018,0x2018,"Pi",0,0,0},
{0x2019,0x2019,"Pf",0,0,0},
{0x201A,0x201A,"Ps",0,0,0},
{0x201B,0x201C,"Pi",0,0,0},
{0x201D,0x201D,"Pf",0,0,0},
{0x201E,0x201E,"Ps",0,0,0},
{0x201F,0x201F,"Pi",0,0,0},
{0x2020,0x2027,"Po",0,0,0},
{0x2028,0x2028,"Zl",0,0,0},
{0x2029,0x2029,"Zp",0,0,0},
{0x202A,0x202E,"Cf",0,0,0},
{0x202F,0x202F,"Zs",0,0,0},
{0x2030,0x2038,"Po",0,0,0},
{0x2039,0x2039,"Pi",0,0,0},
{0x203A,0x203A,"Pf",0,0,0},
{0x203B,0x203E,"Po",0,0,0},
{0x203F,0x2040,"Pc",0,0,0},
{0x2041,0x2043,"Po",0,0,0},
{0x2044,0x2044,"Sm",0,0,0},
{0x2045,0x2045,"Ps",0,0,0},
{0x2046,0x2046,"Pe",0,0,0},
{0x2047,0x2051,"Po",0,0,0},
{0x2052,0x2052,"Sm",0,0,0},
{0x2053,0x2053,"Po",0,0,0},
{0x2054,0x2054,"Pc",0,0,0},
{0x2055,0x205E,"Po",0,0,0},
{0x205F,0x205F,"Zs",0,0,0},
{0x2060,0x2064,"Cf",0,0,0},
{0x2065,0x2065,"Cn",0,0,0},
{0x2066,0x206F,"Cf",0,0,0},
{0x2070,0x2070,"No",0,0,0},
{0x2071,0x2071,"Lm",0,0,0},
{0x2072,0x2073,"Cn",0,0,0},
{0x2074,0x2079,"No",0,0,0},
{0x207A,0x207C,"Sm",0,0,0},
{0x207D,0x207D,"Ps",0,0,0},
{0x207E,0x207E,"Pe",0,0,0},
{0x207F,0x207F,"Lm",0,0,0},
{0x2080,0x2089,"No",0,0,0},
{0x208A,0x208C,"Sm",0,0,0},
{0x208D,0x208D,"Ps",0,0,0},
{0x208E,0x208E,"Pe",0,0,0},
{0x208F,0x208F,"Cn",0,0,0},
{0x2090,0x209C,"Lm",0,0,0},
{0x209D,0x209F,"Cn",0,0,0},
{0x20A0,0x20C0,"Sc",0,0,0},
{0x20C1,0x20CF,"Cn",0,0,0},
{0x20D0,0x20DC,"Mn",0,0,0},
{0x20DD,0x20E0,"Me",0,0,0},
{0x20E1,0x20E1,"Mn",0,0,0},
{0x20E2,0x20E4,"Me",0,0,0},
{0x20E5,0x20F0,"Mn",0,0,0},
{0x20F1,0x20FF,"Cn",0,0,0},
{0x2100,0x2101,"So",0,0,0},
{0x2102,0x2102,"Lu",0,0,0},
{0x2103,0x2106,"So",0,0,0},
{0x2107,0x2107,"Lu",0,0,0},
{0x2108,0x2109,"So",0,0,0},
{0x210A,0x210A,"Ll",0,0,0},
{0x210B,0x210D,"Lu",0,0,0},
{0x210E,0x210F,"Ll",0,0,0},
{0x2110,0x2112,"Lu",0,0,0},
{0x2113,0x2113,"Ll",0,0,0},
{0x2114,0x2114,"So",0,0,0},
{0x2115,0x2115,"Lu",0,0,0},
{0x2116,0x2117,"So",0,0,0},
{0x2118,0x2118,"Sm",0,0,0},
{0x2119,0x211D,"Lu",0,0,0},
{0x211E,0x2123,"So",0,0,0},
{0x2124,0x2124,"Lu",0,0,0},
{0x2125,0x2125,"So",0,0,0},
{0x2126,0x2126,"Lu",0,-7517,0},
{0x2127,0x2127,"So",0,0,0},
{0x2128,0x2128,"Lu",0,0,0},
{0x2129,0x2129,"So",0,0,0},
{0x212A,0x212A,"Lu",0,-8383,0},
{0x212B,0x212B,"Lu",0,-8262,0},
{0x212C,0x212D,"Lu",0,0,0},
{0x212E,0x212E,"So",0,0,0},
{0x212F,0x212F,"Ll",0,0,0},
{0x2130,0x2131,"Lu",0,0,0},
{0x2132,0x2132,"Lu",0,28,0},
{0x2133,0x2133,"Lu",0,0,0},
{0x2134,0x2134,"Ll",0,0,0},
{0x2135,0x2138,"Lo",0,0,0},
{0x2139,0x2139,"Ll",0,0,0},
{0x213A,0x213B,"So",0,0,0},
{0x213C,0x213D,"Ll",0,0,0},
{0x213E,0x213F,"Lu",0,0,0},
{0x2140,0x2144,"Sm",0,0,0},
{0x2145,0x2145,"Lu",0,0,0},
{0x2146,0x2149,"Ll",0,0,0},
{0x214A,0x214A,"So",0,0,0},
{0x214B,0x214B,"Sm",0,0,0},
{0x214C,0x214D,"So",0,0,0},
{0x214E,0x214E,"Ll",-28,0,-28},
{0x214F,0x214F,"So",0,0,0},
{0x2150,0x215F,"No",0,0,0},
{0x2160,0x216F,"Nl",0,16,0},
{0x2170,0x217F,"Nl",-16,0,-16},
{0x2180,0x2182,"Nl",0,0,0},
{0x2183,0x2183,"Lu",0,1,0},
{0x2184,0x2184,"Ll",-1,0,-1},
{0x2185,0x2188,"Nl",0,0,0},
{0x2189,0x2189,"No",0,0,0},
{0x218A,0x218B,"So",0,0,0},
{0x218C,0x218F,"Cn",0,0,0},
{0x2190,0x2194,"Sm",0,0,0},
{0x2195,0x2199,"So",0,0,0},
{0x219A,0x219B,"Sm",0,0,0},
{0x219C,0x219F,"So",0,0,0},
{0x21A0,0x21A0,"Sm",0,0,0},
{0x21A1,0x21A2,"So",0,0,0},
{0x21A3,0x21A3,"Sm",0,0,0},
{0x21A4,0x21A5,"So",0,0,0},
{0x21A6,0x21A6,"Sm",0,0,0},
{0x21A7,0x21AD,"So",0,0,0},
{0x21AE,0x21AE,"Sm",0,0,0},
{0x21AF,0x21CD,"So",0,0,0},
{0x21CE,0x21CF,"Sm",0,0,0},
{0x21D0,0x21D1,"So",0,0,0},
{0x21D2,0x21D2,"Sm",0,0,0},
{0x21D3,0x21D3,"So",0,0,0},
{0x21D4,0x21D4,"Sm",0,0,0},
{0x21D5,0x21F3,"So",0,0,0},
{0x21F4,0x22FF,"Sm",0,0,0},
{0x2300,0x2307,"So",0,0,0},
{0x2308,0x2308,"Ps",0,0,0},
{0x2309,0x2309,"Pe",0,0,0},
{0x230A,0x230A,"Ps",0,0,0},
{0x230B,0x230B,"Pe",0,0,0},
{0x230C,0x231F,"So",0,0,0},
{0x2320,0x2321,"Sm",0,0,0},
{0x2322,0x2328,"So",0,0,0},
{0x2329,0x2329,"Ps",0,0,0},
{0x232A,0x232A,"Pe",0,0,0},
{0x232B,0x237B,"So",0,0,0},
{0x237C,0x237C,"Sm",0,0,0},
{0x237D,0x239A,"So",0,0,0},
{0x239B,0x23B3,"Sm",0,0,0},
{0x23B4,0x23DB,"So",0,0,0},
{0x23DC,0x23E1,"Sm",0,0,0},
{0x23E2,0x2426,"So",0,0,0},
{0x2427,0x243F,"Cn",0,0,0},
{0x2440,0x244A,"So",0,0,0},
{0x244B,0x245F,"Cn",0,0,0},
{0x2460,0x249B,"No",0,0,0},
{0x249C,0x24B5,"So",0,0,0},
{0x24B6,0x24CF,"So",0,26,0},
{0x24D0,0x24E9,"So",-26,0,-26},
{0x24EA,0x24FF,"No",0,0,0},
{0x2500,0x25B6,"So",0,0,0},
{0x25B7,0x25B7,"Sm",0,0,0},
{0x25B8,0x25C0,"So",0,0,0},
{0x25C1,0x25C1,"Sm",0,0,0},
{0x25C2,0x25F7,"So",0,0,0},
{0x25F8,0x25FF,"Sm",0,0,0},
{0x2600,0x266E,"So",0,0,0},
{0x266F,0x266F,"Sm",0,0,0},
{0x2670,0x2767,"So",0,0,0},
{0x2768,0x2768,"Ps",0,0,0},
{0x2769,0x2769,"Pe",0,0,0},
{0x276A,0x276A,"Ps",0,0,0},
{0x276B,0x276B,"Pe",0,0,0},
{0x276C,0x276C,"Ps",0,0,0},
{0x276D,0x276D,"Pe",0,0,0},
{0x276E,0x276E,"Ps",0,0,0},
{0x276F,0x276F,"Pe",0,0,0},
{0x2770,0x2770,"Ps",0,0,0},
{0x2771,0x2771,"Pe",0,0,0},
{0x2772,0x2772,"Ps",0,0,0},
{0x2773,0x2773,"Pe",0,0,0},
{0x2774,0x2774,"Ps",0,0,0},
{0x2775,0x2775,"Pe",0,0,0},
{0x2776,0x2793,"No",0,0,0},
{0x2794,0x27BF,"So",0,0,0},
{0x27C0,0x27C4,"Sm",0,0,0},
{0x27C5,0x27C5,"Ps",0,0,0},
{0x27C6,0x27C6,"Pe",0,0,0},
{0x27C7,0x27E5,"Sm",0,0,0},
{0x27E6,0x27E6,"Ps",0,0,0},
{0x27E7,0x27E7,"Pe",0,0,0},
{0x27E8,0x27E8,"Ps",0,0,0},
{0x27E9,0x27E9,"Pe",0,0,0},
{0x27EA,0x27EA,"Ps",0,0,0},
{0x27EB,0x27EB,"Pe",0,0,0},
{0x27EC,0x27EC,"Ps",0,0,0},
{0x27ED,0x27ED,"Pe",0,0,0},
{0x27EE,0x27EE,"Ps",0,0,0},
{0x27EF,0x27EF,"Pe",0,0,0},
{0x27F0,0x27FF,"Sm",0,0,0},
{0x2800,0x28FF,"So",0,0,0},
{0x2900,0x2982,"Sm",0,0,0},
{0x2983,0x2983,"Ps",0,0,0},
{0x2984,0x2984,"Pe",0,0,0},
{0x2985,0x2985,"Ps",0,0,0},
{0x2986,0x2986,"Pe",0,0,0},
{0x2987,0x2987,"Ps",0,0,0},
{0x2988,0x2988,"Pe",0,0,0},
{0x2989,0x2989,"Ps",0,0,0},
{0x298A,0x298A,"Pe",0,0,0},
{0x298B,0x298B,"Ps",0,0,0},
{0x298C,0x298C,"Pe",0,0,0},
{0x298D,0x298D,"Ps",0,0,0},
{0x298E,0x298E,"Pe",0,0,0},
{0x298F,0x298F,"Ps",0,0,0},
{0x2990,0x2990,"Pe",0,0,0},
{0x2991,0x2991,"Ps",0,0,0},
{0x2992,0x2992,"Pe",0,0,0},
{0x2993,0x2993,"Ps",0,0,0},
{0x2994,0x2994,"Pe",0,0,0},
{0x2995,0x2995,"Ps",0,0,0},
{0x2996,0x2996,"Pe",0,0,0},
{0x2997,0x2997,"Ps",0,0,0},
{0x2998,0x2998,"Pe",0,0,0},
{0x2999,0x29D7,"Sm",0,0,0},
{0x29D8,0x29D8,"Ps",0,0,0},
{0x29D9,0x29D9,"Pe",0,0,0},
{0x29DA,0x29DA,"Ps",0,0,0},
{0x29DB,0x29DB,"Pe",0,0,0},
{0x29DC,0x29FB,"Sm",0,0,0},
{0x29FC,0x29FC,"Ps",0,0,0},
{0x29FD,0x29FD,"Pe",0,0,0},
{0x29FE,0x2AFF,"Sm",0,0,0},
{0x2B00,0x2B2F,"So",0,0,0},
{0x2B30,0x2B44,"Sm",0,0,0},
{0x2B45,0x2B46,"So",0,0,0},
{0x2B47,0x2B4C,"Sm",0,0,0},
{0x2B4D,0x2B73,"So",0,0,0},
{0x2B74,0x2B75,"Cn",0,0,0},
{0x2B76,0x2B95,"So",0,0,0},
{0x2B96,0x2B96,"Cn",0,0,0},
{0x2B97,0x2BFF,"So",0,0,0},
{0x2C00,0x2C2F,"Lu",0,48,0},
{0x2C30,0x2C5F,"Ll",-48,0,-48},
{0x2C60,0x2C60,"Lu",0,1,0},
{0x2C61,0x2C61,"Ll",-1,0,-1},
{0x2C62,0x2C62,"Lu",0,-10743,0},
{0x2C63,0x2C63,"Lu",0,-3814,0},
{0x2C64,0x2C64,"Lu",0,-10727,0},
{0x2C65,0x2C65,"Ll",-10795,0,-10795},
{0x2C66,0x2C66,"Ll",-10792,0,-10792},
{0x2C67,0x2C67,"Lu",0,1,0},
{0x2C68,0x2C68,"Ll",-1,0,-1},
{0x2C69,0x2C69,"Lu",0,1,0},
{0x2C6A,0x2C6A,"Ll",-1,0,-1},
{0x2C6B,0x2C6B,"Lu",0,1,0},
{0x2C6C,0x2C6C,"Ll",-1,0,-1},
{0x2C6D,0x2C6D,"Lu",0,-10780,0},
{0x2C6E,0x2C6E,"Lu",0,-10749,0},
{0x2C6F,0x2C6F,"Lu",0,-10783,0},
{0x2C70,0x2C70,"Lu",0,-10782,0},
{0x2C71,0x2C71,"Ll",0,0,0},
{0x2C72,0x2C72,"Lu",0,1,0},
{0x2C73,0x2C73,"Ll",-1,0,-1},
{0x2C74,0x2C74,"Ll",0,0,0},
{0x2C75,0x2C75,"Lu",0,1,0},
{0x2C76,0x2C76,"Ll",-1,0,-1},
{0x2C77,0x2C7B,"Ll",0,0,0},
{0x2C7C,0x2C7D,"Lm",0,0,0},
{0x2C7E,0x2C7F,"Lu",0,-10815,0},
{0x2C80,0x2C80,"Lu",0,1,0},
{0x2C81,0x2C81,"Ll",-1,0,-1},
{0x2C82,0x2C82,"Lu",0,1,0},
{0x2C83,0x2C83,"Ll",-1,0,-1},
{0x2C84,0x2C84,"Lu",0,1,0},
{0x2C85,0x2C85,"Ll",-1,0,-1},
{0x2C86,0x2C86,"Lu",0,1,0},
{0x2C87,0x2C87,"Ll",-1,0,-1},
{0x2C88,0x2C88,"Lu",0,1,0},
{0x2C89,0x2C89,"Ll",-1,0,-1},
{0x2C8A,0x2C8A,"Lu",0,1,0},
{0x2C8B,0x2C8B,"Ll",-1,0,-1},
{0x2C8C,0x2C8C,"Lu",0,1,0},
{0x2C8D,0x2C8D,"Ll",-1,0,-1},
{0x2C8E,0x2C8E,"Lu",0,1,0},
{0x2C8F,0x2C8F,"Ll",-1,0,-1},
{0x2C90,0x2C90,"Lu",0,1,0},
{0x2C91,0x2C91,"Ll",-1,0,-1},
{0x2C92,0x2C92,"Lu",0,1,0},
{0x2C93,0x2C93,"Ll",-1,0,-1},
{0x2C94,0x2C94,"Lu",0,1,0},
{0x2C95,0x2C95,"Ll",-1,0,-1},
{0x2C96,0x2C96,"Lu",0,1,0},
{0x2C97,0x2C97,"Ll",-1,0,-1},
{0x2C98,0x2C98,"Lu",0,1,0},
{0x2C99,0x2C99,"Ll",-1,0,-1},
{0x2C9A,0x2C9A,"Lu",0,1,0},
{0x2C9B,0x2C9B,"Ll",-1,0,-1},
{0x2C9C,0x2C9C,"Lu",0,1,0},
{0x2C9D,0x2C9D,"Ll",-1,0,-1},
{0x2C9E,0x2C9E,"Lu",0,1,0},
{0x2C9F,0x2C9F,"Ll",-1,0,-1},
{0x2CA0,0x2CA0,"Lu",0,1,0},
{0x2CA1,0x2CA1,"Ll",-1,0,-1},
{0x2CA2,0x2CA2,"Lu",0,1,0},
{0x2CA3,0x2CA3,"Ll",-1,0,-1},
{0x2CA4,0x2CA4,"Lu",0,1,0},
{0x2CA5,0x2CA5,"Ll",-1,0,-1},
{0x2CA6,0x2CA6,"Lu",0,1,0},
{0x2CA7,0x2CA7,"Ll",-1,0,-1},
{0x2CA8,0x2CA8,"Lu",0,1,0},
{0x2CA9,0x2CA9,"Ll",-1,0,-1},
{0x2CAA,0x2CAA,"Lu",0,1,0},
{0x2CAB,0x2CAB,"Ll",-1,0,-1},
{0x2CAC,0x2CAC,"Lu",0,1,0},
{0x2CAD,0x2CAD,"Ll",-1,0,-1},
{0x2CAE,0x2CAE,"Lu",0,1,0},
{0x2CAF,0x2CAF,"Ll",-1,0,-1},
{0x2CB0,0x2CB0,"Lu",0,1,0},
{0x2CB1,0x2CB1,"Ll",-1,0,-1},
{0x2CB2,0x2CB2,"Lu",0,1,0},
{0x2CB3,0x2CB3,"Ll",-1,0,-1},
{0x2CB4,0x2CB4,"Lu",0,1,0},
{0x2CB5,0x2CB5,"Ll",-1,0,-1},
{0x2CB6,0x2CB6,"Lu",0,1,0},
{0x2CB7,0x2CB7,"Ll",-1,0,-1},
{0x2CB8,0x2CB8,"Lu",0,1,0},
{0x2CB9,0x2CB9,"Ll",-1,0,-1},
{0x2CBA,0x2CBA,"Lu",0,1,0},
{0x2CBB,0x2CBB,"Ll",-1,0,-1},
{0x2CBC,0x2CBC,"Lu",0,1,0},
{0x2CBD,0x2CBD,"Ll",-1,0,-1},
{0x2CBE,0x2CBE,"Lu",0,1,0},
{0x2CBF,0x2CBF,"Ll",-1,0,-1},
{0x2CC0,0x2CC0,"Lu",0,1,0},
{0x2CC1,0x2CC1,"Ll",-1,0,-1},
{0x2CC2,0x2CC2,"Lu",0,1,0},
{0x2CC3,0x2CC3,"Ll",-1,0,-1},
{0x2CC4,0x2CC4,"Lu",0,1,0},
{0x2CC5,0x2CC5,"Ll",-1,0,-1},
{0x2CC6,0x2CC6,"Lu",0,1,0},
{0x2CC7,0x2CC7,"Ll",-1,0,-1},
{0x2CC8,0x2CC8,"Lu",0,1,0},
{0x2CC9,0x2CC9,"Ll",-1,0,-1},
{0x2CCA,0x2CCA,"Lu",0,1,0},
{0x2CCB,0x2CCB,"Ll",-1,0,-1},
{0x2CCC,0x2CCC,"Lu",0,1,0},
{0x2CCD,0x2CCD,"Ll",-1,0,-1},
{0x2CCE,0x2CCE,"Lu",0,1,0},
{0x2CCF,0x2CCF,"Ll",-1,0,-1},
{0x2CD0,0x2CD0,"Lu",0,1,0},
{0x2CD1,0x2CD1,"Ll",-1,0,-1},
{0x2CD2,0x2CD2,"Lu",0,1,0},
{0x2CD3,0x2CD3,"Ll",-1,0,-1},
{0x2CD4,0x2CD4,"Lu",0,1,0},
{0x2CD5,0x2CD5,"Ll",-1,0,-1},
{0x2CD6,0x2CD6,"Lu",0,1,0},
{0x2CD7,0x2CD7,"Ll",-1,0,-1},
{0x2CD8,0x2CD8,"Lu",0,1,0},
{0x2CD9,0x2CD9,"Ll",-1,0,-1},
{0x2CDA,0x2CDA,"Lu",0,1,0},
{0x2CDB,0x2CDB,"Ll",-1,0,-1},
{0x2CDC,0x2CDC,"Lu",0,1,0},
{0x2CDD,0x2CDD,"Ll",-1,0,-1},
{0x2CDE,0x2CDE,"Lu",0,1,0},
{0x2CDF,0x2CDF,"Ll",-1,0,-1},
{0x2CE0,0x2CE0,"Lu",0,1,0},
{0x2CE1,0x2CE1,"Ll",-1,0,-1},
{0x2CE2,0x2CE2,"Lu",0,1,0},
{0x2CE3,0x2CE3,"Ll",-1,0,-1},
{0x2CE4,0x2CE4,"Ll",0,0,0},
{0x2CE5,0x2CEA,"So",0,0,0},
{0x2CEB,0x2CEB,"Lu",0,1,0},
{0x2CEC,0x2CEC,"Ll",-1,0,-1},
{0x2CED,0x2CED,"Lu",0,1,0},
{0x2CEE,0x2CEE,"Ll",-1,0,-1},
{0x2CEF,0x2CF1,"Mn",0,0,0},
{0x2CF2,0x2CF2,"Lu",0,1,0},
{0x2CF3,0x2CF3,"Ll",-1,0,-1},
{0x2CF4,0x2CF8,"Cn",0,0,0},
{0x2CF9,0x2CFC,"Po",0,0,0},
{0x2CFD,0x2CFD,"No",0,0,0},
{0x2CFE,0x2CFF,"Po",0,0,0},
{0x2D00,0x2D25,"Ll",-7264,0,-7264},
{0x2D26,0x2D26,"Cn",0,0,0},
{0x2D27,0x2D27,"Ll",-7264,0,-7264},
{0x2D28,0x2D2C,"Cn",0,0,0},
{0x2D2D,0x2D2D,"Ll",-7264,0,-7264},
{0x2D2E,0x2D2F,"Cn",0,0,0},
{0x2D30,0x2D67,"Lo",0,0,0},
{0x2D68,0x2D6E,"Cn",0,0,0},
{0x2D6F,0x2D6F,"Lm",0,0,0},
{0x2D70,0x2D70,"Po",0,0,0},
{0x2D71,0x2D7E,"Cn",0,0,0},
{0x2D7F,0x2D7F,"Mn",0,0,0},
{0x2D80,0x2D96,"Lo",0,0,0},
{0x2D97,0x2D9F,"Cn",0,0,0},
{0x2DA0,0x2DA6,"Lo",0,0,0},
{0x2DA7,0x2DA7,"Cn",0,0,0},
{0x2DA8,0x2DAE,"Lo",0,0,0},
{0x2DAF,0x2DAF,"Cn",0,0,0},
{0x2DB0,0x2DB6,"Lo",0,0,0},
{0x2DB7,0x2DB7,"Cn",0,0,0},
{0x2DB8,0x2DBE,"Lo",0,0,0},
{0x2DBF,0x2DBF,"Cn",0,0,0},
{0x2DC0,0x2DC6,"Lo",0,0,0},
{0x2DC7,0x2DC7,"Cn",0,0,0},
{0x2DC8,0x2DCE,"Lo",0,0,0},
{0x2DCF,0x2DCF,"Cn",0,0,0},
{0x2DD0,0x2DD6,"Lo",0,0,0},
{0x2DD7,0x2DD7,"Cn",0,0,0},
{0x2DD8,0x2DDE,"Lo",0,0,0},
{0x2DDF,0x2DDF,"Cn",0,0,0},
{0x2DE0,0x2DFF,"Mn",0,0,0},
{0x2E00,0x2E01,"Po",0,0,0},
{0x2E02,0x2E02,"Pi",0,0,0},
{0x2E03,0x2E03,"Pf",0,0,0},
{0x2E04,0x2E04,"Pi",0,0,0},
{0x2E05,0x2E05,"Pf",0,0,0},
{0x2E06,0x2E08,"Po",0,0,0},
{0x2E09,0x2E09,"Pi",0,0,0},
{0x2E0A,0x2E0A,"Pf",0,0,0},
{0x2E0B,0x2E0B,"Po",0,0,0},
{0x2E0C,0x2E0C,"Pi",0,0,0},
{0x2E0D,0x2E0D,"Pf",0,0,0},
{0x2E0E,0x2E16,"Po",0,0,0},
{0x2E17,0x2E17,"Pd",0,0,0},
{0x2E18,0x2E19,"Po",0,0,0},
{0x2E1A,0x2E1A,"Pd",0,0,0},
{0x2E1B,0x2E1B,"Po",0,0,0},
{0x2E1C,0x2E1C,"Pi",0,0,0},
{0x2E1D,0x2E1D,"Pf",0,0,0},
{0x2E1E,0x2E1F,"Po",0,0,0},
{0x2E20,0x2E20,"Pi",0,0,0},
{0x2E21,0x2E21,"Pf",0,0,0},
{0x2E22,0x2E22,"Ps",0,0,0},
{0x2E23,0x2E23,"Pe",0,0,0},
{0x2E24,0x2E24,"Ps",0,0,0},
{0x2E25,0x2E25,"Pe",0,0,0},
{0x2E26,0x2E26,"Ps",0,0,0},
{0x2E27,0x2E27,"Pe",0,0,0},
{0x2E28,0x2E28,"Ps",0,0,0},
{0x2E29,0x2E29,"Pe",0,0,0},
{0x2E2A,0x2E2E,"Po",0,0,0},
{0x2E2F,0x2E2F,"Lm",0,0,0},
{0x2E30,0x2E39,"Po",0,0,0},
{0x2E3A,0x2E3B,"Pd",0,0,0},
{0x2E3C,0x2E3F,"Po",0,0,0},
{0x2E40,0x2E40,"Pd",0,0,0},
{0x2E41,0x2E41,"Po",0,0,0},
{0x2E42,0x2E42,"Ps",0,0,0},
{0x2E43,0x2E4F,"Po",0,0,0},
{0x2E50,0x2E51,"So",0,0,0},
{0x2E52,0x2E54,"Po",0,0,0},
{0x2E55,0x2E55,"Ps",0,0,0},
{0x2E56,0x2E56,"Pe",0,0,0},
{0x2E57,0x2E57,"Ps",0,0,0},
{0x2E58,0x2E58,"Pe",0,0,0},
{0x2E59,0x2E59,"Ps",0,0,0},
{0x2E5A,0x2E5A,"Pe",0,0,0},
{0x2E5B,0x2E5B,"Ps",0,0,0},
{0x2E5C,0x2E5C,"Pe",0,0,0},
{0x2E5D,0x2E5D,"Pd",0,0,0},
{0x2E5E,0x2E7F,"Cn",0,0,0},
{0x2E80,0x2E99,"So",0,0,0},
{0x2E9A,0x2E9A,"Cn",0,0,0},
{0x2E9B,0x2EF3,"So",0,0,0},
{0x2EF4,0x2EFF,"Cn",0,0,0},
{0x2F00,0x2FD5,"So",0,0,0},
{0x2FD6,0x2FEF,"Cn",0,0,0},
{0x2FF0,0x2FFB,"So",0,0,0},
{0x2FFC,0x2FFF,"Cn",0,0,0},
{0x3000,0x3000,"Zs",0,0,0},
{0x3001,0x3003,"Po",0,0,0},
{0x3004,0x3004,"So",0,0,0},
{0x3005,0x3005,"Lm",0,0,0},
{0x3006,0x3006,"Lo",0,0,0},
{0x3007,0x3007,"Nl",0,0,0},
{0x3008,0x3008,"Ps",0,0,0},
{0x3009,0x3009,"Pe",0,0,0},
{0x300A,0x300A,"Ps",0,0,0},
{0x300B,0x300B,"Pe",0,0,0},
{0x300C,0x300C,"Ps",0,0,0},
{0x300D,0x300D,"Pe",0,0,0},
{0x300E,0x300E,"Ps",0,0,0},
{0x300F,0x300F,"Pe",0,0,0},
{0x3010,0x3010,"Ps",0,0,0},
{0x3011,0x3011,"Pe",0,0,0},
{0x3012,0x3013,"So",0,0,0},
{0x3014,0x3014,"Ps",0,0,0},
{0x3015,0x3015,"Pe",0,0,0},
{0x3016,0x3016,"Ps",0,0,0},
{0x3017,0x3017,"Pe",0,0,0},
{0x3018,0x3018,"Ps",0,0,0},
{0x3019,0x3019,"Pe",0,0,0},
{0x301A,0x301A,"Ps",0,0,0},
{0x301B,0x301B,"Pe",0,0,0},
{0x301C,0x301C,"Pd",0,0,0},
{0x301D,0x301D,"Ps",0,0,0},
{0x301E,0x301F,"Pe",0,0,0},
{0x3020,0x3020,"So",0,0,0},
{0x3021,0x3029,"Nl",0,0,0},
{0x302A,0x302D,"Mn",0,0,0},
{0x302E,0x302F,"Mc",0,0,0},
{0x3030,0x3030,"Pd",0,0,0},
{0x3031,0x3035,"Lm",0,0,0},
{0x3036,0x3037,"So",0,0,0},
{0x3038,0x303A,"Nl",0,0,0},
{0x303B,0x303B,"Lm",0,0,0},
{0x303C,0x303C,"Lo",0,0,0},
{0x303D,0x303D,"Po",0,0,0},
{0x303E,0x303F,"So",0,0,0},
{0x3040,0x3040,"Cn",0,0,0},
{0x3041,0x3096,"Lo",0,0,0},
{0x3097,0x3098,"Cn",0,0,0},
{0x3099,0x309A,"Mn",0,0,0},
{0x309B,0x309C,"Sk",0,0,0},
{0x309D,0x309E,"Lm",0,0,0},
{0x309F,0x309F,"Lo",0,0,0},
{0x30A0,0x30A0,"Pd",0,0,0},
{0x30A1,0x30FA,"Lo",0,0,0},
{0x30FB,0x30FB,"Po",0,0,0},
{0x30FC,0x30FE,"Lm",0,0,0},
{0x30FF,0x30FF,"Lo",0,0,0},
{0x3100,0x3104,"Cn",0,0,0},
{0x3105,0x312F,"Lo",0,0,0},
{0x3130,0x3130,"Cn",0,0,0},
{0x3131,0x318E,"Lo",0,0,0},
{0x318F,0x318F,"Cn",0,0,0},
{0x3190,0x3191,"So",0,0,0},
{0x3192,0x3195,"No",0,0,0},
{0x3196,0x319F,"So",0,0,0},
{0x31A0,0x31BF,"Lo",0,0,0},
{0x31C0,0x31E3,"So",0,0,0},
{0x31E4,0x31EF,"Cn",0,0,0},
{0x31F0,0x31FF,"Lo",0,0,0},
{0x3200,0x321E,"So",0,0,0},
{0x321F,0x321F,"Cn",0,0,0},
{0x3220,0x3229,"No",0,0,0},
{0x322A,0x3247,"So",0,0,0},
{0x3248,0x324F,"No",0,0,0},
{0x3250,0x3250,"So",0,0,0},
{0x3251,0x325F,"No",0,0,0},
{0x3260,0x327F,"So",0,0,0},
{0x3280,0x3289,"No",0,0,0},
{0x328A,0x32B0,"So",0,0,0},
{0x32B1,0x32BF,"No",0,0,0},
{0x32C0,0x33FF,"So",0,0,0},
{0x3400,0x4DBF,"Lo",0,0,0},
{0x4DC0,0x4DFF,"So",0,0,0},
{0x4E00,0xA014,"Lo",0,0,0},
{0xA015,0xA015,"Lm",0,0,0},
{0xA016,0xA48C,"Lo",0,0,0},
{0xA48D,0xA48F,"Cn",0,0,0},
{0xA490,0xA4C6,"So",0,0,0},
{0xA4C7,0xA4CF,"Cn",0,0,0},
{0xA4D0,0xA4F7,"Lo",0,0,0},
{0xA4F8,0xA4FD,"Lm",0,0,0},
{0xA4FE,0xA4FF,"Po",0,0,0},
{0xA500,0xA60B,"Lo",0,0,0},
{0xA60C,0xA60C,"Lm",0,0,0},
{0xA60D,0xA60F,"Po",0,0,0},
{0xA610,0xA61F,"Lo",0,0,0},
{0xA620,0xA629,"Nd",0,0,0},
{0xA62A,0xA62B,"Lo",0,0,0},
{0xA62C,0xA63F,"Cn",0,0,0},
{0xA640,0xA640,"Lu",0,1,0},
{0xA641,0xA641,"Ll",-1,0,-1},
{0xA642,0xA642,"Lu",0,1,0},
{0xA643,0xA643,"Ll",-1,0,-1},
{0xA644,0xA644,"Lu",0,1,0},
{0xA645,0xA645,"Ll",-1,0,-1},
{0xA646,0xA646,"Lu",0,1,0},
{0xA647,0xA647,"Ll",-1,0,-1},
{0xA648,0xA648,"Lu",0,1,0},
{0xA649,0xA649,"Ll",-1,0,-1},
{0xA64A,0xA64A,"Lu",0,1,0},
{0xA64B,0xA64B,"Ll",-1,0,-1},
{0xA64C,0xA64C,"Lu",0,1,0},
{0xA64D,0xA64D,"Ll",-1,0,-1},
{0xA64E,0xA64E,"Lu",0,1,0},
{0xA64F,0xA64F,"Ll",-1,0,-1},
{0xA650,0xA650,"Lu",0,1,0},
{0xA651,0xA651,"Ll",-1,0,-1},
{0xA652,0xA652,"Lu",0,1,0},
{0xA653,0xA653,"Ll",-1,0,-1},
{0xA654,0xA654,"Lu",0,1,0},
{0xA655,0xA655,"Ll",-1,0,-1},
{0xA656,0xA656,"Lu",0,1,0},
{0xA657,0xA657,"Ll",-1,0,-1},
{0xA658,0xA658,"Lu",0,1,0},
{0xA659,0xA659,"Ll",-1,0,-1},
{0xA65A,0xA65A,"Lu",0,1,0},
{0xA65B,0xA65B,"Ll",-1,0,-1},
{0xA65C,0xA65C,"Lu",0,1,0},
{0xA65D,0xA65D,"Ll",-1,0,-1},
{0xA65E,0xA65E,"Lu",0,1,0},
{0xA65F,0xA65F,"Ll",-1,0,-1},
{0xA660,0xA660,"Lu",0,1,0},
{0xA661,0xA661,"Ll",-1,0,-1},
{0xA662,0xA662,"Lu",0,1,0},
{0xA663,0xA663,"Ll",-1,0,-1},
{0xA664,0xA664,"Lu",0,1,0},
{0xA665,0xA665,"Ll",-1,0,-1},
{0xA666,0xA666,"Lu",0,1,0},
{0xA667,0xA667,"Ll",-1,0,-1},
{0xA668,0xA668,"Lu",0,1,0},
{0xA669,0xA669,"Ll",-1,0,-1},
{0xA66A,0xA66A,"Lu",0,1,0},
{0xA66B,0xA66B,"Ll",-1,0,-1},
{0xA66C,0xA66C,"Lu",0,1,0},
{0xA66D,0xA66D,"Ll",-1,0,-1},
{0xA66E,0xA66E,"Lo",0,0,0},
{0xA66F,0xA66F,"Mn",0,0,0},
{0xA670,0xA672,"Me",0,0,0},
{0xA673,0xA673,"Po",0,0,0},
{0xA674,0xA67D,"Mn",0,0,0},
{0xA67E,0xA67E,"Po",0,0,0},
{0xA67F,0xA67F,"Lm",0,0,0},
{0xA680,0xA680,"Lu",0,1,0},
{0xA681,0xA681,"Ll",-1,0,-1},
{0xA682,0xA682,"Lu",0,1,0},
{0xA683,0xA683,"Ll",-1,0,-1},
{0xA684,0xA684,"Lu",0,1,0},
{0xA685,0xA685,"Ll",-1,0,-1},
{0xA686,0xA686,"Lu",0,1,0},
{0xA687,0xA687,"Ll",-1,0,-1},
{0xA688,0xA688,"Lu",0,1,0},
{0xA689,0xA689,"Ll",-1,0,-1},
{0xA68A,0xA68A,"Lu",0,1,0},
{0xA68B,0xA68B,"Ll",-1,0,-1},
{0xA68C,0xA68C,"Lu",0,1,0},
{0xA68D,0xA68D,"Ll",-1,0,-1},
{0xA68E,0xA68E,"Lu",0,1,0},
{0xA68F,0xA68F,"Ll",-1,0,-1},
{0xA690,0xA690,"Lu",0,1,0},
{0xA691,0xA691,"Ll",-1,0,-1},
{0xA692,0xA692,"Lu",0,1,0},
{0xA693,0xA693,"Ll",-1,0,-1},
{0xA694,0xA694,"Lu",0,1,0},
{0xA695,0xA695,"Ll",-1,0,-1},
{0xA696,0xA696,"Lu",0,1,0},
{0xA697,0xA697,"Ll",-1,0,-1},
{0xA698,0xA698,"Lu",0,1,0},
{0xA699,0xA699,"Ll",-1,0,-1},
{0xA69A,0xA69A,"Lu",0,1,0},
{0xA69B,0xA69B,"Ll",-1,0,-1},
{0xA69C,0xA69D,"Lm",0,0,0},
{0xA69E,0xA69F,"Mn",0,0,0},
{0xA6A0,0xA6E5,"Lo",0,0,0},
{0xA6E6,0xA6EF,"Nl",0,0,0},
{0xA6F0,0xA6F1,"Mn",0,0,0},
{0xA6F2,0xA6F7,"Po",0,0,0},
{0xA6F8,0xA6FF,"Cn",0,0,0},
{0xA700,0xA716,"Sk",0,0,0},
{0xA717,0xA71F,"Lm",0,0,0},
{0xA720,0xA721,"Sk",0,0,0},
{0xA722,0xA722,"Lu",0,1,0},
{0xA723,0xA723,"Ll",-1,0,-1},
{0xA724,0xA724,"Lu",0,1,0},
{0xA725,0xA725,"Ll",-1,0,-1},
{0xA726,0xA726,"Lu",0,1,0},
{0xA727,0xA727,"Ll",-1,0,-1},
{0xA728,0xA728,"Lu",0,1,0},
{0xA729,0xA729,"Ll",-1,0,-1},
{0xA72A,0xA72A,"Lu",0,1,0},
{0xA72B,0xA72B,"Ll",-1,0,-1},
{0xA72C,0xA72C,"Lu",0,1,0},
{0xA72D,0xA72D,"Ll",-1,0,-1},
{0xA72E,0xA72E,"Lu",0,1,0},
{0xA72F,0xA72F,"Ll",-1,0,-1},
{0xA730,0xA731,"Ll",0,0,0},
{0xA732,0xA732,"Lu",0,1,0},
{0xA733,0xA733,"Ll",-1,0,-1},
{0xA734,0xA734,"Lu",0,1,0},
{0xA735,0xA735,"Ll",-1,0,-1},
{0xA736,0xA736,"Lu",0,1,0},
{0xA737,0xA737,"Ll",-1,0,-1},
{0xA738,0xA738,"Lu",0,1,0},
{0xA739,0xA739,"Ll",-1,0,-1},
{0xA73A,0xA73A,"Lu",0,1,0},
{0xA73B,0xA73B,"Ll",-1,0,-1},
{0xA73C,0xA73C,"Lu",0,1,0},
{0xA73D,0xA73D,"Ll",-1,0,-1},
{0xA73E,0xA73E,"Lu",0,1,0},
{0xA73F,0xA73F,"Ll",-1,0,-1},
{0xA740,0xA740,"Lu",0,1,0},
{0xA741,0xA741,"Ll",-1,0,-1},
{0xA742,0xA742,"Lu",0,1,0},
{0xA743,0xA743,"Ll",-1,0,-1},
{0xA744,0xA744,"Lu",0,1,0},
{0xA745,0xA745,"Ll",-1,0,-1},
{0xA746,0xA746,"Lu",0,1,0},
{0xA747,0xA747,"Ll",-1,0,-1},
{0xA748,0xA748,"Lu",0,1,0},
{0xA749,0xA749,"Ll",-1,0,-1},
{0xA74A,0xA74A,"Lu",0,1,0},
{0xA74B,0xA74B,"Ll",-1,0,-1},
{0xA74C,0xA74C,"Lu",0,1,0},
{0xA74D,0xA74D,"Ll",-1,0,-1},
{0xA74E,0xA74E,"Lu",0,1,0},
{0xA74F,0xA74F,"Ll",-1,0,-1},
{0xA750,0xA750,"Lu",0,1,0},
{0xA751,0xA751,"Ll",-1,0,-1},
{0xA752,0xA752,"Lu",0,1,0},
{0xA753,0xA753,"Ll",-1,0,-1},
{0xA754,0xA754,"Lu",0,1,0},
{0xA755,0xA755,"Ll",-1,0,-1},
{0xA756,0xA756,"Lu",0,1,0},
{0xA757,0xA757,"Ll",-1,0,-1},
{0xA758,0xA758,"Lu",0,1,0},
{0xA759,0xA759,"Ll",-1,0,-1},
{0xA75A,0xA75A,"Lu",0,1,0},
{0xA75B,0xA75B,"Ll",-1,0,-1},
{0xA75C,0xA75C,"Lu",0,1,0},
{0xA75D,0xA75D,"Ll",-1,0,-1},
{0xA75E,0xA75E,"Lu",0,1,0},
{0xA75F,0xA75F,"Ll",-1,0,-1},
{0xA760,0xA760,"Lu",0,1,0},
{0xA761,0xA761,"Ll",-1,0,-1},
{0xA762,0xA762,"Lu",0,1,0},
{0xA763,0xA763,"Ll",-1,0,-1},
{0xA764,0xA764,"Lu",0,1,0},
{0xA765,0xA765,"Ll",-1,0,-1},
{0xA766,0xA766,"Lu",0,1,0},
{0xA767,0xA767,"Ll",-1,0,-1},
{0xA768,0xA768,"Lu",0,1,0},
{0xA769,0xA769,"Ll",-1,0,-1},
{0xA76A,0xA76A,"Lu",0,1,0},
{0xA76B,0xA76B,"Ll",-1,0,-1},
{0xA76C,0xA76C,"Lu",0,1,0},
{0xA76D,0xA76D,"Ll",-1,0,-1},
{0xA76E,0xA76E,"Lu",0,1,0},
{0xA76F,0xA76F,"Ll",-1,0,-1},
{0xA770,0xA770,"Lm",0,0,0},
{0xA771,0xA778,"Ll",0,0,0},
{0xA779,0xA779,"Lu",0,1,0},
{0xA77A,0xA77A,"Ll",-1,0,-1},
{0xA77B,0xA77B,"Lu",0,1,0},
{0xA77C,0xA77C,"Ll",-1,0,-1},
{0xA77D,0xA77D,"Lu",0,-35332,0},
{0xA77E,0xA77E,"Lu",0,1,0},
{0xA77F,0xA77F,"Ll",-1,0,-1},
{0xA780,0xA780,"Lu",0,1,0},
{0xA781,0xA781,"Ll",-1,0,-1},
{0xA782,0xA782,"Lu",0,1,0},
{0xA783,0xA783,"Ll",-1,0,-1},
{0xA784,0xA784,"Lu",0,1,0},
{0xA785,0xA785,"Ll",-1,0,-1},
{0xA786,0xA786,"Lu",0,1,0},
{0xA787,0xA787,"Ll",-1,0,-1},
{0xA788,0xA788,"Lm",0,0,0},
{0xA789,0xA78A,"Sk",0,0,0},
{0xA78B,0xA78B,"Lu",0,1,0},
{0xA78C,0xA78C,"Ll",-1,0,-1},
{0xA78D,0xA78D,"Lu",0,-42280,0},
{0xA78E,0xA78E,"Ll",0,0,0},
{0xA78F,0xA78F,"Lo",0,0,0},
{0xA790,0xA790,"Lu",0,1,0},
{0xA791,0xA791,"Ll",-1,0,-1},
{0xA792,0xA792,"Lu",0,1,0},
{0xA793,0xA793,"Ll",-1,0,-1},
{0xA794,0xA794,"Ll",48,0,48},
{0xA795,0xA795,"Ll",0,0,0},
{0xA796,0xA796,"Lu",0,1,0},
{0xA797,0xA797,"Ll",-1,0,-1},
{0xA798,0xA798,"Lu",0,1,0},
{0xA799,0xA799,"Ll",-1,0,-1},
{0xA79A,0xA79A,"Lu",0,1,0},
{0xA79B,0xA79B,"Ll",-1,0,-1},
{0xA79C,0xA79C,"Lu",0,1,0},
{0xA79D,0xA79D,"Ll",-1,0,-1},
{0xA79E,0xA79E,"Lu",0,1,0},
{0xA79F,0xA79F,"Ll",-1,0,-1},
{0xA7A0,0xA7A0,"Lu",0,1,0},
{0xA7A1,0xA7A1,"Ll",-1,0,-1},
{0xA7A2,0xA7A2,"Lu",0,1,0},
{0xA7A3,0xA7A3,"Ll",-1,0,-1},
{0xA7A4,0xA7A4,"Lu",0,1,0},
{0xA7A5,0xA7A5,"Ll",-1,0,-1},
{0xA7A6,0xA7A6,"Lu",0,1,0},
{0xA7A7,0xA7A7,"Ll",-1,0,-1},
{0xA7A8,0xA7A8,"Lu",0,1,0},
{0xA7A9,0xA7A9,"Ll",-1,0,-1},
{0xA7AA,0xA7AA,"Lu",0,-42308,0},
{0xA7AB,0xA7AB,"Lu",0,-42319,0},
{0xA7AC,0xA7AC,"Lu",0,-42315,0},
{0xA7AD,0xA7AD,"Lu",0,-42305,0},
{0xA7AE,0xA7AE,"Lu",0,-42308,0},
{0xA7AF,0xA7AF,"Ll",0,0,0},
{0xA7B0,0xA7B0,"Lu",0,-42258,0},
{0xA7B1,0xA7B1,"Lu",0,-42282,0},
{0xA7B2,0xA7B2,"Lu",0,-42261,0},
{0xA7B3,0xA7B3,"Lu",0,928,0},
{0xA7B4,0xA7B4,"Lu",0,1,0},
{0xA7B5,0xA7B5,"Ll",-1,0,-1},
{0xA7B6,0xA7B6,"Lu",0,1,0},
{0xA7B7,0xA7B7,"Ll",-1,0,-1},
{0xA7B8,0xA7B8,"Lu",0,1,0},
{0xA7B9,0xA7B9,"Ll",-1,0,-1},
{0xA7BA,0xA7BA,"Lu",0,1,0},
{0xA7BB,0xA7BB,"Ll",-1,0,-1},
{0xA7BC,0xA7BC,"Lu",0,1,0},
{0xA7BD,0xA7BD,"Ll",-1,0,-1},
{0xA7BE,0xA7BE,"Lu",0,1,0},
{0xA7BF,0xA7BF,"Ll",-1,0,-1},
{0xA7C0,0xA7C0,"Lu",0,1,0},
{0xA7C1,0xA7C1,"Ll",-1,0,-1},
{0xA7C2,0xA7C2,"Lu",0,1,0},
{0xA7C3,0xA7C3,"Ll",-1,0,-1},
{0xA7C4,0xA7C4,"Lu",0,-48,0},
{0xA7C5,0xA7C5,"Lu",0,-42307,0},
{0xA7C6,0xA7C6,"Lu",0,-35384,0},
{0xA7C7,0xA7C7,"Lu",0,1,0},
{0xA7C8,0xA7C8,"Ll",-1,0,-1},
{0xA7C9,0xA7C9,"Lu",0,1,0},
{0xA7CA,0xA7CA,"Ll",-1,0,-1},
{0xA7CB,0xA7CF,"Cn",0,0,0},
{0xA7D0,0xA7D0,"Lu",0,1,0},
{0xA7D1,0xA7D1,"Ll",-1,0,-1},
{0xA7D2,0xA7D2,"Cn",0,0,0},
{0xA7D3,0xA7D3,"Ll",0,0,0},
{0xA7D4,0xA7D4,"Cn",0,0,0},
{0xA7D5,0xA7D5,"Ll",0,0,0},
{0xA7D6,0xA7D6,"Lu",0,1,0},
{0xA7D7,0xA7D7,"Ll",-1,0,-1},
{0xA7D8,0xA7D8,"Lu",0,1,0},
{0xA7D9,0xA7D9,"Ll",-1,0,-1},
{0xA7DA,0xA7F1,"Cn",0,0,0},
{0xA7F2,0xA7F4,"Lm",0,0,0},
{0xA7F5,0xA7F5,"Lu",0,1,0},
{0xA7F6,0xA7F6,"Ll",-1,0,-1},
{0xA7F7,0xA7F7,"Lo",0,0,0},
{0xA7F8,0xA7F9,"Lm",0,0,0},
{0xA7FA,0xA7FA,"Ll",0,0,0},
{0xA7FB,0xA801,"Lo",0,0,0},
{0xA802,0xA802,"Mn",0,0,0},
{0xA803,0xA805,"Lo",0,0,0},
{0xA806,0xA806,"Mn",0,0,0},
{0xA807,0xA80A,"Lo",0,0,0},
{0xA80B,0xA80B,"Mn",0,0,0},
{0xA80C,0xA822,"Lo",0,0,0},
{0xA823,0xA824,"Mc",0,0,0},
{0xA825,0xA826,"Mn",0,0,0},
{0xA827,0xA827,"Mc",0,0,0},
{0xA828,0xA82B,"So",0,0,0},
{0xA82C,0xA82C,"Mn",0,0,0},
{0xA82D,0xA82F,"Cn",0,0,0},
{0xA830,0xA835,"No",0,0,0},
{0xA836,0xA837,"So",0,0,0},
{0xA838,0xA838,"Sc",0,0,0},
{0xA839,0xA839,"So",0,0,0},
{0xA83A,0xA83F,"Cn",0,0,0},
{0xA840,0xA873,"Lo",0,0,0},
{0xA874,0xA877,"Po",0,0,0},
{0xA878,0xA87F,"Cn",0,0,0},
{0xA880,0xA881,"Mc",0,0,0},
{0xA882,0xA8B3,"Lo",0,0,0},
{0xA8B4,0xA8C3,"Mc",0,0,0},
{0xA8C4,0xA8C5,"Mn",0,0,0},
{0xA8C6,0xA8CD,"Cn",0,0,0},
{0xA8CE,0xA8CF,"Po",0,0,0},
{0xA8D0,0xA8D9,"Nd",0,0,0},
{0xA8DA,0xA8DF,"Cn",0,0,0},
{0xA8E0,0xA8F1,"Mn",0,0,0},
{0xA8F2,0xA8F7,"Lo",0,0,0},
{0xA8F8,0xA8FA,"Po",0,0,0},
{0xA8FB,0xA8FB,"Lo",0,0,0},
{0xA8FC,0xA8FC,"Po",0,0,0},
{0xA8FD,0xA8FE,"Lo",0,0,0},
{0xA8FF,0xA8FF,"Mn",0,0,0},
{0xA900,0xA909,"Nd",0,0,0},
{0xA90A,0xA925,"Lo",0,0,0},
{0xA926,0xA92D,"Mn",0,0,0},
{0xA92E,0xA92F,"Po",0,0,0},
{0xA930,0xA946,"Lo",0,0,0},
{0xA947,0xA951,"Mn",0,0,0},
{0xA952,0xA953,"Mc",0,0,0},
{0xA954,0xA95E,"Cn",0,0,0},
{0xA95F,0xA95F,"Po",0,0,0},
{0xA960,0xA97C,"Lo",0,0,0},
{0xA97D,0xA97F,"Cn",0,0,0},
{0xA980,0xA982,"Mn",0,0,0},
{0xA983,0xA983,"Mc",0,0,0},
{0xA984,0xA9B2,"Lo",0,0,0},
{0xA9B3,0xA9B3,"Mn",0,0,0},
{0xA9B4,0xA9B5,"Mc",0,0,0},
{0xA9B6,0xA9B9,"Mn",0,0,0},
{0xA9BA,0xA9BB,"Mc",0,0,0},
{0xA9BC,0xA9BD,"Mn",0,0,0},
{0xA9BE,0xA9C0,"Mc",0,0,0},
{0xA9C1,0xA9CD,"Po",0,0,0},
{0xA9CE,0xA9CE,"Cn",0,0,0},
{0xA9CF,0xA9CF,"Lm",0,0,0},
{0xA9D0,0xA9D9,"Nd",0,0,0},
{0xA9DA,0xA9DD,"Cn",0,0,0},
{0xA9DE,0xA9DF,"Po",0,0,0},
{0xA9E0,0xA9E4,"Lo",0,0,0},
{0xA9E5,0xA9E5,"Mn",0,0,0},
{0xA9E6,0xA9E6,"Lm",0,0,0},
{0xA9E7,0xA9EF,"Lo",0,0,0},
{0xA9F0,0xA9F9,"Nd",0,0,0},
{0xA9FA,0xA9FE,"Lo",0,0,0},
{0xA9FF,0xA9FF,"Cn",0,0,0},
{0xAA00,0xAA28,"Lo",0,0,0},
{0xAA29,0xAA2E,"Mn",0,0,0},
{0xAA2F,0xAA30,"Mc",0,0,0},
{0xAA31,0xAA32,"Mn",0,0,0},
{0xAA33,0xAA34,"Mc",0,0,0},
{0xAA35,0xAA36,"Mn",0,0,0},
{0xAA37,0xAA3F,"Cn",0,0,0},
{0xAA40,0xAA42,"Lo",0,0,0},
{0xAA43,0xAA43,"Mn",0,0,0},
{0xAA44,0xAA4B,"Lo",0,0,0},
{0xAA4C,0xAA4C,"Mn",0,0,0},
{0xAA4D,0xAA4D,"Mc",0,0,0},
{0xAA4E,0xAA4F,"Cn",0,0,0},
{0xAA50,0xAA59,"Nd",0,0,0},
{0xAA5A,0xAA5B,"Cn",0,0,0},
{0xAA5C,0xAA5F,"Po",0,0,0},
{0xAA60,0xAA6F,"Lo",0,0,0},
{0xAA70,0xAA70,"Lm",0,0,0},
{0xAA71,0xAA76,"Lo",0,0,0},
{0xAA77,0xAA79,"So",0,0,0},
{0xAA7A,0xAA7A,"Lo",0,0,0},
{0xAA7B,0xAA7B,"Mc",0,0,0},
{0xAA7C,0xAA7C,"Mn",0,0,0},
{0xAA7D,0xAA7D,"Mc",0,0,0},
{0xAA7E,0xAAAF,"Lo",0,0,0},
{0xAAB0,0xAAB0,"Mn",0,0,0},
{0xAAB1,0xAAB1,"Lo",0,0,0},
{0xAAB2,0xAAB4,"Mn",0,0,0},
{0xAAB5,0xAAB6,"Lo",0,0,0},
{0xAAB7,0xAAB8,"Mn",0,0,0},
{0xAAB9,0xAABD,"Lo",0,0,0},
{0xAABE,0xAABF,"Mn",0,0,0},
{0xAAC0,0xAAC0,"Lo",0,0,0},
{0xAAC1,0xAAC1,"Mn",0,0,0},
{0xAAC2,0xAAC2,"Lo",0,0,0},
{0xAAC3,0xAADA,"Cn",0,0,0},
{0xAADB,0xAADC,"Lo",0,0,0},
{0xAADD,0xAADD,"Lm",0,0,0},
{0xAADE,0xAADF,"Po",0,0,0},
{0xAAE0,0xAAEA,"Lo",0,0,0},
{0xAAEB,0xAAEB,"Mc",0,0,0},
{0xAAEC,0xAAED,"Mn",0,0,0},
{0xAAEE,0xAAEF,"Mc",0,0,0},
{0xAAF0,0xAAF1,"Po",0,0,0},
{0xAAF2,0xAAF2,"Lo",0,0,0},
{0xAAF3,0xAAF4,"Lm",0,0,0},
{0xAAF5,0xAAF5,"Mc",0,0,0},
{0xAAF6,0xAAF6,"Mn",0,0,0},
{0xAAF7,0xAB00,"Cn",0,0,0},
{0xAB01,0xAB06,"Lo",0,0,0},
{0xAB07,0xAB08,"Cn",0,0,0},
{0xAB09,0xAB0E,"Lo",0,0,0},
{0xAB0F,0xAB10,"Cn",0,0,0},
{0xAB11,0xAB16,"Lo",0,0,0},
{0xAB17,0xAB1F,"Cn",0,0,0},
{0xAB20,0xAB26,"Lo",0,0,0},
{0xAB27,0xAB27,"Cn",0,0,0},
{0xAB28,0xAB2E,"Lo",0,0,0},
{0xAB2F,0xAB2F,"Cn",0,0,0},
{0xAB30,0xAB52,"Ll",0,0,0},
{0xAB53,0xAB53,"Ll",-928,0,-928},
{0xAB54,0xAB5A,"Ll",0,0,0},
{0xAB5B,0xAB5B,"Sk",0,0,0},
{0xAB5C,0xAB5F,"Lm",0,0,0},
{0xAB60,0xAB68,"Ll",0,0,0},
{0xAB69,0xAB69,"Lm",0,0,0},
{0xAB6A,0xAB6B,"Sk",0,0,0},
{0xAB6C,0xAB6F,"Cn",0,0,0},
{0xAB70,0xABBF,"Ll",-38864,0,-38864},
{0xABC0,0xABE2,"Lo",0,0,0},
{0xABE3,0xABE4,"Mc",0,0,0},
{0xABE5,0xABE5,"Mn",0,0,0},
{0xABE6,0xABE7,"Mc",0,0,0},
{0xABE8,0xABE8,"Mn",0,0,0},
{0xABE9,0xABEA,"Mc",0,0,0},
{0xABEB,0xABEB,"Po",0,0,0},
{0xABEC,0xABEC,"Mc",0,0,0},
{0xABED,0xABED,"Mn",0,0,0},
{0xABEE,0xABEF,"Cn",0,0,0},
{0xABF0,0xABF9,"Nd",0,0,0},
{0xABFA,0xABFF,"Cn",0,0,0},
{0xAC00,0xD7A3,"Lo",0,0,0},
{0xD7A4,0xD7AF,"Cn",0,0,0},
{0xD7B0,0xD7C6,"Lo",0,0,0},
{0xD7C7,0xD7CA,"Cn",0,0,0},
{0xD7CB,0xD7FB,"Lo",0,0,0},
{0xD7FC,0xD7FF,"Cn",0,0,0},
{0xD800,0xDFFF,"XX",0,0,0},
{0xE000,0xF8FF,"Co",0,0,0},
{0xF900,0xFA6D,"Lo",0,0,0},
{0xFA6E,0xFA6F,"Cn",0,0,0},
{0xFA70,0xFAD9,"Lo",0,0,0},
{0xFADA,0xFAFF,"Cn",0,0,0},
{0xFB00,0xFB06,"Ll",UD,0,UD},
{0xFB07,0xFB12,"Cn",0,0,0},
{0xFB13,0xFB17,"Ll",UD,0,UD},
{0xFB18,0xFB1C,"Cn",0,0,0},
{0xFB1D,0xFB1D,"Lo",0,0,0},
{0xFB1E,0xFB1E,"Mn",0,0,0},
{0xFB1F,0xFB28,"Lo",0,0,0},
{0xFB29,0xFB29,"Sm",0,0,0},
{0xFB2A,0xFB36,"Lo",0,0,0},
{0xFB37,0xFB37,"Cn",0,0,0},
{0xFB38,0xFB3C,"Lo",0,0,0},
{0xFB3D,0xFB3D,"Cn",0,0,0},
{0xFB3E,0xFB3E,"Lo",0,0,0},
{0xFB3F,0xFB3F,"Cn",0,0,0},
{0xFB40,0xFB41,"Lo",0,0,0},
{0xFB42,0xFB42,"Cn",0,0,0},
{0xFB43,0xFB44,"Lo",0,0,0},
{0xFB45,0xFB45,"Cn",0,0,0},
{0xFB46,0xFBB1,"Lo",0,0,0},
{0xFBB2,0xFBC2,"Sk",0,0,0},
{0xFBC3,0xFBD2,"Cn",0,0,0},
{0xFBD3,0xFD3D,"Lo",0,0,0},
{0xFD3E,0xFD3E,"Pe",0,0,0},
{0xFD3F,0xFD3F,"Ps",0,0,0},
{0xFD40,0xFD4F,"So",0,0,0},
{0xFD50,0xFD8F,"Lo",0,0,0},
{0xFD90,0xFD91,"Cn",0,0,0},
{0xFD92,0xFDC7,"Lo",0,0,0},
{0xFDC8,0xFDCE,"Cn",0,0,0},
{0xFDCF,0xFDCF,"So",0,0,0},
{0xFDD0,0xFDEF,"XX",0,0,0},
{0xFDF0,0xFDFB,"Lo",0,0,0},
{0xFDFC,0xFDFC,"Sc",0,0,0},
{0xFDFD,0xFDFF,"So",0,0,0},
{0xFE00,0xFE0F,"Mn",0,0,0},
{0xFE10,0xFE16,"Po",0,0,0},
{0xFE17,0xFE17,"Ps",0,0,0},
{0xFE18,0xFE18,"Pe",0,0,0},
{0xFE19,0xFE19,"Po",0,0,0},
{0xFE1A,0xFE1F,"Cn",0,0,0},
{0xFE20,0xFE2F,"Mn",0,0,0},
{0xFE30,0xFE30,"Po",0,0,0},
{0xFE31,0xFE32,"Pd",0,0,0},
{0xFE33,0xFE34,"Pc",0,0,0},
{0xFE35,0xFE35,"Ps",0,0,0},
{0xFE36,0xFE36,"Pe",0,0,0},
{0xFE37,0xFE37,"Ps",0,0,0},
{0xFE38,0xFE38,"Pe",0,0,0},
{0xFE39,0xFE39,"Ps",0,0,0},
{0xFE3A,0xFE3A,"Pe",0,0,0},
{0xFE3B,0xFE3B,"Ps",0,0,0},
{0xFE3C,0xFE3C,"Pe",0,0,0},
{0xFE3D,0xFE3D,"Ps",0,0,0},
{0xFE3E,0xFE3E,"Pe",0,0,0},
{0xFE3F,0xFE3F,"Ps",0,0,0},
{0xFE40,0xFE40,"Pe",0,0,0},
{0xFE41,0xFE41,"Ps",0,0,0},
{0xFE42,0xFE42,"Pe",0,0,0},
{0xFE43,0xFE43,"Ps",0,0,0},
{0xFE44,0xFE44,"Pe",0,0,0},
{0xFE45,0xFE46,"Po",0,0,0},
{0xFE47,0xFE47,"Ps",0,0,0},
{0xFE48,0xFE48,"Pe",0,0,0},
{0xFE49,0xFE4C,"Po",0,0,0},
{0xFE4D,0xFE4F,"Pc",0,0,0},
{0xFE50,0xFE52,"Po",0,0,0},
{0xFE53,0xFE53,"Cn",0,0,0},
{0xFE54,0xFE57,"Po",0,0,0},
{0xFE58,0xFE58,"Pd",0,0,0},
{0xFE59,0xFE59,"Ps",0,0,0},
{0xFE5A,0xFE5A,"Pe",0,0,0},
{0xFE5B,0xFE5B,"Ps",0,0,0},
{0xFE5C,0xFE5C,"Pe",0,0,0},
{0xFE5D,0xFE5D,"Ps",0,0,0},
{0xFE5E,0xFE5E,"Pe",0,0,0},
{0xFE5F,0xFE61,"Po",0,0,0},
{0xFE62,0xFE62,"Sm",0,0,0},
{0xFE63,0xFE63,"Pd",0,0,0},
{0xFE64,0xFE66,"Sm",0,0,0},
{0xFE67,0xFE67,"Cn",0,0,0},
{0xFE68,0xFE68,"Po",0,0,0},
{0xFE69,0xFE69,"Sc",0,0,0},
{0xFE6A,0xFE6B,"Po",0,0,0},
{0xFE6C,0xFE6F,"Cn",0,0,0},
{0xFE70,0xFE74,"Lo",0,0,0},
{0xFE75,0xFE75,"Cn",0,0,0},
{0xFE76,0xFEFC,"Lo",0,0,0},
{0xFEFD,0xFEFE,"Cn",0,0,0},
{0xFEFF,0xFEFF,"Cf",0,0,0},
{0xFF00,0xFF00,"Cn",0,0,0},
{0xFF01,0xFF03,"Po",0,0,0},
{0xFF04,0xFF04,"Sc",0,0,0},
{0xFF05,0xFF07,"Po",0,0,0},
{0xFF08,0xFF08,"Ps",0,0,0},
{0xFF09,0xFF09,"Pe",0,0,0},
{0xFF0A,0xFF0A,"Po",0,0,0},
{0xFF0B,0xFF0B,"Sm",0,0,0},
{0xFF0C,0xFF0C,"Po",0,0,0},
{0xFF0D,0xFF0D,"Pd",0,0,0},
{0xFF0E,0xFF0F,"Po",0,0,0},
{0xFF10,0xFF19,"Nd",0,0,0},
{0xFF1A,0xFF1B,"Po",0,0,0},
{0xFF1C,0xFF1E,"Sm",0,0,0},
{0xFF1F,0xFF20,"Po",0,0,0},
{0xFF21,0xFF3A,"Lu",0,32,0},
{0xFF3B,0xFF3B,"Ps",0,0,0},
{0xFF3C,0xFF3C,"Po",0,0,0},
{0xFF3D,0xFF3D,"Pe",0,0,0},
{0xFF3E,0xFF3E,"Sk",0,0,0},
{0xFF3F,0xFF3F,"Pc",0,0,0},
{0xFF40,0xFF40,"Sk",0,0,0},
{0xFF41,0xFF5A,"Ll",-32,0,-32},
{0xFF5B,0xFF5B,"Ps",0,0,0},
{0xFF5C,0xFF5C,"Sm",0,0,0},
{0xFF5D,0xFF5D,"Pe",0,0,0},
{0xFF5E,0xFF5E,"Sm",0,0,0},
{0xFF5F,0xFF5F,"Ps",0,0,0},
{0xFF60,0xFF60,"Pe",0,0,0},
{0xFF61,0xFF61,"Po",0,0,0},
{0xFF62,0xFF62,"Ps",0,0,0},
{0xFF63,0xFF63,"Pe",0,0,0},
{0xFF64,0xFF65,"Po",0,0,0},
{0xFF66,0xFF6F,"Lo",0,0,0},
{0xFF70,0xFF70,"Lm",0,0,0},
{0xFF71,0xFF9D,"Lo",0,0,0},
{0xFF9E,0xFF9F,"Lm",0,0,0},
{0xFFA0,0xFFBE,"Lo",0,0,0},
{0xFFBF,0xFFC1,"Cn",0,0,0},
{0xFFC2,0xFFC7,"Lo",0,0,0},
{0xFFC8,0xFFC9,"Cn",0,0,0},
{0xFFCA,0xFFCF,"Lo",0,0,0},
{0xFFD0,0xFFD1,"Cn",0,0,0},
{0xFFD2,0xFFD7,"Lo",0,0,0},
{0xFFD8,0xFFD9,"Cn",0,0,0},
{0xFFDA,0xFFDC,"Lo",0,0,0},
{0xFFDD,0xFFDF,"Cn",0,0,0},
{0xFFE0,0xFFE1,"Sc",0,0,0},
{0xFFE2,0xFFE2,"Sm",0,0,0},
{0xFFE3,0xFFE3,"Sk",0,0,0},
{0xFFE4,0xFFE4,"So",0,0,0},
{0xFFE5,0xFFE6,"Sc",0,0,0},
{0xFFE7,0xFFE7,"Cn",0,0,0},
{0xFFE8,0xFFE8,"So",0,0,0},
{0xFFE9,0xFFEC,"Sm",0,0,0},
{0xFFED,0xFFEE,"So",0,0,0},
{0xFFEF,0xFFF8,"Cn",0,0,0},
{0xFFF9,0xFFFB,"Cf",0,0,0},
{0xFFFC,0xFFFD,"So",0,0,0},
{0xFFFE,0xFFFF,"XX",0,0,0},
{0x10000,0x1000B,"Lo",0,0,0},
{0x1000C,0x1000C,"Cn",0,0,0},
{0x1000D,0x10026,"Lo",0,0,0},
{0x10027,0x10027,"Cn",0,0,0},
{0x10028,0x1003A,"Lo",0,0,0},
{0x1003B,0x1003B,"Cn",0,0,0},
{0x1003C,0x1003D,"Lo",0,0,0},
{0x1003E,0x1003E,"Cn",0,0,0},
{0x1003F,0x1004D,"Lo",0,0,0},
{0x1004E,0x1004F,"Cn",0,0,0},
{0x10050,0x1005D,"Lo",0,0,0},
{0x1005E,0x1007F,"Cn",0,0,0},
{0x10080,0x100FA,"Lo",0,0,0},
{0x100FB,0x100FF,"Cn",0,0,0},
{0x10100,0x10102,"Po",0,0,0},
{0x10103,0x10106,"Cn",0,0,0},
{0x10107,0x10133,"No",0,0,0},
{0x10134,0x10136,"Cn",0,0,0},
{0x10137,0x1013F,"So",0,0,0},
{0x10140,0x10174,"Nl",0,0,0},
{0x10175,0x10178,"No",0,0,0},
{0x10179,0x10189,"So",0,0,0},
{0x1018A,0x1018B,"No",0,0,0},
{0x1018C,0x1018E,"So",0,0,0},
{0x1018F,0x1018F,"Cn",0,0,0},
{0x10190,0x1019C,"So",0,0,0},
{0x1019D,0x1019F,"Cn",0,0,0},
{0x101A0,0x101A0,"So",0,0,0},
{0x101A1,0x101CF,"Cn",0,0,0},
{0x101D0,0x101FC,"So",0,0,0},
{0x101FD,0x101FD,"Mn",0,0,0},
{0x101FE,0x1027F,"Cn",0,0,0},
{0x10280,0x1029C,"Lo",0,0,0},
{0x1029D,0x1029F,"Cn",0,0,0},
{0x102A0,0x102D0,"Lo",0,0,0},
{0x102D1,0x102DF,"Cn",0,0,0},
{0x102E0,0x102E0,"Mn",0,0,0},
{0x102E1,0x102FB,"No",0,0,0},
{0x102FC,0x102FF,"Cn",0,0,0},
{0x10300,0x1031F,"Lo",0,0,0},
{0x10320,0x10323,"No",0,0,0},
{0x10324,0x1032C,"Cn",0,0,0},
{0x1032D,0x10340,"Lo",0,0,0},
{0x10341,0x10341,"Nl",0,0,0},
{0x10342,0x10349,"Lo",0,0,0},
{0x1034A,0x1034A,"Nl",0,0,0},
{0x1034B,0x1034F,"Cn",0,0,0},
{0x10350,0x10375,"Lo",0,0,0},
{0x10376,0x1037A,"Mn",0,0,0},
{0x1037B,0x1037F,"Cn",0,0,0},
{0x10380,0x1039D,"Lo",0,0,0},
{0x1039E,0x1039E,"Cn",0,0,0},
{0x1039F,0x1039F,"Po",0,0,0},
{0x103A0,0x103C3,"Lo",0,0,0},
{0x103C4,0x103C7,"Cn",0,0,0},
{0x103C8,0x103CF,"Lo",0,0,0},
{0x103D0,0x103D0,"Po",0,0,0},
{0x103D1,0x103D5,"Nl",0,0,0},
{0x103D6,0x103FF,"Cn",0,0,0},
{0x10400,0x10427,"Lu",0,40,0},
{0x10428,0x1044F,"Ll",-40,0,-40},
{0x10450,0x1049D,"Lo",0,0,0},
{0x1049E,0x1049F,"Cn",0,0,0},
{0x104A0,0x104A9,"Nd",0,0,0},
{0x104AA,0x104AF,"Cn",0,0,0},
{0x104B0,0x104D3,"Lu",0,40,0},
{0x104D4,0x104D7,"Cn",0,0,0},
{0x104D8,0x104FB,"Ll",-40,0,-40},
{0x104FC,0x104FF,"Cn",0,0,0},
{0x10500,0x10527,"Lo",0,0,0},
{0x10528,0x1052F,"Cn",0,0,0},
{0x10530,0x10563,"Lo",0,0,0},
{0x10564,0x1056E,"Cn",0,0,0},
{0x1056F,0x1056F,"Po",0,0,0},
{0x10570,0x1057A,"Lu",0,39,0},
{0x1057B,0x1057B,"Cn",0,0,0},
{0x1057C,0x1058A,"Lu",0,39,0},
{0x1058B,0x1058B,"Cn",0,0,0},
{0x1058C,0x10592,"Lu",0,39,0},
{0x10593,0x10593,"Cn",0,0,0},
{0x10594,0x10595,"Lu",0,39,0},
{0x10596,0x10596,"Cn",0,0,0},
{0x10597,0x105A1,"Ll",-39,0,-39},
{0x105A2,0x105A2,"Cn",0,0,0},
{0x105A3,0x105B1,"Ll",-39,0,-39},
{0x105B2,0x105B2,"Cn",0,0,0},
{0x105B3,0x105B9,"Ll",-39,0,-39},
{0x105BA,0x105BA,"Cn",0,0,0},
{0x105BB,0x105BC,"Ll",-39,0,-39},
{0x105BD,0x105FF,"Cn",0,0,0},
{0x10600,0x10736,"Lo",0,0,0},
{0x10737,0x1073F,"Cn",0,0,0},
{0x10740,0x10755,"Lo",0,0,0},
{0x10756,0x1075F,"Cn",0,0,0},
{0x10760,0x10767,"Lo",0,0,0},
{0x10768,0x1077F,"Cn",0,0,0},
{0x10780,0x10785,"Lm",0,0,0},
{0x10786,0x10786,"Cn",0,0,0},
{0x10787,0x107B0,"Lm",0,0,0},
{0x107B1,0x107B1,"Cn",0,0,0},
{0x107B2,0x107BA,"Lm",0,0,0},
{0x107BB,0x107FF,"Cn",0,0,0},
{0x10800,0x10805,"Lo",0,0,0},
{0x10806,0x10807,"Cn",0,0,0},
{0x10808,0x10808,"Lo",0,0,0},
{0x10809,0x10809,"Cn",0,0,0},
{0x1080A,0x10835,"Lo",0,0,0},
{0x10836,0x10836,"Cn",0,0,0},
{0x10837,0x10838,"Lo",0,0,0},
{0x10839,0x1083B,"Cn",0,0,0},
{0x1083C,0x1083C,"Lo",0,0,0},
{0x1083D,0x1083E,"Cn",0,0,0},
{0x1083F,0x10855,"Lo",0,0,0},
{0x10856,0x10856,"Cn",0,0,0},
{0x10857,0x10857,"Po",0,0,0},
{0x10858,0x1085F,"No",0,0,0},
{0x10860,0x10876,"Lo",0,0,0},
{0x10877,0x10878,"So",0,0,0},
{0x10879,0x1087F,"No",0,0,0},
{0x10880,0x1089E,"Lo",0,0,0},
{0x1089F,0x108A6,"Cn",0,0,0},
{0x108A7,0x108AF,"No",0,0,0},
{0x108B0,0x108DF,"Cn",0,0,0},
{0x108E0,0x108F2,"Lo",0,0,0},
{0x108F3,0x108F3,"Cn",0,0,0},
{0x108F4,0x108F5,"Lo",0,0,0},
{0x108F6,0x108FA,"Cn",0,0,0},
{0x108FB,0x108FF,"No",0,0,0},
{0x10900,0x10915,"Lo",0,0,0},
{0x10916,0x1091B,"No",0,0,0},
{0x1091C,0x1091E,"Cn",0,0,0},
{0x1091F,0x1091F,"Po",0,0,0},
{0x10920,0x10939,"Lo",0,0,0},
{0x1093A,0x1093E,"Cn",0,0,0},
{0x1093F,0x1093F,"Po",0,0,0},
{0x10940,0x1097F,"Cn",0,0,0},
{0x10980,0x109B7,"Lo",0,0,0},
{0x109B8,0x109BB,"Cn",0,0,0},
{0x109BC,0x109BD,"No",0,0,0},
{0x109BE,0x109BF,"Lo",0,0,0},
{0x109C0,0x109CF,"No",0,0,0},
{0x109D0,0x109D1,"Cn",0,0,0},
{0x109D2,0x109FF,"No",0,0,0},
{0x10A00,0x10A00,"Lo",0,0,0},
{0x10A01,0x10A03,"Mn",0,0,0},
{0x10A04,0x10A04,"Cn",0,0,0},
{0x10A05,0x10A06,"Mn",0,0,0},
{0x10A07,0x10A0B,"Cn",0,0,0},
{0x10A0C,0x10A0F,"Mn",0,0,0},
{0x10A10,0x10A13,"Lo",0,0,0},
{0x10A14,0x10A14,"Cn",0,0,0},
{0x10A15,0x10A17,"Lo",0,0,0},
{0x10A18,0x10A18,"Cn",0,0,0},
{0x10A19,0x10A35,"Lo",0,0,0},
{0x10A36,0x10A37,"Cn",0,0,0},
{0x10A38,0x10A3A,"Mn",0,0,0},
{0x10A3B,0x10A3E,"Cn",0,0,0},
{0x10A3F,0x10A3F,"Mn",0,0,0},
{0x10A40,0x10A48,"No",0,0,0},
{0x10A49,0x10A4F,"Cn",0,0,0},
{0x10A50,0x10A58,"Po",0,0,0},
{0x10A59,0x10A5F,"Cn",0,0,0},
{0x10A60,0x10A7C,"Lo",0,0,0},
{0x10A7D,0x10A7E,"No",0,0,0},
{0x10A7F,0x10A7F,"Po",0,0,0},
{0x10A80,0x10A9C,"Lo",0,0,0},
{0x10A9D,0x10A9F,"No",0,0,0},
{0x10AA0,0x10ABF,"Cn",0,0,0},
{0x10AC0,0x10AC7,"Lo",0,0,0},
{0x10AC8,0x10AC8,"So",0,0,0},
{0x10AC9,0x10AE4,"Lo",0,0,0},
{0x10AE5,0x10AE6,"Mn",0,0,0},
{0x10AE7,0x10AEA,"Cn",0,0,0},
{0x10AEB,0x10AEF,"No",0,0,0},
{0x10AF0,0x10AF6,"Po",0,0,0},
{0x10AF7,0x10AFF,"Cn",0,0,0},
{0x10B00,0x10B35,"Lo",0,0,0},
{0x10B36,0x10B38,"Cn",0,0,0},
{0x10B39,0x10B3F,"Po",0,0,0},
{0x10B40,0x10B55,"Lo",0,0,0},
{0x10B56,0x10B57,"Cn",0,0,0},
{0x10B58,0x10B5F,"No",0,0,0},
{0x10B60,0x10B72,"Lo",0,0,0},
{0x10B73,0x10B77,"Cn",0,0,0},
{0x10B78,0x10B7F,"No",0,0,0},
{0x10B80,0x10B91,"Lo",0,0,0},
{0x10B92,0x10B98,"Cn",0,0,0},
{0x10B99,0x10B9C,"Po",0,0,0},
{0x10B9D,0x10BA8,"Cn",0,0,0},
{0x10BA9,0x10BAF,"No",0,0,0},
{0x10BB0,0x10BFF,"Cn",0,0,0},
{0x10C00,0x10C48,"Lo",0,0,0},
{0x10C49,0x10C7F,"Cn",0,0,0},
{0x10C80,0x10CB2,"Lu",0,64,0},
{0x10CB3,0x10CBF,"Cn",0,0,0},
{0x10CC0,0x10CF2,"Ll",-64,0,-64},
{0x10CF3,0x10CF9,"Cn",0,0,0},
{0x10CFA,0x10CFF,"No",0,0,0},
{0x10D00,0x10D23,"Lo",0,0,0},
{0x10D24,0x10D27,"Mn",0,0,0},
{0x10D28,0x10D2F,"Cn",0,0,0},
{0x10D30,0x10D39,"Nd",0,0,0},
{0x10D3A,0x10E5F,"Cn",0,0,0},
{0x10E60,0x10E7E,"No",0,0,0},
{0x10E7F,0x10E7F,"Cn",0,0,0},
{0x10E80,0x10EA9,"Lo",0,0,0},
{0x10EAA,0x10EAA,"Cn",0,0,0},
{0x10EAB,0x10EAC,"Mn",0,0,0},
{0x10EAD,0x10EAD,"Pd",0,0,0},
{0x10EAE,0x10EAF,"Cn",0,0,0},
{0x10EB0,0x10EB1,"Lo",0,0,0},
{0x10EB2,0x10EFC,"Cn",0,0,0},
{0x10EFD,0x10EFF,"Mn",0,0,0},
{0x10F00,0x10F1C,"Lo",0,0,0},
{0x10F1D,0x10F26,"No",0,0,0},
{0x10F27,0x10F27,"Lo",0,0,0},
{0x10F28,0x10F2F,"Cn",0,0,0},
{0x10F30,0x10F45,"Lo",0,0,0},
{0x10F46,0x10F50,"Mn",0,0,0},
{0x10F51,0x10F54,"No",0,0,0},
{0x10F55,0x10F59,"Po",0,0,0},
{0x10F5A,0x10F6F,"Cn",0,0,0},
{0x10F70,0x10F81,"Lo",0,0,0},
{0x10F82,0x10F85,"Mn",0,0,0},
{0x10F86,0x10F89,"Po",0,0,0},
{0x10F8A,0x10FAF,"Cn",0,0,0},
{0x10FB0,0x10FC4,"Lo",0,0,0},
{0x10FC5,0x10FCB,"No",0,0,0},
{0x10FCC,0x10FDF,"Cn",0,0,0},
{0x10FE0,0x10FF6,"Lo",0,0,0},
{0x10FF7,0x10FFF,"Cn",0,0,0},
{0x11000,0x11000,"Mc",0,0,0},
{0x11001,0x11001,"Mn",0,0,0},
{0x11002,0x11002,"Mc",0,0,0},
{0x11003,0x11037,"Lo",0,0,0},
{0x11038,0x11046,"Mn",0,0,0},
{0x11047,0x1104D,"Po",0,0,0},
{0x1104E,0x11051,"Cn",0,0,0},
{0x11052,0x11065,"No",0,0,0},
{0x11066,0x1106F,"Nd",0,0,0},
{0x11070,0x11070,"Mn",0,0,0},
{0x11071,0x11072,"Lo",0,0,0},
{0x11073,0x11074,"Mn",0,0,0},
{0x11075,0x11075,"Lo",0,0,0},
{0x11076,0x1107E,"Cn",0,0,0},
{0x1107F,0x11081,"Mn",0,0,0},
{0x11082,0x11082,"Mc",0,0,0},
{0x11083,0x110AF,"Lo",0,0,0},
{0x110B0,0x110B2,"Mc",0,0,0},
{0x110B3,0x110B6,"Mn",0,0,0},
{0x110B7,0x110B8,"Mc",0,0,0},
{0x110B9,0x110BA,"Mn",0,0,0},
{0x110BB,0x110BC,"Po",0,0,0},
{0x110BD,0x110BD,"Cf",0,0,0},
{0x110BE,0x110C1,"Po",0,0,0},
{0x110C2,0x110C2,"Mn",0,0,0},
{0x110C3,0x110CC,"Cn",0,0,0},
{0x110CD,0x110CD,"Cf",0,0,0},
{0x110CE,0x110CF,"Cn",0,0,0},
{0x110D0,0x110E8,"Lo",0,0,0},
{0x110E9,0x110EF,"Cn",0,0,0},
{0x110F0,0x110F9,"Nd",0,0,0},
{0x110FA,0x110FF,"Cn",0,0,0},
{0x11100,0x11102,"Mn",0,0,0},
{0x11103,0x11126,"Lo",0,0,0},
{0x11127,0x1112B,"Mn",0,0,0},
{0x1112C,0x1112C,"Mc",0,0,0},
{0x1112D,0x11134,"Mn",0,0,0},
{0x11135,0x11135,"Cn",0,0,0},
{0x11136,0x1113F,"Nd",0,0,0},
{0x11140,0x11143,"Po",0,0,0},
{0x11144,0x11144,"Lo",0,0,0},
{0x11145,0x11146,"Mc",0,0,0},
{0x11147,0x11147,"Lo",0,0,0},
{0x11148,0x1114F,"Cn",0,0,0},
{0x11150,0x11172,"Lo",0,0,0},
{0x11173,0x11173,"Mn",0,0,0},
{0x11174,0x11175,"Po",0,0,0},
{0x11176,0x11176,"Lo",0,0,0},
{0x11177,0x1117F,"Cn",0,0,0},
{0x11180,0x11181,"Mn",0,0,0},
{0x11182,0x11182,"Mc",0,0,0},
{0x11183,0x111B2,"Lo",0,0,0},
{0x111B3,0x111B5,"Mc",0,0,0},
{0x111B6,0x111BE,"Mn",0,0,0},
{0x111BF,0x111C0,"Mc",0,0,0},
{0x111C1,0x111C4,"Lo",0,0,0},
{0x111C5,0x111C8,"Po",0,0,0},
{0x111C9,0x111CC,"Mn",0,0,0},
{0x111CD,0x111CD,"Po",0,0,0},
{0x111CE,0x111CE,"Mc",0,0,0},
{0x111CF,0x111CF,"Mn",0,0,0},
{0x111D0,0x111D9,"Nd",0,0,0},
{0x111DA,0x111DA,"Lo",0,0,0},
{0x111DB,0x111DB,"Po",0,0,0},
{0x111DC,0x111DC,"Lo",0,0,0},
{0x111DD,0x111DF,"Po",0,0,0},
{0x111E0,0x111E0,"Cn",0,0,0},
{0x111E1,0x111F4,"No",0,0,0},
{0x111F5,0x111FF,"Cn",0,0,0},
{0x11200,0x11211,"Lo",0,0,0},
{0x11212,0x11212,"Cn",0,0,0},
{0x11213,0x1122B,"Lo",0,0,0},
{0x1122C,0x1122E,"Mc",0,0,0},
{0x1122F,0x11231,"Mn",0,0,0},
{0x11232,0x11233,"Mc",0,0,0},
{0x11234,0x11234,"Mn",0,0,0},
{0x11235,0x11235,"Mc",0,0,0},
{0x11236,0x11237,"Mn",0,0,0},
{0x11238,0x1123D,"Po",0,0,0},
{0x1123E,0x1123E,"Mn",0,0,0},
{0x1123F,0x11240,"Lo",0,0,0},
{0x11241,0x11241,"Mn",0,0,0},
{0x11242,0x1127F,"Cn",0,0,0},
{0x11280,0x11286,"Lo",0,0,0},
{0x11287,0x11287,"Cn",0,0,0},
{0x11288,0x11288,"Lo",0,0,0},
{0x11289,0x11289,"Cn",0,0,0},
{0x1128A,0x1128D,"Lo",0,0,0},
{0x1128E,0x1128E,"Cn",0,0,0},
{0x1128F,0x1129D,"Lo",0,0,0},
{0x1129E,0x1129E,"Cn",0,0,0},
{0x1129F,0x112A8,"Lo",0,0,0},
{0x112A9,0x112A9,"Po",0,0,0},
{0x112AA,0x112AF,"Cn",0,0,0},
{0x112B0,0x112DE,"Lo",0,0,0},
{0x112DF,0x112DF,"Mn",0,0,0},
{0x112E0,0x112E2,"Mc",0,0,0},
{0x112E3,0x112EA,"Mn",0,0,0},
{0x112EB,0x112EF,"Cn",0,0,0},
{0x112F0,0x112F9,"Nd",0,0,0},
{0x112FA,0x112FF,"Cn",0,0,0},
{0x11300,0x11301,"Mn",0,0,0},
{0x11302,0x11303,"Mc",0,0,0},
{0x11304,0x11304,"Cn",0,0,0},
{0x11305,0x1130C,"Lo",0,0,0},
{0x1130D,0x1130E,"Cn",0,0,0},
{0x1130F,0x11310,"Lo",0,0,0},
{0x11311,0x11312,"Cn",0,0,0},
{0x11313,0x11328,"Lo",0,0,0},
{0x11329,0x11329,"Cn",0,0,0},
{0x1132A,0x11330,"Lo",0,0,0},
{0x11331,0x11331,"Cn",0,0,0},
{0x11332,0x11333,"Lo",0,0,0},
{0x11334,0x11334,"Cn",0,0,0},
{0x11335,0x11339,"Lo",0,0,0},
{0x1133A,0x1133A,"Cn",0,0,0},
{0x1133B,0x1133C,"Mn",0,0,0},
{0x1133D,0x1133D,"Lo",0,0,0},
{0x1133E,0x1133F,"Mc",0,0,0},
{0x11340,0x11340,"Mn",0,0,0},
{0x11341,0x11344,"Mc",0,0,0},
{0x11345,0x11346,"Cn",0,0,0},
{0x11347,0x11348,"Mc",0,0,0},
{0x11349,0x1134A,"Cn",0,0,0},
{0x1134B,0x1134D,"Mc",0,0,0},
{0x1134E,0x1134F,"Cn",0,0,0},
{0x11350,0x11350,"Lo",0,0,0},
{0x11351,0x11356,"Cn",0,0,0},
{0x11357,0x11357,"Mc",0,0,0},
{0x11358,0x1135C,"Cn",0,0,0},
{0x1135D,0x11361,"Lo",0,0,0},
{0x11362,0x11363,"Mc",0,0,0},
{0x11364,0x11365,"Cn",0,0,0},
{0x11366,0x1136C,"Mn",0,0,0},
{0x1136D,0x1136F,"Cn",0,0,0},
{0x11370,0x11374,"Mn",0,0,0},
{0x11375,0x113FF,"Cn",0,0,0},
{0x11400,0x11434,"Lo",0,0,0},
{0x11435,0x11437,"Mc",0,0,0},
{0x11438,0x1143F,"Mn",0,0,0},
{0x11440,0x11441,"Mc",0,0,0},
{0x11442,0x11444,"Mn",0,0,0},
{0x11445,0x11445,"Mc",0,0,0},
{0x11446,0x11446,"Mn",0,0,0},
{0x11447,0x1144A,"Lo",0,0,0},
{0x1144B,0x1144F,"Po",0,0,0},
{0x11450,0x11459,"Nd",0,0,0},
{0x1145A,0x1145B,"Po",0,0,0},
{0x1145C,0x1145C,"Cn",0,0,0},
{0x1145D,0x1145D,"Po",0,0,0},
{0x1145E,0x1145E,"Mn",0,0,0},
{0x1145F,0x11461,"Lo",0,0,0},
{0x11462,0x1147F,"Cn",0,0,0},
{0x11480,0x114AF,"Lo",0,0,0},
{0x114B0,0x114B2,"Mc",0,0,0},
{0x114B3,0x114B8,"Mn",0,0,0},
{0x114B9,0x114B9,"Mc",0,0,0},
{0x114BA,0x114BA,"Mn",0,0,0},
{0x114BB,0x114BE,"Mc",0,0,0},
{0x114BF,0x114C0,"Mn",0,0,0},
{0x114C1,0x114C1,"Mc",0,0,0},
{0x114C2,0x114C3,"Mn",0,0,0},
{0x114C4,0x114C5,"Lo",0,0,0},
{0x114C6,0x114C6,"Po",0,0,0},
{0x114C7,0x114C7,"Lo",0,0,0},
{0x114C8,0x114CF,"Cn",0,0,0},
{0x114D0,0x114D9,"Nd",0,0,0},
{0x114DA,0x1157F,"Cn",0,0,0},
{0x11580,0x115AE,"Lo",0,0,0},
{0x115AF,0x115B1,"Mc",0,0,0},
{0x115B2,0x115B5,"Mn",0,0,0},
{0x115B6,0x115B7,"Cn",0,0,0},
{0x115B8,0x115BB,"Mc",0,0,0},
{0x115BC,0x115BD,"Mn",0,0,0},
{0x115BE,0x115BE,"Mc",0,0,0},
{0x115BF,0x115C0,"Mn",0,0,0},
{0x115C1,0x115D7,"Po",0,0,0},
{0x115D8,0x115DB,"Lo",0,0,0},
{0x115DC,0x115DD,"Mn",0,0,0},
{0x115DE,0x115FF,"Cn",0,0,0},
{0x11600,0x1162F,"Lo",0,0,0},
{0x11630,0x11632,"Mc",0,0,0},
{0x11633,0x1163A,"Mn",0,0,0},
{0x1163B,0x1163C,"Mc",0,0,0},
{0x1163D,0x1163D,"Mn",0,0,0},
{0x1163E,0x1163E,"Mc",0,0,0},
{0x1163F,0x11640,"Mn",0,0,0},
{0x11641,0x11643,"Po",0,0,0},
{0x11644,0x11644,"Lo",0,0,0},
{0x11645,0x1164F,"Cn",0,0,0},
{0x11650,0x11659,"Nd",0,0,0},
{0x1165A,0x1165F,"Cn",0,0,0},
{0x11660,0x1166C,"Po",0,0,0},
{0x1166D,0x1167F,"Cn",0,0,0},
{0x11680,0x116AA,"Lo",0,0,0},
{0x116AB,0x116AB,"Mn",0,0,0},
{0x116AC,0x116AC,"Mc",0,0,0},
{0x116AD,0x116AD,"Mn",0,0,0},
{0x116AE,0x116AF,"Mc",0,0,0},
{0x116B0,0x116B5,"Mn",0,0,0},
{0x116B6,0x116B6,"Mc",0,0,0},
{0x116B7,0x116B7,"Mn",0,0,0},
{0x116B8,0x116B8,"Lo",0,0,0},
{0x116B9,0x116B9,"Po",0,0,0},
{0x116BA,0x116BF,"Cn",0,0,0},
{0x116C0,0x116C9,"Nd",0,0,0},
{0x116CA,0x116FF,"Cn",0,0,0},
{0x11700,0x1171A,"Lo",0,0,0},
{0x1171B,0x1171C,"Cn",0,0,0},
{0x1171D,0x1171F,"Mn",0,0,0},
{0x11720,0x11721,"Mc",0,0,0},
{0x11722,0x11725,"Mn",0,0,0},
{0x11726,0x11726,"Mc",0,0,0},
{0x11727,0x1172B,"Mn",0,0,0},
{0x1172C,0x1172F,"Cn",0,0,0},
{0x11730,0x11739,"Nd",0,0,0},
{0x1173A,0x1173B,"No",0,0,0},
{0x1173C,0x1173E,"Po",0,0,0},
{0x1173F,0x1173F,"So",0,0,0},
{0x11740,0x11746,"Lo",0,0,0},
{0x11747,0x117FF,"Cn",0,0,0},
{0x11800,0x1182B,"Lo",0,0,0},
{0x1182C,0x1182E,"Mc",0,0,0},
{0x1182F,0x11837,"Mn",0,0,0},
{0x11838,0x11838,"Mc",0,0,0},
{0x11839,0x1183A,"Mn",0,0,0},
{0x1183B,0x1183B,"Po",0,0,0},
{0x1183C,0x1189F,"Cn",0,0,0},
{0x118A0,0x118BF,"Lu",0,32,0},
{0x118C0,0x118DF,"Ll",-32,0,-32},
{0x118E0,0x118E9,"Nd",0,0,0},
{0x118EA,0x118F2,"No",0,0,0},
{0x118F3,0x118FE,"Cn",0,0,0},
{0x118FF,0x11906,"Lo",0,0,0},
{0x11907,0x11908,"Cn",0,0,0},
{0x11909,0x11909,"Lo",0,0,0},
{0x1190A,0x1190B,"Cn",0,0,0},
{0x1190C,0x11913,"Lo",0,0,0},
{0x11914,0x11914,"Cn",0,0,0},
{0x11915,0x11916,"Lo",0,0,0},
{0x11917,0x11917,"Cn",0,0,0},
{0x11918,0x1192F,"Lo",0,0,0},
{0x11930,0x11935,"Mc",0,0,0},
{0x11936,0x11936,"Cn",0,0,0},
{0x11937,0x11938,"Mc",0,0,0},
{0x11939,0x1193A,"Cn",0,0,0},
{0x1193B,0x1193C,"Mn",0,0,0},
{0x1193D,0x1193D,"Mc",0,0,0},
{0x1193E,0x1193E,"Mn",0,0,0},
{0x1193F,0x1193F,"Lo",0,0,0},
{0x11940,0x11940,"Mc",0,0,0},
{0x11941,0x11941,"Lo",0,0,0},
{0x11942,0x11942,"Mc",0,0,0},
{0x11943,0x11943,"Mn",0,0,0},
{0x11944,0x11946,"Po",0,0,0},
{0x11947,0x1194F,"Cn",0,0,0},
{0x11950,0x11959,"Nd",0,0,0},
{0x1195A,0x1199F,"Cn",0,0,0},
{0x119A0,0x119A7,"Lo",0,0,0},
{0x119A8,0x119A9,"Cn",0,0,0},
{0x119AA,0x119D0,"Lo",0,0,0},
{0x119D1,0x119D3,"Mc",0,0,0},
{0x119D4,0x119D7,"Mn",0,0,0},
{0x119D8,0x119D9,"Cn",0,0,0},
{0x119DA,0x119DB,"Mn",0,0,0},
{0x119DC,0x119DF,"Mc",0,0,0},
{0x119E0,0x119E0,"Mn",0,0,0},
{0x119E1,0x119E1,"Lo",0,0,0},
{0x119E2,0x119E2,"Po",0,0,0},
{0x119E3,0x119E3,"Lo",0,0,0},
{0x119E4,0x119E4,"Mc",0,0,0},
{0x119E5,0x119FF,"Cn",0,0,0},
{0x11A00,0x11A00,"Lo",0,0,0},
{0x11A01,0x11A0A,"Mn",0,0,0},
{0x11A0B,0x11A32,"Lo",0,0,0},
{0x11A33,0x11A38,"Mn",0,0,0},
{0x11A39,0x11A39,"Mc",0,0,0},
{0x11A3A,0x11A3A,"Lo",0,0,0},
{0x11A3B,0x11A3E,"Mn",0,0,0},
{0x11A3F,0x11A46,"Po",0,0,0},
{0x11A47,0x11A47,"Mn",0,0,0},
{0x11A48,0x11A4F,"Cn",0,0,0},
{0x11A50,0x11A50,"Lo",0,0,0},
{0x11A51,0x11A56,"Mn",0,0,0},
{0x11A57,0x11A58,"Mc",0,0,0},
{0x11A59,0x11A5B,"Mn",0,0,0},
{0x11A5C,0x11A89,"Lo",0,0,0},
{0x11A8A,0x11A96,"Mn",0,0,0},
{0x11A97,0x11A97,"Mc",0,0,0},
{0x11A98,0x11A99,"Mn",0,0,0},
{0x11A9A,0x11A9C,"Po",0,0,0},
{0x11A9D,0x11A9D,"Lo",0,0,0},
{0x11A9E,0x11AA2,"Po",0,0,0},
{0x11AA3,0x11AAF,"Cn",0,0,0},
{0x11AB0,0x11AF8,"Lo",0,0,0},
{0x11AF9,0x11AFF,"Cn",0,0,0},
{0x11B00,0x11B09,"Po",0,0,0},
{0x11B0A,0x11BFF,"Cn",0,0,0},
{0x11C00,0x11C08,"Lo",0,0,0},
{0x11C09,0x11C09,"Cn",0,0,0},
{0x11C0A,0x11C2E,"Lo",0,0,0},
{0x11C2F,0x11C2F,"Mc",0,0,0},
{0x11C30,0x11C36,"Mn",0,0,0},
{0x11C37,0x11C37,"Cn",0,0,0},
{0x11C38,0x11C3D,"Mn",0,0,0},
{0x11C3E,0x11C3E,"Mc",0,0,0},
{0x11C3F,0x11C3F,"Mn",0,0,0},
{0x11C40,0x11C40,"Lo",0,0,0},
{0x11C41,0x11C45,"Po",0,0,0},
{0x11C46,0x11C4F,"Cn",0,0,0},
{0x11C50,0x11C59,"Nd",0,0,0},
{0x11C5A,0x11C6C,"No",0,0,0},
{0x11C6D,0x11C6F,"Cn",0,0,0},
{0x11C70,0x11C71,"Po",0,0,0},
{0x11C72,0x11C8F,"Lo",0,0,0},
{0x11C90,0x11C91,"Cn",0,0,0},
{0x11C92,0x11CA7,"Mn",0,0,0},
{0x11CA8,0x11CA8,"Cn",0,0,0},
{0x11CA9,0x11CA9,"Mc",0,0,0},
{0x11CAA,0x11CB0,"Mn",0,0,0},
{0x11CB1,0x11CB1,"Mc",0,0,0},
{0x11CB2,0x11CB3,"Mn",0,0,0},
{0x11CB4,0x11CB4,"Mc",0,0,0},
{0x11CB5,0x11CB6,"Mn",0,0,0},
{0x11CB7,0x11CFF,"Cn",0,0,0},
{0x11D00,0x11D06,"Lo",0,0,0},
{0x11D07,0x11D07,"Cn",0,0,0},
{0x11D08,0x11D09,"Lo",0,0,0},
{0x11D0A,0x11D0A,"Cn",0,0,0},
{0x11D0B,0x11D30,"Lo",0,0,0},
{0x11D31,0x11D36,"Mn",0,0,0},
{0x11D37,0x11D39,"Cn",0,0,0},
{0x11D3A,0x11D3A,"Mn",0,0,0},
{0x11D3B,0x11D3B,"Cn",0,0,0},
{0x11D3C,0x11D3D,"Mn",0,0,0},
{0x11D3E,0x11D3E,"Cn",0,0,0},
{0x11D3F,0x11D45,"Mn",0,0,0},
{0x11D46,0x11D46,"Lo",0,0,0},
{0x11D47,0x11D47,"Mn",0,0,0},
{0x11D48,0x11D4F,"Cn",0,0,0},
{0x11D50,0x11D59,"Nd",0,0,0},
{0x11D5A,0x11D5F,"Cn",0,0,0},
{0x11D60,0x11D65,"Lo",0,0,0},
{0x11D66,0x11D66,"Cn",0,0,0},
{0x11D67,0x11D68,"Lo",0,0,0},
{0x11D69,0x11D69,"Cn",0,0,0},
{0x11D6A,0x11D89,"Lo",0,0,0},
{0x11D8A,0x11D8E,"Mc",0,0,0},
{0x11D8F,0x11D8F,"Cn",0,0,0},
{0x11D90,0x11D91,"Mn",0,0,0},
{0x11D92,0x11D92,"Cn",0,0,0},
{0x11D93,0x11D94,"Mc",0,0,0},
{0x11D95,0x11D95,"Mn",0,0,0},
{0x11D96,0x11D96,"Mc",0,0,0},
{0x11D97,0x11D97,"Mn",0,0,0},
{0x11D98,0x11D98,"Lo",0,0,0},
{0x11D99,0x11D9F,"Cn",0,0,0},
{0x11DA0,0x11DA9,"Nd",0,0,0},
{0x11DAA,0x11EDF,"Cn",0,0,0},
{0x11EE0,0x11EF2,"Lo",0,0,0},
{0x11EF3,0x11EF4,"Mn",0,0,0},
{0x11EF5,0x11EF6,"Mc",0,0,0},
{0x11EF7,0x11EF8,"Po",0,0,0},
{0x11EF9,0x11EFF,"Cn",0,0,0},
{0x11F00,0x11F01,"Mn",0,0,0},
{0x11F02,0x11F02,"Lo",0,0,0},
{0x11F03,0x11F03,"Mc",0,0,0},
{0x11F04,0x11F10,"Lo",0,0,0},
{0x11F11,0x11F11,"Cn",0,0,0},
{0x11F12,0x11F33,"Lo",0,0,0},
{0x11F34,0x11F35,"Mc",0,0,0},
{0x11F36,0x11F3A,"Mn",0,0,0},
{0x11F3B,0x11F3D,"Cn",0,0,0},
{0x11F3E,0x11F3F,"Mc",0,0,0},
{0x11F40,0x11F40,"Mn",0,0,0},
{0x11F41,0x11F41,"Mc",0,0,0},
{0x11F42,0x11F42,"Mn",0,0,0},
{0x11F43,0x11F4F,"Po",0,0,0},
{0x11F50,0x11F59,"Nd",0,0,0},
{0x11F5A,0x11FAF,"Cn",0,0,0},
{0x11FB0,0x11FB0,"Lo",0,0,0},
{0x11FB1,0x11FBF,"Cn",0,0,0},
{0x11FC0,0x11FD4,"No",0,0,0},
{0x11FD5,0x11FDC,"So",0,0,0},
{0x11FDD,0x11FE0,"Sc",0,0,0},
{0x11FE1,0x11FF1,"So",0,0,0},
{0x11FF2,0x11FFE,"Cn",0,0,0},
{0x11FFF,0x11FFF,"Po",0,0,0},
{0x12000,0x12399,"Lo",0,0,0},
{0x1239A,0x123FF,"Cn",0,0,0},
{0x12400,0x1246E,"Nl",0,0,0},
{0x1246F,0x1246F,"Cn",0,0,0},
{0x12470,0x12474,"Po",0,0,0},
{0x12475,0x1247F,"Cn",0,0,0},
{0x12480,0x12543,"Lo",0,0,0},
{0x12544,0x12F8F,"Cn",0,0,0},
{0x12F90,0x12FF0,"Lo",0,0,0},
{0x12FF1,0x12FF2,"Po",0,0,0},
{0x12FF3,0x12FFF,"Cn",0,0,0},
{0x13000,0x1342F,"Lo",0,0,0},
{0x13430,0x1343F,"Cf",0,0,0},
{0x13440,0x13440,"Mn",0,0,0},
{0x13441,0x13446,"Lo",0,0,0},
{0x13447,0x13455,"Mn",0,0,0},
{0x13456,0x143FF,"Cn",0,0,0},
{0x14400,0x14646,"Lo",0,0,0},
{0x14647,0x167FF,"Cn",0,0,0},
{0x16800,0x16A38,"Lo",0,0,0},
{0x16A39,0x16A3F,"Cn",0,0,0},
{0x16A40,0x16A5E,"Lo",0,0,0},
{0x16A5F,0x16A5F,"Cn",0,0,0},
{0x16A60,0x16A69,"Nd",0,0,0},
{0x16A6A,0x16A6D,"Cn",0,0,0},
{0x16A6E,0x16A6F,"Po",0,0,0},
{0x16A70,0x16ABE,"Lo",0,0,0},
{0x16ABF,0x16ABF,"Cn",0,0,0},
{0x16AC0,0x16AC9,"Nd",0,0,0},
{0x16ACA,0x16ACF,"Cn",0,0,0},
{0x16AD0,0x16AED,"Lo",0,0,0},
{0x16AEE,0x16AEF,"Cn",0,0,0},
{0x16AF0,0x16AF4,"Mn",0,0,0},
{0x16AF5,0x16AF5,"Po",0,0,0},
{0x16AF6,0x16AFF,"Cn",0,0,0},
{0x16B00,0x16B2F,"Lo",0,0,0},
{0x16B30,0x16B36,"Mn",0,0,0},
{0x16B37,0x16B3B,"Po",0,0,0},
{0x16B3C,0x16B3F,"So",0,0,0},
{0x16B40,0x16B43,"Lm",0,0,0},
{0x16B44,0x16B44,"Po",0,0,0},
{0x16B45,0x16B45,"So",0,0,0},
{0x16B46,0x16B4F,"Cn",0,0,0},
{0x16B50,0x16B59,"Nd",0,0,0},
{0x16B5A,0x16B5A,"Cn",0,0,0},
{0x16B5B,0x16B61,"No",0,0,0},
{0x16B62,0x16B62,"Cn",0,0,0},
{0x16B63,0x16B77,"Lo",0,0,0},
{0x16B78,0x16B7C,"Cn",0,0,0},
{0x16B7D,0x16B8F,"Lo",0,0,0},
{0x16B90,0x16E3F,"Cn",0,0,0},
{0x16E40,0x16E5F,"Lu",0,32,0},
{0x16E60,0x16E7F,"Ll",-32,0,-32},
{0x16E80,0x16E96,"No",0,0,0},
{0x16E97,0x16E9A,"Po",0,0,0},
{0x16E9B,0x16EFF,"Cn",0,0,0},
{0x16F00,0x16F4A,"Lo",0,0,0},
{0x16F4B,0x16F4E,"Cn",0,0,0},
{0x16F4F,0x16F4F,"Mn",0,0,0},
{0x16F50,0x16F50,"Lo",0,0,0},
{0x16F51,0x16F87,"Mc",0,0,0},
{0x16F88,0x16F8E,"Cn",0,0,0},
{0x16F8F,0x16F92,"Mn",0,0,0},
{0x16F93,0x16F9F,"Lm",0,0,0},
{0x16FA0,0x16FDF,"Cn",0,0,0},
{0x16FE0,0x16FE1,"Lm",0,0,0},
{0x16FE2,0x16FE2,"Po",0,0,0},
{0x16FE3,0x16FE3,"Lm",0,0,0},
{0x16FE4,0x16FE4,"Mn",0,0,0},
{0x16FE5,0x16FEF,"Cn",0,0,0},
{0x16FF0,0x16FF1,"Mc",0,0,0},
{0x16FF2,0x16FFF,"Cn",0,0,0},
{0x17000,0x187F7,"Lo",0,0,0},
{0x187F8,0x187FF,"Cn",0,0,0},
{0x18800,0x18CD5,"Lo",0,0,0},
{0x18CD6,0x18CFF,"Cn",0,0,0},
{0x18D00,0x18D08,"Lo",0,0,0},
{0x18D09,0x1AFEF,"Cn",0,0,0},
{0x1AFF0,0x1AFF3,"Lm",0,0,0},
{0x1AFF4,0x1AFF4,"Cn",0,0,0},
{0x1AFF5,0x1AFFB,"Lm",0,0,0},
{0x1AFFC,0x1AFFC,"Cn",0,0,0},
{0x1AFFD,0x1AFFE,"Lm",0,0,0},
{0x1AFFF,0x1AFFF,"Cn",0,0,0},
{0x1B000,0x1B122,"Lo",0,0,0},
{0x1B123,0x1B131,"Cn",0,0,0},
{0x1B132,0x1B132,"Lo",0,0,0},
{0x1B133,0x1B14F,"Cn",0,0,0},
{0x1B150,0x1B152,"Lo",0,0,0},
{0x1B153,0x1B154,"Cn",0,0,0},
{0x1B155,0x1B155,"Lo",0,0,0},
{0x1B156,0x1B163,"Cn",0,0,0},
{0x1B164,0x1B167,"Lo",0,0,0},
{0x1B168,0x1B16F,"Cn",0,0,0},
{0x1B170,0x1B2FB,"Lo",0,0,0},
{0x1B2FC,0x1BBFF,"Cn",0,0,0},
{0x1BC00,0x1BC6A,"Lo",0,0,0},
{0x1BC6B,0x1BC6F,"Cn",0,0,0},
{0x1BC70,0x1BC7C,"Lo",0,0,0},
{0x1BC7D,0x1BC7F,"Cn",0,0,0},
{0x1BC80,0x1BC88,"Lo",0,0,0},
{0x1BC89,0x1BC8F,"Cn",0,0,0},
{0x1BC90,0x1BC99,"Lo",0,0,0},
{0x1BC9A,0x1BC9B,"Cn",0,0,0},
{0x1BC9C,0x1BC9C,"So",0,0,0},
{0x1BC9D,0x1BC9E,"Mn",0,0,0},
{0x1BC9F,0x1BC9F,"Po",0,0,0},
{0x1BCA0,0x1BCA3,"Cf",0,0,0},
{0x1BCA4,0x1CEFF,"Cn",0,0,0},
{0x1CF00,0x1CF2D,"Mn",0,0,0},
{0x1CF2E,0x1CF2F,"Cn",0,0,0},
{0x1CF30,0x1CF46,"Mn",0,0,0},
{0x1CF47,0x1CF4F,"Cn",0,0,0},
{0x1CF50,0x1CFC3,"So",0,0,0},
{0x1CFC4,0x1CFFF,"Cn",0,0,0},
{0x1D000,0x1D0F5,"So",0,0,0},
{0x1D0F6,0x1D0FF,"Cn",0,0,0},
{0x1D100,0x1D126,"So",0,0,0},
{0x1D127,0x1D128,"Cn",0,0,0},
{0x1D129,0x1D164,"So",0,0,0},
{0x1D165,0x1D166,"Mc",0,0,0},
{0x1D167,0x1D169,"Mn",0,0,0},
{0x1D16A,0x1D16C,"So",0,0,0},
{0x1D16D,0x1D172,"Mc",0,0,0},
{0x1D173,0x1D17A,"Cf",0,0,0},
{0x1D17B,0x1D182,"Mn",0,0,0},
{0x1D183,0x1D184,"So",0,0,0},
{0x1D185,0x1D18B,"Mn",0,0,0},
{0x1D18C,0x1D1A9,"So",0,0,0},
{0x1D1AA,0x1D1AD,"Mn",0,0,0},
{0x1D1AE,0x1D1EA,"So",0,0,0},
{0x1D1EB,0x1D1FF,"Cn",0,0,0},
{0x1D200,0x1D241,"So",0,0,0},
{0x1D242,0x1D244,"Mn",0,0,0},
{0x1D245,0x1D245,"So",0,0,0},
{0x1D246,0x1D2BF,"Cn",0,0,0},
{0x1D2C0,0x1D2D3,"No",0,0,0},
{0x1D2D4,0x1D2DF,"Cn",0,0,0},
{0x1D2E0,0x1D2F3,"No",0,0,0},
{0x1D2F4,0x1D2FF,"Cn",0,0,0},
{0x1D300,0x1D356,"So",0,0,0},
{0x1D357,0x1D35F,"Cn",0,0,0},
{0x1D360,0x1D378,"No",0,0,0},
{0x1D379,0x1D3FF,"Cn",0,0,0},
{0x1D400,0x1D419,"Lu",0,0,0},
{0x1D41A,0x1D433,"Ll",0,0,0},
{0x1D434,0x1D44D,"Lu",0,0,0},
{0x1D44E,0x1D454,"Ll",0,0,0},
{0x1D455,0x1D455,"Cn",0,0,0},
{0x1D456,0x1D467,"Ll",0,0,0},
{0x1D468,0x1D481,"Lu",0,0,0},
{0x1D482,0x1D49B,"Ll",0,0,0},
{0x1D49C,0x1D49C,"Lu",0,0,0},
{0x1D49D,0x1D49D,"Cn",0,0,0},
{0x1D49E,0x1D49F,"Lu",0,0,0},
{0x1D4A0,0x1D4A1,"Cn",0,0,0},
{0x1D4A2,0x1D4A2,"Lu",0,0,0},
{0x1D4A3,0x1D4A4,"Cn",0,0,0},
{0x1D4A5,0x1D4A6,"Lu",0,0,0},
{0x1D4A7,0x1D4A8,"Cn",0,0,0},
{0x1D4A9,0x1D4AC,"Lu",0,0,0},
{0x1D4AD,0x1D4AD,"Cn",0,0,0},
{0x1D4AE,0x1D4B5,"Lu",0,0,0},
{0x1D4B6,0x1D4B9,"Ll",0,0,0},
{0x1D4BA,0x1D4BA,"Cn",0,0,0},
{0x1D4BB,0x1D4BB,"Ll",0,0,0},
{0x1D4BC,0x1D4BC,"Cn",0,0,0},
{0x1D4BD,0x1D4C3,"Ll",0,0,0},
{0x1D4C4,0x1D4C4,"Cn",0,0,0},
{0x1D4C5,0x1D4CF,"Ll",0,0,0},
{0x1D4D0,0x1D4E9,"Lu",0,0,0},
{0x1D4EA,0x1D503,"Ll",0,0,0},
{0x1D504,0x1D505,"Lu",0,0,0},
{0x1D506,0x1D506,"Cn",0,0,0},
{0x1D507,0x1D50A,"Lu",0,0,0},
{0x1D50B,0x1D50C,"Cn",0,0,0},
{0x1D50D,0x1D514,"Lu",0,0,0},
{0x1D515,0x1D515,"Cn",0,0,0},
{0x1D516,0x1D51C,"Lu",0,0,0},
{0x1D51D,0x1D51D,"Cn",0,0,0},
{0x1D51E,0x1D537,"Ll",0,0,0},
{0x1D538,0x1D539,"Lu",0,0,0},
{0x1D53A,0x1D53A,"Cn",0,0,0},
{0x1D53B,0x1D53E,"Lu",0,0,0},
{0x1D53F,0x1D53F,"Cn",0,0,0},
{0x1D540,0x1D544,"Lu",0,0,0},
{0x1D545,0x1D545,"Cn",0,0,0},
{0x1D546,0x1D546,"Lu",0,0,0},
{0x1D547,0x1D549,"Cn",0,0,0},
{0x1D54A,0x1D550,"Lu",0,0,0},
{0x1D551,0x1D551,"Cn",0,0,0},
{0x1D552,0x1D56B,"Ll",0,0,0},
{0x1D56C,0x1D585,"Lu",0,0,0},
{0x1D586,0x1D59F,"Ll",0,0,0},
{0x1D5A0,0x1D5B9,"Lu",0,0,0},
{0x1D5BA,0x1D5D3,"Ll",0,0,0},
{0x1D5D4,0x1D5ED,"Lu",0,0,0},
{0x1D5EE,0x1D607,"Ll",0,0,0},
{0x1D608,0x1D621,"Lu",0,0,0},
{0x1D622,0x1D63B,"Ll",0,0,0},
{0x1D63C,0x1D655,"Lu",0,0,0},
{0x1D656,0x1D66F,"Ll",0,0,0},
{0x1D670,0x1D689,"Lu",0,0,0},
{0x1D68A,0x1D6A5,"Ll",0,0,0},
{0x1D6A6,0x1D6A7,"Cn",0,0,0},
{0x1D6A8,0x1D6C0,"Lu",0,0,0},
{0x1D6C1,0x1D6C1,"Sm",0,0,0},
{0x1D6C2,0x1D6DA,"Ll",0,0,0},
{0x1D6DB,0x1D6DB,"Sm",0,0,0},
{0x1D6DC,0x1D6E1,"Ll",0,0,0},
{0x1D6E2,0x1D6FA,"Lu",0,0,0},
{0x1D6FB,0x1D6FB,"Sm",0,0,0},
{0x1D6FC,0x1D714,"Ll",0,0,0},
{0x1D715,0x1D715,"Sm",0,0,0},
{0x1D716,0x1D71B,"Ll",0,0,0},
{0x1D71C,0x1D734,"Lu",0,0,0},
{0x1D735,0x1D735,"Sm",0,0,0},
{0x1D736,0x1D74E,"Ll",0,0,0},
{0x1D74F,0x1D74F,"Sm",0,0,0},
{0x1D750,0x1D755,"Ll",0,0,0},
{0x1D756,0x1D76E,"Lu",0,0,0},
{0x1D76F,0x1D76F,"Sm",0,0,0},
{0x1D770,0x1D788,"Ll",0,0,0},
{0x1D789,0x1D789,"Sm",0,0,0},
{0x1D78A,0x1D78F,"Ll",0,0,0},
{0x1D790,0x1D7A8,"Lu",0,0,0},
{0x1D7A9,0x1D7A9,"Sm",0,0,0},
{0x1D7AA,0x1D7C2,"Ll",0,0,0},
{0x1D7C3,0x1D7C3,"Sm",0,0,0},
{0x1D7C4,0x1D7C9,"Ll",0,0,0},
{0x1D7CA,0x1D7CA,"Lu",0,0,0},
{0x1D7CB,0x1D7CB,"Ll",0,0,0},
{0x1D7CC,0x1D7CD,"Cn",0,0,0},
{0x1D7CE,0x1D7FF,"Nd",0,0,0},
{0x1D800,0x1D9FF,"So",0,0,0},
{0x1DA00,0x1DA36,"Mn",0,0,0},
{0x1DA37,0x1DA3A,"So",0,0,0},
{0x1DA3B,0x1DA6C,"Mn",0,0,0},
{0x1DA6D,0x1DA74,"So",0,0,0},
{0x1DA75,0x1DA75,"Mn",0,0,0},
{0x1DA76,0x1DA83,"So",0,0,0},
{0x1DA84,0x1DA84,"Mn",0,0,0},
{0x1DA85,0x1DA86,"So",0,0,0},
{0x1DA87,0x1DA8B,"Po",0,0,0},
{0x1DA8C,0x1DA9A,"Cn",0,0,0},
{0x1DA9B,0x1DA9F,"Mn",0,0,0},
{0x1DAA0,0x1DAA0,"Cn",0,0,0},
{0x1DAA1,0x1DAAF,"Mn",0,0,0},
{0x1DAB0,0x1DEFF,"Cn",0,0,0},
{0x1DF00,0x1DF09,"Ll",0,0,0},
{0x1DF0A,0x1DF0A,"Lo",0,0,0},
{0x1DF0B,0x1DF1E,"Ll",0,0,0},
{0x1DF1F,0x1DF24,"Cn",0,0,0},
{0x1DF25,0x1DF2A,"Ll",0,0,0},
{0x1DF2B,0x1DFFF,"Cn",0,0,0},
{0x1E000,0x1E006,"Mn",0,0,0},
{0x1E007,0x1E007,"Cn",0,0,0},
{0x1E008,0x1E018,"Mn",0,0,0},
{0x1E019,0x1E01A,"Cn",0,0,0},
{0x1E01B,0x1E021,"Mn",0,0,0},
{0x1E022,0x1E022,"Cn",0,0,0},
{0x1E023,0x1E024,"Mn",0,0,0},
{0x1E025,0x1E025,"Cn",0,0,0},
{0x1E026,0x1E02A,"Mn",0,0,0},
{0x1E02B,0x1E02F,"Cn",0,0,0},
{0x1E030,0x1E06D,"Lm",0,0,0},
{0x1E06E,0x1E08E,"Cn",0,0,0},
{0x1E08F,0x1E08F,"Mn",0,0,0},
{0x1E090,0x1E0FF,"Cn",0,0,0},
{0x1E100,0x1E12C,"Lo",0,0,0},
{0x1E12D,0x1E12F,"Cn",0,0,0},
{0x1E130,0x1E136,"Mn",0,0,0},
{0x1E137,0x1E13D,"Lm",0,0,0},
{0x1E13E,0x1E13F,"Cn",0,0,0},
{0x1E140,0x1E149,"Nd",0,0,0},
{0x1E14A,0x1E14D,"Cn",0,0,0},
{0x1E14E,0x1E14E,"Lo",0,0,0},
{0x1E14F,0x1E14F,"So",0,0,0},
{0x1E150,0x1E28F,"Cn",0,0,0},
{0x1E290,0x1E2AD,"Lo",0,0,0},
{0x1E2AE,0x1E2AE,"Mn",0,0,0},
{0x1E2AF,0x1E2BF,"Cn",0,0,0},
{0x1E2C0,0x1E2EB,"Lo",0,0,0},
{0x1E2EC,0x1E2EF,"Mn",0,0,0},
{0x1E2F0,0x1E2F9,"Nd",0,0,0},
{0x1E2FA,0x1E2FE,"Cn",0,0,0},
{0x1E2FF,0x1E2FF,"Sc",0,0,0},
{0x1E300,0x1E4CF,"Cn",0,0,0},
{0x1E4D0,0x1E4EA,"Lo",0,0,0},
{0x1E4EB,0x1E4EB,"Lm",0,0,0},
{0x1E4EC,0x1E4EF,"Mn",0,0,0},
{0x1E4F0,0x1E4F9,"Nd",0,0,0},
{0x1E4FA,0x1E7DF,"Cn",0,0,0},
{0x1E7E0,0x1E7E6,"Lo",0,0,0},
{0x1E7E7,0x1E7E7,"Cn",0,0,0},
{0x1E7E8,0x1E7EB,"Lo",0,0,0},
{0x1E7EC,0x1E7EC,"Cn",0,0,0},
{0x1E7ED,0x1E7EE,"Lo",0,0,0},
{0x1E7EF,0x1E7EF,"Cn",0,0,0},
{0x1E7F0,0x1E7FE,"Lo",0,0,0},
{0x1E7FF,0x1E7FF,"Cn",0,0,0},
{0x1E800,0x1E8C4,"Lo",0,0,0},
{0x1E8C5,0x1E8C6,"Cn",0,0,0},
{0x1E8C7,0x1E8CF,"No",0,0,0},
{0x1E8D0,0x1E8D6,"Mn",0,0,0},
{0x1E8D7,0x1E8FF,"Cn",0,0,0},
{0x1E900,0x1E921,"Lu",0,34,0},
{0x1E922,0x1E943,"Ll",-34,0,-34},
{0x1E944,0x1E94A,"Mn",0,0,0},
{0x1E94B,0x1E94B,"Lm",0,0,0},
{0x1E94C,0x1E94F,"Cn",0,0,0},
{0x1E950,0x1E959,"Nd",0,0,0},
{0x1E95A,0x1E95D,"Cn",0,0,0},
{0x1E95E,0x1E95F,"Po",0,0,0},
{0x1E960,0x1EC70,"Cn",0,0,0},
{0x1EC71,0x1ECAB,"No",0,0,0},
{0x1ECAC,0x1ECAC,"So",0,0,0},
{0x1ECAD,0x1ECAF,"No",0,0,0},
{0x1ECB0,0x1ECB0,"Sc",0,0,0},
{0x1ECB1,0x1ECB4,"No",0,0,0},
{0x1ECB5,0x1ED00,"Cn",0,0,0},
{0x1ED01,0x1ED2D,"No",0,0,0},
{0x1ED2E,0x1ED2E,"So",0,0,0},
{0x1ED2F,0x1ED3D,"No",0,0,0},
{0x1ED3E,0x1EDFF,"Cn",0,0,0},
{0x1EE00,0x1EE03,"Lo",0,0,0},
{0x1EE04,0x1EE04,"Cn",0,0,0},
{0x1EE05,0x1EE1F,"Lo",0,0,0},
{0x1EE20,0x1EE20,"Cn",0,0,0},
{0x1EE21,0x1EE22,"Lo",0,0,0},
{0x1EE23,0x1EE23,"Cn",0,0,0},
{0x1EE24,0x1EE24,"Lo",0,0,0},
{0x1EE25,0x1EE26,"Cn",0,0,0},
{0x1EE27,0x1EE27,"Lo",0,0,0},
{0x1EE28,0x1EE28,"Cn",0,0,0},
{0x1EE29,0x1EE32,"Lo",0,0,0},
{0x1EE33,0x1EE33,"Cn",0,0,0},
{0x1EE34,0x1EE37,"Lo",0,0,0},
{0x1EE38,0x1EE38,"Cn",0,0,0},
{0x1EE39,0x1EE39,"Lo",0,0,0},
{0x1EE3A,0x1EE3A,"Cn",0,0,0},
{0x1EE3B,0x1EE3B,"Lo",0,0,0},
{0x1EE3C,0x1EE41,"Cn",0,0,0},
{0x1EE42,0x1EE42,"Lo",0,0,0},
{0x1EE43,0x1EE46,"Cn",0,0,0},
{0x1EE47,0x1EE47,"Lo",0,0,0},
{0x1EE48,0x1EE48,"Cn",0,0,0},
{0x1EE49,0x1EE49,"Lo",0,0,0},
{0x1EE4A,0x1EE4A,"Cn",0,0,0},
{0x1EE4B,0x1EE4B,"Lo",0,0,0},
{0x1EE4C,0x1EE4C,"Cn",0,0,0},
{0x1EE4D,0x1EE4F,"Lo",0,0,0},
{0x1EE50,0x1EE50,"Cn",0,0,0},
{0x1EE51,0x1EE52,"Lo",0,0,0},
{0x1EE53,0x1EE53,"Cn",0,0,0},
{0x1EE54,0x1EE54,"Lo",0,0,0},
{0x1EE55,0x1EE56,"Cn",0,0,0},
{0x1EE57,0x1EE57,"Lo",0,0,0},
{0x1EE58,0x1EE58,"Cn",0,0,0},
{0x1EE59,0x1EE59,"Lo",0,0,0},
{0x1EE5A,0x1EE5A,"Cn",0,0,0},
{0x1EE5B,0x1EE5B,"Lo",0,0,0},
{0x1EE5C,0x1EE5C,"Cn",0,0,0},
{0x1EE5D,0x1EE5D,"Lo",0,0,0},
{0x1EE5E,0x1EE5E,"Cn",0,0,0},
{0x1EE5F,0x1EE5F,"Lo",0,0,0},
{0x1EE60,0x1EE60,"Cn",0,0,0},
{0x1EE61,0x1EE62,"Lo",0,0,0},
{0x1EE63,0x1EE63,"Cn",0,0,0},
{0x1EE64,0x1EE64,"Lo",0,0,0},
{0x1EE65,0x1EE66,"Cn",0,0,0},
{0x1EE67,0x1EE6A,"Lo",0,0,0},
{0x1EE6B,0x1EE6B,"Cn",0,0,0},
{0x1EE6C,0x1EE72,"Lo",0,0,0},
{0x1EE73,0x1EE73,"Cn",0,0,0},
{0x1EE74,0x1EE77,"Lo",0,0,0},
{0x1EE78,0x1EE78,"Cn",0,0,0},
{0x1EE79,0x1EE7C,"Lo",0,0,0},
{0x1EE7D,0x1EE7D,"Cn",0,0,0},
{0x1EE7E,0x1EE7E,"Lo",0,0,0},
{0x1EE7F,0x1EE7F,"Cn",0,0,0},
{0x1EE80,0x1EE89,"Lo",0,0,0},
{0x1EE8A,0x1EE8A,"Cn",0,0,0},
{0x1EE8B,0x1EE9B,"Lo",0,0,0},
{0x1EE9C,0x1EEA0,"Cn",0,0,0},
{0x1EEA1,0x1EEA3,"Lo",0,0,0},
{0x1EEA4,0x1EEA4,"Cn",0,0,0},
{0x1EEA5,0x1EEA9,"Lo",0,0,0},
{0x1EEAA,0x1EEAA,"Cn",0,0,0},
{0x1EEAB,0x1EEBB,"Lo",0,0,0},
{0x1EEBC,0x1EEEF,"Cn",0,0,0},
{0x1EEF0,0x1EEF1,"Sm",0,0,0},
{0x1EEF2,0x1EFFF,"Cn",0,0,0},
{0x1F000,0x1F02B,"So",0,0,0},
{0x1F02C,0x1F02F,"Cn",0,0,0},
{0x1F030,0x1F093,"So",0,0,0},
{0x1F094,0x1F09F,"Cn",0,0,0},
{0x1F0A0,0x1F0AE,"So",0,0,0},
{0x1F0AF,0x1F0B0,"Cn",0,0,0},
{0x1F0B1,0x1F0BF,"So",0,0,0},
{0x1F0C0,0x1F0C0,"Cn",0,0,0},
{0x1F0C1,0x1F0CF,"So",0,0,0},
{0x1F0D0,0x1F0D0,"Cn",0,0,0},
{0x1F0D1,0x1F0F5,"So",0,0,0},
{0x1F0F6,0x1F0FF,"Cn",0,0,0},
{0x1F100,0x1F10C,"No",0,0,0},
{0x1F10D,0x1F1AD,"So",0,0,0},
{0x1F1AE,0x1F1E5,"Cn",0,0,0},
{0x1F1E6,0x1F202,"So",0,0,0},
{0x1F203,0x1F20F,"Cn",0,0,0},
{0x1F210,0x1F23B,"So",0,0,0},
{0x1F23C,0x1F23F,"Cn",0,0,0},
{0x1F240,0x1F248,"So",0,0,0},
{0x1F249,0x1F24F,"Cn",0,0,0},
{0x1F250,0x1F251,"So",0,0,0},
{0x1F252,0x1F25F,"Cn",0,0,0},
{0x1F260,0x1F265,"So",0,0,0},
{0x1F266,0x1F2FF,"Cn",0,0,0},
{0x1F300,0x1F3FA,"So",0,0,0},
{0x1F3FB,0x1F3FF,"Sk",0,0,0},
{0x1F400,0x1F6D7,"So",0,0,0},
{0x1F6D8,0x1F6DB,"Cn",0,0,0},
{0x1F6DC,0x1F6EC,"So",0,0,0},
{0x1F6ED,0x1F6EF,"Cn",0,0,0},
{0x1F6F0,0x1F6FC,"So",0,0,0},
{0x1F6FD,0x1F6FF,"Cn",0,0,0},
{0x1F700,0x1F776,"So",0,0,0},
{0x1F777,0x1F77A,"Cn",0,0,0},
{0x1F77B,0x1F7D9,"So",0,0,0},
{0x1F7DA,0x1F7DF,"Cn",0,0,0},
{0x1F7E0,0x1F7EB,"So",0,0,0},
{0x1F7EC,0x1F7EF,"Cn",0,0,0},
{0x1F7F0,0x1F7F0,"So",0,0,0},
{0x1F7F1,0x1F7FF,"Cn",0,0,0},
{0x1F800,0x1F80B,"So",0,0,0},
{0x1F80C,0x1F80F,"Cn",0,0,0},
{0x1F810,0x1F847,"So",0,0,0},
{0x1F848,0x1F84F,"Cn",0,0,0},
{0x1F850,0x1F859,"So",0,0,0},
{0x1F85A,0x1F85F,"Cn",0,0,0},
{0x1F860,0x1F887,"So",0,0,0},
{0x1F888,0x1F88F,"Cn",0,0,0},
{0x1F890,0x1F8AD,"So",0,0,0},
{0x1F8AE,0x1F8AF,"Cn",0,0,0},
{0x1F8B0,0x1F8B1,"So",0,0,0},
{0x1F8B2,0x1F8FF,"Cn",0,0,0},
{0x1F900,0x1FA53,"So",0,0,0},
{0x1FA54,0x1FA5F,"Cn",0,0,0},
{0x1FA60,0x1FA6D,"So",0,0,0},
{0x1FA6E,0x1FA6F,"Cn",0,0,0},
{0x1FA70,0x1FA7C,"So",0,0,0},
{0x1FA7D,0x1FA7F,"Cn",0,0,0},
{0x1FA80,0x1FA88,"So",0,0,0},
{0x1FA89,0x1FA8F,"Cn",0,0,0},
{0x1FA90,0x1FABD,"So",0,0,0},
{0x1FABE,0x1FABE,"Cn",0,0,0},
{0x1FABF,0x1FAC5,"So",0,0,0},
{0x1FAC6,0x1FACD,"Cn",0,0,0},
{0x1FACE,0x1FADB,"So",0,0,0},
{0x1FADC,0x1FADF,"Cn",0,0,0},
{0x1FAE0,0x1FAE8,"So",0,0,0},
{0x1FAE9,0x1FAEF,"Cn",0,0,0},
{0x1FAF0,0x1FAF8,"So",0,0,0},
{0x1FAF9,0x1FAFF,"Cn",0,0,0},
{0x1FB00,0x1FB92,"So",0,0,0},
{0x1FB93,0x1FB93,"Cn",0,0,0},
{0x1FB94,0x1FBCA,"So",0,0,0},
{0x1FBCB,0x1FBEF,"Cn",0,0,0},
{0x1FBF0,0x1FBF9,"Nd",0,0,0},
{0x1FBFA,0x1FFFD,"Cn",0,0,0},
{0x1FFFE,0x1FFFF,"XX",0,0,0},
{0x20000,0x2A6DF,"Lo",0,0,0},
{0x2A6E0,0x2A6FF,"Cn",0,0,0},
{0x2A700,0x2B739,"Lo",0,0,0},
{0x2B73A,0x2B73F,"Cn",0,0,0},
{0x2B740,0x2B81D,"Lo",0,0,0},
{0x2B81E,0x2B81F,"Cn",0,0,0},
{0x2B820,0x2CEA1,"Lo",0,0,0},
{0x2CEA2,0x2CEAF,"Cn",0,0,0},
{0x2CEB0,0x2EBE0,"Lo",0,0,0},
{0x2EBE1,0x2F7FF,"Cn",0,0,0},
{0x2F800,0x2FA1D,"Lo",0,0,0},
{0x2FA1E,0x2FFFD,"Cn",0,0,0},
{0x2FFFE,0x2FFFF,"XX",0,0,0},
{0x30000,0x3134A,"Lo",0,0,0},
{0x3134B,0x3134F,"Cn",0,0,0},
{0x31350,0x323AF,"Lo",0,0,0},
{0x323B0,0x3FFFD,"Cn",0,0,0},
{0x3FFFE,0x3FFFF,"XX",0,0,0},
{0x40000,0x4FFFD,"Cn",0,0,0},
{0x4FFFE,0x4FFFF,"XX",0,0,0},
{0x50000,0x5FFFD,"Cn",0,0,0},
{0x5FFFE,0x5FFFF,"XX",0,0,0},
{0x60000,0x6FFFD,"Cn",0,0,0},
{0x6FFFE,0x6FFFF,"XX",0,0,0},
{0x70000,0x7FFFD,"Cn",0,0,0},
{0x7FFFE,0x7FFFF,"XX",0,0,0},
{0x80000,0x8FFFD,"Cn",0,0,0},
{0x8FFFE,0x8FFFF,"XX",0,0,0},
{0x90000,0x9FFFD,"Cn",0,0,0},
{0x9FFFE,0x9FFFF,"XX",0,0,0},
{0xA0000,0xAFFFD,"Cn",0,0,0},
{0xAFFFE,0xAFFFF,"XX",0,0,0},
{0xB0000,0xBFFFD,"Cn",0,0,0},
{0xBFFFE,0xBFFFF,"XX",0,0,0},
{0xC0000,0xCFFFD,"Cn",0,0,0},
{0xCFFFE,0xCFFFF,"XX",0,0,0},
{0xD0000,0xDFFFD,"Cn",0,0,0},
{0xDFFFE,0xDFFFF,"XX",0,0,0},
{0xE0000,0xE0000,"Cn",0,0,0},
{0xE0001,0xE0001,"Cf",0,0,0},
{0xE0002,0xE001F,"Cn",0,0,0},
{0xE0020,0xE007F,"Cf",0,0,0},
{0xE0080,0xE00FF,"Cn",0,0,0},
{0xE0100,0xE01EF,"Mn",0,0,0},
{0xE01F0,0xEFFFD,"Cn",0,0,0},
{0xEFFFE,0xEFFFF,"XX",0,0,0},
{0xF0000,0xFFFFD,"Co",0,0,0},
{0xFFFFE,0xFFFFF,"XX",0,0,0},
{0x100000,0x10FFFD,"Co",0,0,0},
{0x10FFFE,0x10FFFF,"XX",0,0,0},
};
