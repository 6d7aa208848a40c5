// Frozen copies of the documented palettes and character tables (reference data, not taken from /repo at run time).
#pragma once
#include <cstdint>
struct RefPalette { const char*name; uint8_t c[18][3]; };
static const RefPalette REF_PALETTES[]={
  {"legacy",{{0,0,0},{205,0,0},{0,205,0},{205,205,0},{0,0,238},{205,0,205},{0,205,205},{229,229,229},{127,127,127},{255,0,0},{0,255,0},{255,255,0},{92,92,255},{255,0,255},{0,255,255},{255,255,255},{229,229,229},{0,0,0}}},
  {"vga",{{0,0,0},{170,0,0},{0,170,0},{170,85,0},{0,0,170},{170,0,170},{0,170,170},{170,170,170},{85,85,85},{255,85,85},{85,255,85},{255,255,85},{85,85,255},{255,85,255},{85,255,255},{255,255,255},{170,170,170},{0,0,0}}},
  {"solarized",{{7,54,66},{220,50,47},{133,153,0},{181,137,0},{38,139,210},{211,54,130},{42,161,152},{238,232,213},{0,43,54},{203,75,22},{88,110,117},{101,123,131},{131,148,150},{108,113,196},{147,161,161},{253,246,227},{238,232,213},{7,54,66}}},
  {"solarized-black",{{0,0,0},{220,50,47},{133,153,0},{181,137,0},{38,139,210},{211,54,130},{42,161,152},{238,232,213},{0,43,54},{203,75,22},{88,110,117},{101,123,131},{131,148,150},{108,113,196},{147,161,161},{253,246,227},{238,232,213},{0,0,0}}},
  {"solarized-white",{{7,54,66},{220,50,47},{133,153,0},{181,137,0},{38,139,210},{211,54,130},{42,161,152},{238,232,213},{0,43,54},{203,75,22},{88,110,117},{101,123,131},{131,148,150},{108,113,196},{147,161,161},{253,246,227},{7,54,66},{238,232,213}}},
  {"soft-black",{{63,63,63},{112,80,80},{96,180,138},{223,175,143},{154,184,215},{220,140,195},{140,208,211},{255,255,255},{112,144,128},{220,163,163},{114,213,163},{240,223,175},{148,191,243},{236,147,211},{147,224,227},{220,220,204},{220,220,204},{44,44,44}}},
  {"base16-dark",{{0,0,0},{171,70,66},{161,181,108},{247,202,136},{124,175,194},{186,139,175},{134,193,185},{170,170,170},{85,85,85},{171,70,66},{161,181,108},{247,202,136},{124,175,194},{186,139,175},{134,193,185},{255,255,255},{216,216,216},{24,24,24}}},
  {"base16-light",{{0,0,0},{171,70,66},{161,181,108},{247,202,136},{124,175,194},{186,139,175},{134,193,185},{170,170,170},{85,85,85},{171,70,66},{161,181,108},{247,202,136},{124,175,194},{186,139,175},{134,193,185},{255,255,255},{24,24,24},{216,216,216}}},
};
static const uint32_t REF_unicode_lower[96]={0x0,0x21,0x22,0x23,0x24,0x25,0x26,0x27,0x28,0x29,0x2a,0x2b,0x2c,0x2d,0x2e,0x2f,0x30,0x31,0x32,0x33,0x34,0x35,0x36,0x37,0x38,0x39,0x3a,0x3b,0x3c,0x3d,0x3e,0x3f,0x40,0x41,0x42,0x43,0x44,0x45,0x46,0x47,0x48,0x49,0x4a,0x4b,0x4c,0x4d,0x4e,0x4f,0x50,0x51,0x52,0x53,0x54,0x55,0x56,0x57,0x58,0x59,0x5a,0x5b,0x5c,0x5d,0x5e,0x5f,0x60,0x61,0x62,0x63,0x64,0x65,0x66,0x67,0x68,0x69,0x6a,0x6b,0x6c,0x6d,0x6e,0x6f,0x70,0x71,0x72,0x73,0x74,0x75,0x76,0x77,0x78,0x79,0x7a,0x7b,0x7c,0x7d,0x7e,0x0};
static const uint32_t REF_unicode_upper[96]={0x0,0xa1,0xa2,0xa3,0xa4,0xa5,0xa6,0xa7,0xa8,0xa9,0xaa,0xab,0xac,0xad,0xae,0xaf,0xb0,0xb1,0xb2,0xb3,0xb4,0xb5,0xb6,0xb7,0xb8,0xb9,0xba,0xbb,0xbc,0xbd,0xbe,0xbf,0xc0,0xc1,0xc2,0xc3,0xc4,0xc5,0xc6,0xc7,0xc8,0xc9,0xca,0xcb,0xcc,0xcd,0xce,0xcf,0xd0,0xd1,0xd2,0xd3,0xd4,0xd5,0xd6,0xd7,0xd8,0xd9,0xda,0xdb,0xdc,0xdd,0xde,0xdf,0xe0,0xe1,0xe2,0xe3,0xe4,0xe5,0xe6,0xe7,0xe8,0xe9,0xea,0xeb,0xec,0xed,0xee,0xef,0xf0,0xf1,0xf2,0xf3,0xf4,0xf5,0xf6,0xf7,0xf8,0xf9,0xfa,0xfb,0xfc,0xfd,0xfe,0x0};
static const uint32_t REF_dec_supplemental_graphics[96]={0x0,0xa1,0xa2,0xa3,0x0,0xa5,0x0,0xa7,0xa4,0xa9,0xaa,0xab,0x0,0x0,0x0,0x0,0xb0,0xb1,0xb2,0xb3,0x0,0xb5,0xb6,0xb7,0x0,0xb9,0xba,0xbb,0xbc,0xbd,0x0,0xbf,0xc0,0xc1,0xc2,0xc3,0xc4,0xc5,0xc6,0xc7,0xc8,0xc9,0xca,0xcb,0xcc,0xcd,0xce,0xcf,0x0,0xd1,0xd2,0xd3,0xd4,0xd5,0xd6,0x152,0xd8,0xd9,0xda,0xdb,0xdc,0x178,0x0,0xdf,0xe0,0xe1,0xe2,0xe3,0xe4,0xe5,0xe6,0xe7,0xe8,0xe9,0xea,0xeb,0xec,0xed,0xee,0xef,0x0,0xf1,0xf2,0xf3,0xf4,0xf5,0xf6,0x153,0xf8,0xf9,0xfa,0xfb,0xfc,0xff,0x0,0x0};
static const uint32_t REF_dec_special_graphics[96]={0x0,0x21,0x22,0x23,0x24,0x25,0x26,0x27,0x28,0x29,0x2a,0x2b,0x2c,0x2d,0x2e,0x2f,0x30,0x31,0x32,0x33,0x34,0x35,0x36,0x37,0x38,0x39,0x3a,0x3b,0x3c,0x3d,0x3e,0x3f,0x40,0x41,0x42,0x43,0x44,0x45,0x46,0x47,0x48,0x49,0x4a,0x4b,0x4c,0x4d,0x4e,0x4f,0x50,0x51,0x52,0x53,0x54,0x55,0x56,0x57,0x58,0x59,0x5a,0x5b,0x5c,0x5d,0x5e,0x0,0x2666,0x2592,0x2409,0x240c,0x240d,0x240a,0xb0,0xb1,0x2424,0x240b,0x2518,0x2510,0x250c,0x2514,0x253c,0x23ba,0x23bb,0x2500,0x23bc,0x23bd,0x251c,0x2524,0x2534,0x252c,0x2502,0x2264,0x2265,0x3c0,0x2260,0xa3,0x22c5,0x0};
