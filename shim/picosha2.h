// Stand-in for the PicoSHA2 header (not installed here): SHA-256 with the one entry point FairMQ uses.
#pragma once
#include <cstdint>
#include <string>
namespace picosha2 {
inline std::string sha256hex(const unsigned char* d, size_t n)
{
    static const uint32_t k[64] = {
        0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
        0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
        0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
        0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
    std::string m((const char*)d, n);
    uint64_t bits = (uint64_t)n * 8;
    m += (char)0x80;
    while (m.size() % 64 != 56) m += (char)0;
    for (int i = 7; i >= 0; --i) m += (char)((bits >> (i * 8)) & 255);
    uint32_t h[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
    auto r = [](uint32_t x, int s) { return (x >> s) | (x << (32 - s)); };
    for (size_t o = 0; o < m.size(); o += 64) {
        uint32_t w[64];
        for (int i = 0; i < 16; ++i) w[i] = (uint32_t)(uint8_t)m[o + 4 * i] << 24 | (uint32_t)(uint8_t)m[o + 4 * i + 1] << 16 | (uint32_t)(uint8_t)m[o + 4 * i + 2] << 8 | (uint32_t)(uint8_t)m[o + 4 * i + 3];
        for (int i = 16; i < 64; ++i) w[i] = w[i - 16] + (r(w[i - 15], 7) ^ r(w[i - 15], 18) ^ (w[i - 15] >> 3)) + w[i - 7] + (r(w[i - 2], 17) ^ r(w[i - 2], 19) ^ (w[i - 2] >> 10));
        uint32_t v[8]; for (int i = 0; i < 8; ++i) v[i] = h[i];
        for (int i = 0; i < 64; ++i) {
            uint32_t t1 = v[7] + (r(v[4], 6) ^ r(v[4], 11) ^ r(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + k[i] + w[i];
            uint32_t t2 = (r(v[0], 2) ^ r(v[0], 13) ^ r(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
            v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1; v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1 + t2;
        }
        for (int i = 0; i < 8; ++i) h[i] += v[i];
    }
    std::string out;
    for (int i = 0; i < 8; ++i) for (int j = 28; j >= 0; j -= 4) out += "0123456789abcdef"[(h[i] >> j) & 15];
    return out;
}
template<typename Str, typename Out> inline void hash256_hex_string(const Str& s, Out& o) { o = sha256hex((const unsigned char*)s.data(), s.size()); }
template<typename Str> inline std::string hash256_hex_string(const Str& s) { return sha256hex((const unsigned char*)s.data(), s.size()); }
template<typename In, typename Out> inline void hash256(In b, In e, Out ob, Out oe)
{
    std::string in(b, e), hex = sha256hex((const unsigned char*)in.data(), in.size());
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    for (size_t i = 0; ob != oe && i < 32; ++i, ++ob) *ob = (unsigned char)(v(hex[2 * i]) * 16 + v(hex[2 * i + 1]));
}
template<typename In> inline std::string bytes_to_hex_string(In b, In e) { std::string o; for (; b != e; ++b) { o += "0123456789abcdef"[*b >> 4]; o += "0123456789abcdef"[*b & 15]; } return o; }
}
