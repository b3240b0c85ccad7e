// Stand-in for cppcodec's base64_rfc4648 (the dependency is not installed here): same interface, same encoding.
#pragma once
#include <string>
#include <vector>
#include <cstdint>
#include <stdexcept>
namespace cppcodec
{
    struct base64_rfc4648
    {
        static std::string encode(const uint8_t *p, size_t n)
        {
            static const char *A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
            std::string o;
            o.reserve((n + 2) / 3 * 4);
            for (size_t i = 0; i < n; i += 3)
            {
                uint32_t v = uint32_t(p[i]) << 16 | (i + 1 < n ? uint32_t(p[i + 1]) << 8 : 0) | (i + 2 < n ? p[i + 2] : 0);
                o += A[v >> 18 & 63];
                o += A[v >> 12 & 63];
                o += i + 1 < n ? A[v >> 6 & 63] : '=';
                o += i + 2 < n ? A[v & 63] : '=';
            }
            return o;
        }
        static std::string encode(const char *p, size_t n) { return encode((const uint8_t *)p, n); }
        template <class T>
        static std::string encode(const T &c) { return encode((const uint8_t *)c.data(), c.size()); }
        template <class T, class S>
        static void decode(T &out, const S &in)
        {
            out.clear();
            uint32_t acc = 0;
            int bits = 0;
            for (unsigned char c : in)
            {
                if (c == '=')
                    break;
                int v = c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1;
                if (v < 0)
                    throw std::domain_error("base64: symbol");
                acc = acc << 6 | v, bits += 6;
                if (bits >= 8)
                {
                    bits -= 8;
                    out.push_back(typename T::value_type(acc >> bits & 255));
                }
            }
        }
    };
}
