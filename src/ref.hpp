// Reference for the conversion of texts to values, written without the standard library's conversion functions
// (floating point values: long double arithmetic on exactly representable catalogues, see h_convert.cpp).
#pragma once
#include <bits/stdc++.h>

namespace ref
{
using i128 = __int128;

//!\brief Decimal integer in [lo, hi]. Returns: 0 = not a number, 1 = number out of range, 2 = ok.
inline int integer(std::string_view s, i128 lo, i128 hi, i128 & v)
{
    bool neg = false;
    if (!s.empty() && s[0] == '-')
    {
        if (lo == 0)
            return 0; // a sign is no part of an unsigned number
        neg = true;
        s.remove_prefix(1);
    }
    if (s.empty())
        return 0;
    i128 r = 0;
    bool big = false;
    for (char c : s)
    {
        if (c < '0' || c > '9')
            return 0;
        if (!big)
            r = r * 10 + (c - '0');
        if (r > (i128(1) << 100))
            big = true;
    }
    if (neg)
        r = -r;
    if (big || r < lo || r > hi)
        return 1;
    v = r;
    return 2;
}
inline std::string i128str(i128 v)
{
    if (v == 0)
        return "0";
    bool neg = v < 0;
    std::string s;
    for (; v != 0; v /= 10)
        s += char('0' + (neg ? -(v % 10) : v % 10));
    if (neg)
        s += '-';
    std::ranges::reverse(s);
    return s;
}
} // namespace ref
