// Reference models, written from the statements of the properties. Nothing here includes the library.
#ifndef MODEL_H
#define MODEL_H

#include <algorithm>
#include <cerrno>
#include <climits>
#include <cmath>
#include <cstdlib>
#include <deque>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace model
{

using Words = std::vector<std::string>;

// ---------------------------------------------------------------- words of a line

// danglingBackslash: the line ends inside an escape; what happens to that backslash is not specified
inline Words split(const std::string& s, bool* danglingBackslash = nullptr)
{
    Words out;
    const auto n = s.size();
    std::size_t i = 0;
    if (danglingBackslash) *danglingBackslash = false;
    auto blank = [](char c) { return c == ' ' || c == '\t' || c == '\n'; };
    // the backslash at s[i] and what follows it
    auto escape = [&](std::string& w)
    {
        ++i;
        if (i == n) { if (danglingBackslash) *danglingBackslash = true; return; }
        if (!(s[i] == '"' || s[i] == '\'' || s[i] == '\\')) w += '\\';
        w += s[i++];
    };
    while (i < n)
    {
        if (blank(s[i])) { ++i; continue; }
        if (s[i] == '!') { out.push_back("!"); ++i; continue; }
        std::string w;
        if (s[i] == '"' || s[i] == '\'')
        {
            const char q = s[i++];
            while (i < n && s[i] != q)
                if (s[i] == '\\') escape(w);
                else w += s[i++];
            if (i < n) ++i; // closing quote
        }
        else
            while (i < n && !blank(s[i]) && s[i] != '!' && s[i] != '"' && s[i] != '\'')
                if (s[i] == '\\') escape(w);
                else w += s[i++];
        if (!w.empty()) out.push_back(w);
    }
    return out;
}

// quoting one word so that it is read back verbatim; style 0..3 (not every style fits every word)
inline std::string quoted(const std::string& w, int style)
{
    auto wrap = [&](char q)
    {
        std::string r(1, q);
        for (char c : w)
        {
            if (c == q || c == '\\') r += '\\';
            r += c;
        }
        return r + q;
    };
    const bool plain = w.find_first_of(" \t\n!\"'\\") == std::string::npos;
    switch (style % 4)
    {
        case 0: if (plain) return w; return wrap('"');
        case 1: return wrap('"');
        case 2: return wrap('\'');
        default:
            if (w.find_first_of(" \t\n!") == std::string::npos)
            {
                std::string r;
                for (char c : w)
                {
                    if (c == '"' || c == '\'' || c == '\\') r += '\\';
                    r += c;
                }
                return r;
            }
            return wrap('\'');
    }
}

// ---------------------------------------------------------------- argument conversion

enum class Ty { Int, Str, Bool, Double, UInt, Char, LLong, Float, Short, UChar, SChar, UShort, ULong, Long, ULLong, LDouble, Custom, Cons };

inline const char* typeName(Ty t)
{
    switch (t)
    {
        case Ty::Int: return "<int>"; case Ty::Str: return "<string>"; case Ty::Bool: return "<bool>"; case Ty::Double: return "<double>";
        case Ty::UInt: return "<unsigned int>"; case Ty::Char: return "<char>"; case Ty::LLong: return "<long long>"; case Ty::Float: return "<float>";
        case Ty::Short: return "<short>"; case Ty::UChar: return "<unsigned char>"; case Ty::SChar: return "<signed char>";
        case Ty::UShort: return "<unsigned short>"; case Ty::ULong: return "<unsigned long>"; case Ty::Long: return "<long>";
        case Ty::ULLong: return "<unsigned long long>"; case Ty::LDouble: return "<long double>"; case Ty::Custom: return ""; case Ty::Cons: return "";
    }
    return "";
}

enum class Conv { no, yes, either };

template <class T> std::string renderNum(T v) { return std::to_string(v); }
inline std::string renderF(double v) { char b[64]; snprintf(b, sizeof b, "%a", v); return b; }
inline std::string renderF(float v) { char b[64]; snprintf(b, sizeof b, "%a", static_cast<double>(v)); return b; }
inline std::string renderF(long double v) { char b[64]; snprintf(b, sizeof b, "%La", v); return b; }

// decimal digits without leading zeros
inline std::string stripZeros(const std::string& d)
{
    auto p = d.find_first_not_of('0');
    return p == std::string::npos ? "0" : d.substr(p);
}
inline bool allDigits(const std::string& d) { return !d.empty() && d.find_first_not_of("0123456789") == std::string::npos; }
// compares digit strings as numbers
inline bool leq(const std::string& a, const std::string& b) { return a.size() != b.size() ? a.size() < b.size() : a <= b; }

inline Conv convInt(const std::string& s, const std::string& minMagnitude, const std::string& max, bool isUnsigned, std::string& out)
{
    if (s.empty()) return Conv::no;
    bool neg = false;
    std::string d = s;
    if (s[0] == '+' || s[0] == '-') { neg = s[0] == '-'; d = s.substr(1); }
    if (!allDigits(d)) return Conv::no;
    d = stripZeros(d);
    if (neg)
    {
        if (isUnsigned)
        {
            out = "0";
            return d == "0" ? Conv::either : Conv::no; // is "-0" an unsigned number?
        }
        if (!leq(d, minMagnitude)) return Conv::no;
        out = d == "0" ? "0" : "-" + d;
        return Conv::yes;
    }
    if (!leq(d, max)) return Conv::no;
    out = d;
    return Conv::yes;
}

template <class T> Conv convIntT(const std::string& s, std::string& out)
{
    std::string mag = "0";
    if (std::is_signed<T>::value)
    {
        mag = std::to_string(static_cast<long long>(std::numeric_limits<T>::min()));
        mag = mag.substr(1);
    }
    return convInt(s, mag, std::to_string(std::numeric_limits<T>::max()), !std::is_signed<T>::value, out);
}

template <class T, class F> Conv convFloat(const std::string& s, F parse, std::string& out)
{
    if (s.empty()) return Conv::no;
    for (unsigned char c : s) if (isspace(c)) return Conv::no;
    if (s.find('\0') != std::string::npos) return Conv::no;
    char* end = nullptr;
    errno = 0;
    T v = parse(s.c_str(), &end);
    const bool range = errno == ERANGE;
    if (end != s.c_str() + s.size()) return Conv::no;
    out = renderF(v);
    // names of special values and hexadecimal literals: not specified
    for (char c : s) if (isalpha(static_cast<unsigned char>(c)) && c != 'e' && c != 'E') return Conv::either;
    if (range) return std::fabs(v) > 1 ? Conv::no : Conv::either; // overflow; underflow is not specified
    return Conv::yes;
}

// out: rendering of the value
inline Conv convert(Ty t, const std::string& s, std::string& out)
{
    switch (t)
    {
        case Ty::Str: out = s; return Conv::yes;
        case Ty::Char: out = s; return s.size() == 1 ? Conv::yes : Conv::no;
        case Ty::Bool:
        {
            if (s == "true" || s == "1") { out = "true"; return Conv::yes; }
            if (s == "false" || s == "0") { out = "false"; return Conv::yes; }
            std::string v;
            if (convIntT<long long>(s, v) == Conv::yes && (v == "0" || v == "1")) { out = v == "1" ? "true" : "false"; return Conv::either; } // "+1", "00"...
            return Conv::no;
        }
        case Ty::Int: return convIntT<int>(s, out);
        case Ty::UInt: return convIntT<unsigned>(s, out);
        case Ty::LLong: return convIntT<long long>(s, out);
        case Ty::Short: return convIntT<short>(s, out);
        case Ty::UChar: return convIntT<unsigned char>(s, out);
        case Ty::SChar: return convIntT<signed char>(s, out);
        case Ty::UShort: return convIntT<unsigned short>(s, out);
        case Ty::ULong: return convIntT<unsigned long>(s, out);
        case Ty::Long: return convIntT<long>(s, out);
        case Ty::ULLong: return convIntT<unsigned long long>(s, out);
        case Ty::Float: return convFloat<float>(s, strtof, out);
        case Ty::Double: return convFloat<double>(s, strtod, out);
        case Ty::LDouble: return convFloat<long double>(s, strtold, out);
        case Ty::Custom: // "<letter>:<digit>" and nothing else; blanks around it are skipped by stream extraction
        case Ty::Cons:
        {
            auto b = s.find_first_not_of(" \t\n\v\f\r");
            if (b == std::string::npos) return Conv::no;
            auto e = s.find_last_not_of(" \t\n\v\f\r");
            auto x = s.substr(b, e - b + 1);
            if (x.size() != 3 || !isalpha(static_cast<unsigned char>(x[0])) || x[1] != ':' || !isdigit(static_cast<unsigned char>(x[2]))) return Conv::no;
            out = x;
            return x.size() == s.size() ? Conv::yes : Conv::either;
        }
    }
    return Conv::no;
}

} // namespace model

#endif
