// Integers written to streams: the same text as libstdc++ writes (decimal, classic locale), by way of std::to_string,
// so that the engine sees the number in the text.  (The real build, which confirms every violation, does not include this.)
#pragma once
#include <cstdio>
#include <istream>
#include <ostream>
#include <string>
namespace std {
inline ostream& __sym_ins(ostream& o, string t)
{
    ostream::sentry s(o);
    if (s) {
        streamsize w = o.width();
        auto f = o.flags();
        if ((f & ios_base::showpos) && t[0] != '-') t.insert(0, "+");
        size_t at = 0;
        if ((f & ios_base::adjustfield) == ios_base::left) at = t.size();
        else if ((f & ios_base::adjustfield) == ios_base::internal && (t[0] == '-' || t[0] == '+')) at = 1;
        size_t n = w > (streamsize)t.size() ? w - t.size() : 0;
        o.width(0);
        streambuf* b = o.rdbuf();
        bool ok = true;
        if (at) ok = b->sputn(t.data(), at) == (streamsize)at;
        for (size_t i = 0; i < n; ++i) ok = ok && b->sputc(o.fill()) != char_traits<char>::eof();
        if (at < t.size()) ok = ok && b->sputn(t.data() + at, t.size() - at) == (streamsize)(t.size() - at);
        if (!ok) o.setstate(ios_base::badbit);
    }
    return o;
}
template <> template <> inline ostream& ostream::_M_insert<unsigned long>(unsigned long v) { return __sym_ins(*this, std::to_string(v)); }
template <> template <> inline ostream& ostream::_M_insert<long>(long v) { return __sym_ins(*this, std::to_string(v)); }
template <> template <> inline ostream& ostream::_M_insert<double>(double v)
{
    char b[512];
    auto ff = flags() & ios_base::floatfield;
    int p = (int)precision();
    if (ff == ios_base::fixed) snprintf(b, sizeof b, "%.*f", p, v);
    else if (ff == ios_base::scientific) snprintf(b, sizeof b, "%.*e", p, v);
    else snprintf(b, sizeof b, "%.*g", p, v);
    return __sym_ins(*this, b);
}
// (the library has this one compiled only)
template <> inline istream& getline(istream& in, string& str, char delim)
{
    istream::sentry s(in, true);
    ios_base::iostate err = ios_base::goodbit;
    bool any = false;
    if (s) {
        str.erase();
        streambuf* b = in.rdbuf();
        for (;;) {
            int c = b->sbumpc();
            if (c == char_traits<char>::eof()) { err |= ios_base::eofbit; break; }
            any = true;
            if ((char)c == delim) break;
            str.push_back((char)c);
        }
    }
    if (!any) err |= ios_base::failbit;
    if (err) in.setstate(err);
    return in;
}
template <> inline istream& istream::get(char& c)
{
    istream::sentry s(*this, true);
    int v = char_traits<char>::eof();
    if (s) v = rdbuf()->sbumpc();
    _M_gcount = 0;
    if (v != char_traits<char>::eof()) { c = (char)v; _M_gcount = 1; }
    else setstate(s ? ios_base::eofbit | ios_base::failbit : ios_base::failbit);
    return *this;
}
template <> inline istream& istream::read(char* p, streamsize n)
{
    istream::sentry s(*this, true);
    _M_gcount = 0;
    if (s) {
        while (_M_gcount < n) {
            int v = rdbuf()->sbumpc();
            if (v == char_traits<char>::eof()) { setstate(ios_base::eofbit | ios_base::failbit); break; }
            p[_M_gcount++] = (char)v;
        }
    }
    return *this;
}
template <> inline istream& operator>>(istream& in, string& str)
{
    istream::sentry s(in);
    ios_base::iostate err = ios_base::goodbit;
    bool any = false;
    if (s) {
        str.erase();
        streambuf* b = in.rdbuf();
        size_t n = in.width() > 0 ? (size_t)in.width() : str.max_size();
        while (str.size() < n) {
            int c = b->sgetc();
            if (c == char_traits<char>::eof()) { err |= ios_base::eofbit; break; }
            if ((c == ' ') | ((c >= 9) & (c <= 13))) break;
            any = true;
            str.push_back((char)c);
            b->sbumpc();
        }
        in.width(0);
    }
    if (!any) err |= ios_base::failbit;
    if (err) in.setstate(err);
    return in;
}
}
