// Stream buffers and stream settings that callers may have.
#pragma once
#include "util.h"

#include <iomanip>
#include <clocale>
#include <locale>

namespace streams {

using namespace util;

// Delivers a string in pieces, possibly one byte at a time, and cannot seek.
class Chunked : public std::streambuf
{
public:
    Chunked(std::string b, size_t chunk, bool bulk)
        : m_b(std::move(b))
        , m_chunk(chunk)
        , m_bulk(bulk)
    {}

protected:
    int_type underflow() override
    {
        if (gptr() && gptr() < egptr()) return traits_type::to_int_type(*gptr());
        if (m_at >= m_b.size()) return traits_type::eof();
        size_t k = std::min(m_chunk, m_b.size() - m_at);
        setg(&m_b[0], &m_b[m_at], &m_b[m_at] + k); // what was read may be put back, as in a file
        m_at += k;
        return traits_type::to_int_type(*gptr());
    }
    std::streamsize showmanyc() override { return m_bulk ? 0 : -1; }

private:
    std::string m_b;
    size_t m_chunk, m_at = 0;
    bool m_bulk;
};

// Delivers single bytes without any buffer, which may or may not be put back.
class Unbuffered : public std::streambuf
{
public:
    explicit Unbuffered(std::string b, bool back = true)
        : m_b(std::move(b))
        , m_back(back)
    {}

protected:
    int_type underflow() override { return m_at < m_b.size() ? traits_type::to_int_type(m_b[m_at]) : traits_type::eof(); }
    int_type uflow() override { return m_at < m_b.size() ? traits_type::to_int_type(m_b[m_at++]) : traits_type::eof(); }
    int_type pbackfail(int_type c) override
    {
        if (!m_back || m_at == 0 || (c != traits_type::eof() && traits_type::to_char_type(c) != m_b[m_at - 1])) return traits_type::eof();
        return traits_type::to_int_type(m_b[--m_at]);
    }

private:
    std::string m_b;
    bool m_back;
    size_t m_at = 0;
};

// Collects what is written; small buffer or none; cannot seek.
class Collector : public std::streambuf
{
public:
    explicit Collector(size_t buffer)
        : m_buf(buffer)
    {
        if (buffer) setp(m_buf.data(), m_buf.data() + buffer);
    }
    const std::string& text()
    {
        flush();
        return m_out;
    }

protected:
    int_type overflow(int_type c) override
    {
        flush();
        if (!traits_type::eq_int_type(c, traits_type::eof())) {
            if (m_buf.empty())
                m_out += traits_type::to_char_type(c);
            else
                sputc(traits_type::to_char_type(c));
        }
        return traits_type::not_eof(c);
    }
    int sync() override
    {
        flush();
        return 0;
    }

private:
    void flush()
    {
        if (m_buf.empty()) return;
        m_out.append(pbase(), static_cast<size_t>(pptr() - pbase()));
        setp(m_buf.data(), m_buf.data() + m_buf.size());
    }
    std::vector<char> m_buf;
    std::string m_out;
};

class Punct : public std::numpunct<char>
{
public:
    Punct(char point, char sep, std::string grouping)
        : m_point(point)
        , m_sep(sep)
        , m_grouping(std::move(grouping))
    {}

protected:
    char do_decimal_point() const override { return m_point; }
    char do_thousands_sep() const override { return m_sep; }
    std::string do_grouping() const override { return m_grouping; }
    std::string do_truename() const override { return "oui"; }
    std::string do_falsename() const override { return "non"; }

private:
    char m_point, m_sep;
    std::string m_grouping;
};

// A character classification in which the comma is white space, or the line feed is not.
class Spaces : public std::ctype<char>
{
public:
    explicit Spaces(int kind)
        : std::ctype<char>(table(kind))
    {}

private:
    static const mask* table(int kind)
    {
        static std::vector<mask> t[2];
        auto& v = t[kind & 1];
        if (v.empty()) {
            v.assign(classic_table(), classic_table() + table_size);
            if (kind & 1)
                v[','] |= space, v['.'] |= space, v['$'] |= space;
            else
                v['\n'] &= static_cast<mask>(~space), v['\t'] &= static_cast<mask>(~space);
        }
        return v.data();
    }
};

inline std::locale some_locale(Src& s, std::string& how)
{
    std::locale l = std::locale::classic();
    switch (s.draw(5)) {
    case 0: how += " classic"; return l;
    case 1: how += " ',' point '.' groups of 3"; return std::locale(l, new Punct(',', '.', "\3"));
    case 2: how += " '.' point ',' groups of 3"; return std::locale(l, new Punct('.', ',', "\3"));
    case 3: how += " ' ' groups of 1"; return std::locale(l, new Punct(',', ' ', "\1"));
    case 4: how += " odd white space"; return std::locale(l, new Spaces(static_cast<int>(s.draw(1))));
    default: how += " 'e' point '-' groups of 2"; return std::locale(std::locale(l, new Punct('e', '-', "\2\1")), new Spaces(1));
    }
}

struct Settings
{
    std::ios_base::fmtflags flags;
    std::streamsize precision, width;
    char fill;
    std::locale locale;
    std::ios_base::iostate mask;
    std::string how;
};

inline Settings settings(Src& s)
{
    Settings r;
    r.flags = std::ios_base::skipws | std::ios_base::dec;
    if (s.chance(4, 5)) {
        static const std::vector<std::ios_base::fmtflags> bases = {std::ios_base::dec, std::ios_base::hex, std::ios_base::oct, std::ios_base::fmtflags()};
        static const std::vector<std::ios_base::fmtflags> floats = {std::ios_base::fmtflags(), std::ios_base::fixed, std::ios_base::scientific, std::ios_base::fixed | std::ios_base::scientific};
        static const std::vector<std::ios_base::fmtflags> adjusts = {std::ios_base::fmtflags(), std::ios_base::left, std::ios_base::right, std::ios_base::internal};
        r.flags = s.pick(bases) | s.pick(floats) | s.pick(adjusts);
        for (auto f : {std::ios_base::showbase, std::ios_base::showpoint, std::ios_base::showpos, std::ios_base::uppercase, std::ios_base::boolalpha, std::ios_base::unitbuf})
            if (s.chance(1, 3)) r.flags |= f;
        if (s.chance(2, 3)) r.flags |= std::ios_base::skipws;
    }
    static const std::vector<int> prec = {6, 0, 1, 2, 3, 10, 15, 16, 17, 18, 25, 40};
    r.precision = s.pick(prec);
    static const std::vector<int> width = {0, 1, 3, 8, 20, 60};
    r.width = s.pick(width);
    static const std::vector<char> fill = {' ', '0', '*', '\n', '9', '$'};
    r.fill = s.pick(fill);
    r.how = "flags " + std::to_string(static_cast<unsigned>(r.flags)) + " precision " + std::to_string(r.precision) + " width " + std::to_string(r.width) + " fill " + std::to_string(static_cast<int>(r.fill)) + " locale";
    r.locale = some_locale(s, r.how);
    static const std::vector<std::ios_base::iostate> masks = {std::ios_base::goodbit, std::ios_base::badbit, std::ios_base::failbit, std::ios_base::eofbit, std::ios_base::badbit | std::ios_base::failbit,
        std::ios_base::badbit | std::ios_base::failbit | std::ios_base::eofbit};
    r.mask = s.pick(masks);
    r.how += " mask " + std::to_string(static_cast<unsigned>(r.mask));
    return r;
}
template <typename Stream>
void apply(Stream& st, const Settings& r)
{
    st.imbue(r.locale);
    st.flags(r.flags);
    st.precision(r.precision);
    st.width(r.width);
    st.fill(r.fill);
    st.exceptions(r.mask);
}
template <typename Stream>
std::string changed(Stream& st, const Settings& r)
{
    if (st.flags() != r.flags) return "formatting flags changed from " + std::to_string(static_cast<unsigned>(r.flags)) + " to " + std::to_string(static_cast<unsigned>(st.flags()));
    if (st.precision() != r.precision) return "precision changed from " + std::to_string(r.precision) + " to " + std::to_string(st.precision());
    if (!(st.getloc() == r.locale)) return "locale changed";
    if (st.exceptions() != r.mask) return "exception mask changed from " + std::to_string(static_cast<unsigned>(r.mask)) + " to " + std::to_string(static_cast<unsigned>(st.exceptions()));
    return "";
}

class GlobalLocale
{
public:
    explicit GlobalLocale(const std::locale& l)
        : m_old(std::locale::global(l))
    {}
    ~GlobalLocale() { std::locale::global(m_old); }

private:
    std::locale m_old;
};

// The C locale of the process for a while: one with a decimal comma, if check.py could make one.
class GlobalCLocale
{
public:
    explicit GlobalCLocale(bool comma)
    {
        if (comma) m_set = setlocale(LC_ALL, "de_DE.UTF-8") != nullptr;
        m_name = setlocale(LC_ALL, nullptr);
    }
    ~GlobalCLocale()
    {
        if (m_set) setlocale(LC_ALL, "C");
    }
    bool set() const { return m_set; }
    bool changed() const { return m_name != setlocale(LC_ALL, nullptr); }

private:
    bool m_set = false;
    std::string m_name;
};

} // namespace streams
