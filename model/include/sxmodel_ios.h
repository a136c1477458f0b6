// Environment model of the stream headers: terminal output is discarded, files live in memory. What a stream writes reaches its
// file when it is flushed, closed or repositioned; a write past sx_limit bytes fails as on a full disk. A string stream keeps the
// bytes written to it and the strings and characters inserted into it; numbers inserted into a stream are not formatted.
#pragma once
#include <iosfwd>
#include <algorithm>
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
#include <vector>
#include <bits/localefwd.h>
#include <bits/stl_iterator_base_types.h>
// ---- in-memory files
struct sxfile { char name[96]; char* data; unsigned long size, cap; sxfile* next; };
extern "C" unsigned long sx_limit;
namespace std {
inline sxfile* sxfiles = nullptr;
inline sxfile* sxfind(const char* n, bool create)
{
    for (sxfile* f = sxfiles; f; f = f->next) if (!strcmp(f->name, n)) return f;
    if (!create) return nullptr;
    sxfile* f = (sxfile*)malloc(sizeof(sxfile));
    unsigned long i = 0;
    for (; n[i] && i < 95; i++) f->name[i] = n[i];
    f->name[i] = 0;
    f->data = nullptr; f->size = f->cap = 0; f->next = sxfiles;
    sxfiles = f;
    return f;
}
inline void sxgrow(sxfile* f, unsigned long n)
{
    if (n <= f->cap) return;
    unsigned long c = f->cap ? f->cap * 2 : 256;
    while (c < n) c *= 2;
    char* d = (char*)malloc(c);
    memset(d, 0, c);
    if (f->size) memcpy(d, f->data, f->size);
    free(f->data);
    f->data = d;
    f->cap = c;
}
inline int sxremove(const char* n) { sxfile* f = sxfind(n, false); if (!f) return -1; f->name[0] = 0; return 0; } // an open stream keeps it
inline int sxrename(const char* a, const char* b)
{
    sxfile* f = sxfind(a, false);
    if (!f) return -1;
    if (!strcmp(a, b)) return 0;
    sxremove(b);
    unsigned long i = 0;
    for (; b[i] && i < 95; i++) f->name[i] = b[i];
    f->name[i] = 0;
    return 0;
}
class ios_base
{
public:
    typedef int openmode;
    typedef int iostate;
    typedef int seekdir;
    typedef int fmtflags;
    static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
    static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
    static constexpr seekdir beg = 0, cur = 1, end = 2;
    static constexpr fmtflags boolalpha = 1, dec = 2, hex = 4, oct = 8, basefield = 14, left = 16, right = 32, showbase = 64, uppercase = 128, fixed = 256, skipws = 512;
    class failure : public runtime_error
    {
    public:
        explicit failure(const char* s) : runtime_error(s) {}
        explicit failure(const string& s) : runtime_error(s) {}
    };
    class Init {};
    fmtflags flags() const { return m_fl; }
    fmtflags flags(fmtflags f) { fmtflags o = m_fl; m_fl = f; return o; }
    fmtflags setf(fmtflags f) { fmtflags o = m_fl; m_fl |= f; return o; }
    fmtflags setf(fmtflags f, fmtflags k) { fmtflags o = m_fl; m_fl = (m_fl & ~k) | (f & k); return o; }
    void unsetf(fmtflags f) { m_fl &= ~f; }
    streamsize width() const { return 0; }
    streamsize width(streamsize) { return 0; }
    streamsize precision() const { return 6; }
    streamsize precision(streamsize) { return 6; }
    static bool sync_with_stdio(bool = true) { return true; }
protected:
    fmtflags m_fl = 0;
};
template <> class basic_streambuf<char, char_traits<char>> {};
template <> class basic_ios<char, char_traits<char>> : public ios_base
{
    template <class, class> friend class istreambuf_iterator;
public:
    typedef char char_type;
    typedef char_traits<char> traits_type;
    typedef int int_type;
    typedef streampos pos_type;
    typedef streamoff off_type;
protected:
    int m_st = 0, m_exc = 0;
    // m_f null: output is discarded (m_kind 0) or there is no file (m_kind 1); m_kind 2 is a string stream
    int m_kind = 0, m_mode = 0;
    sxfile* m_f = nullptr;
    unsigned long m_pos = 0;
    streamsize m_gc = 0;
    // written, not yet in the file
    char* m_buf = nullptr;
    unsigned long m_at = 0, m_len = 0, m_cap = 0;
    sxfile m_own;
    ios_base* m_tie = nullptr;
    basic_ios() {}
    basic_ios(const basic_ios&) = delete;
    basic_ios& operator=(const basic_ios&) = delete;
    ~basic_ios() { sxdrop(); }
    void sxdrop()
    {
        if (m_kind == 1 && m_f) sxclose();
        if (m_kind == 2) free(m_own.data);
        free(m_buf);
        m_buf = nullptr;
        m_f = nullptr;
        m_len = m_cap = 0;
    }
    void sxtake(basic_ios& o)
    {
        sxdrop();
        m_f = o.m_f; m_pos = o.m_pos; m_mode = o.m_mode; m_st = o.m_st; m_exc = o.m_exc; m_gc = o.m_gc; m_kind = o.m_kind; m_fl = o.m_fl;
        m_buf = o.m_buf; m_at = o.m_at; m_len = o.m_len; m_cap = o.m_cap;
        if (m_kind == 2) { m_own = o.m_own; m_f = &m_own; o.m_own.data = nullptr; o.m_own.size = o.m_own.cap = 0; o.m_f = &o.m_own; }
        else o.m_f = nullptr;
        o.m_pos = 0; o.m_buf = nullptr; o.m_len = o.m_cap = 0;
    }
    void sxopen(const char* n, int mode)
    {
        if (m_f) { setstate(failbit); return; }
        bool create = (mode & trunc) || (mode & app) || !(mode & in);
        sxfile* f = sxfind(n, create && (mode & (out | app)));
        if (!f) { setstate(failbit); return; }
        m_f = f; m_mode = mode & app ? mode | out : mode; m_st = 0;
        if ((mode & trunc) || ((mode & out) && !(mode & in) && !(mode & app))) { f->size = 0; }
        m_pos = (mode & (ate | app)) ? f->size : 0;
    }
    void sxclose() { if (!m_f) setstate(failbit); else spill(); m_f = nullptr; }
    void sxstring(const char* p, unsigned long n, int mode)
    {
        m_kind = 2; m_mode = mode;
        m_own.name[0] = 0; m_own.data = nullptr; m_own.size = m_own.cap = 0; m_own.next = nullptr;
        m_f = &m_own;
        if (n) { sxgrow(m_f, n); memcpy(m_own.data, p, n); m_own.size = n; }
        m_pos = mode & ate ? n : 0;
    }
    void spill()
    {
        if (!m_len) return;
        unsigned long n = m_len;
        m_len = 0;
        if (m_kind == 1 && m_at + n > sx_limit) {
            setstate(badbit); // what the file holds now is not modelled: nothing was written
            return;
        }
        sxgrow(m_f, m_at + n);
        memcpy(m_f->data + m_at, m_buf, n);
        if (m_at + n > m_f->size) m_f->size = m_at + n;
    }
    void sxread(char* p, streamsize n)
    {
        m_gc = 0;
        if (m_st) { setstate(failbit); return; }
        if (!m_f || !(m_mode & in)) { setstate(failbit | eofbit); return; }
        spill();
        unsigned long av = m_pos < m_f->size ? m_f->size - m_pos : 0, k = (unsigned long)n <= av ? (unsigned long)n : av;
        if (k) memcpy(p, m_f->data + m_pos, k);
        m_pos += k;
        m_gc = (streamsize)k;
        if (k < (unsigned long)n) setstate(failbit | eofbit);
    }
    int sxpeek()
    {
        m_gc = 0;
        if (m_f) spill();
        if (m_st) { setstate(failbit); return -1; }
        if (!m_f || !(m_mode & in) || m_pos >= m_f->size) { setstate(eofbit); return -1; }
        return (unsigned char)m_f->data[m_pos];
    }
    void sxwrite(const char* p, streamsize n)
    {
        if (m_kind == 0) return;
        if (m_st) return;
        if (!m_f || !(m_mode & out)) { setstate(badbit); return; }
        if (n <= 0) return;
        if (m_mode & app) { spill(); m_pos = m_f->size; }
        if (m_len && m_at + m_len != m_pos) spill();
        if (!m_len) m_at = m_pos;
        if (m_len + (unsigned long)n > m_cap) {
            unsigned long c = m_cap ? m_cap * 2 : 256;
            while (c < m_len + (unsigned long)n) c *= 2;
            char* d = (char*)malloc(c);
            if (m_len) memcpy(d, m_buf, m_len);
            free(m_buf);
            m_buf = d;
            m_cap = c;
        }
        memcpy(m_buf + m_len, p, (unsigned long)n);
        m_len += (unsigned long)n;
        m_pos += (unsigned long)n;
    }
    void sxseek(long off, int dir)
    {
        if (fail()) return;
        if (!m_f) { if (m_kind) setstate(failbit); return; }
        spill();
        if (fail()) return;
        long b = dir == beg ? 0 : dir == cur ? (long)m_pos : (long)m_f->size;
        if (b + off < 0 || (m_kind == 2 && (unsigned long)(b + off) > m_f->size)) { setstate(failbit); return; }
        m_pos = (unsigned long)(b + off);
    }
    long sxtell() const { return fail() || !m_f ? -1 : (long)m_pos; }
    string sxstr() const
    {
        string r;
        const_cast<basic_ios*>(this)->spill();
        if (m_own.size) r.assign(m_own.data, m_own.size);
        return r;
    }
public:
    bool good() const { return m_st == 0; }
    bool eof() const { return m_st & eofbit; }
    bool fail() const { return m_st & (failbit | badbit); }
    bool bad() const { return m_st & badbit; }
    int rdstate() const { return m_st; }
    void clear(int s = 0)
    {
        m_st = s;
        if (m_exc & m_st) throw failure("basic_ios::clear: iostream error");
    }
    void setstate(int s) { clear(m_st | s); }
    explicit operator bool() const { return !fail(); }
    bool operator!() const { return fail(); }
    int exceptions() const { return m_exc; }
    void exceptions(int e) { m_exc = e; clear(m_st); }
    basic_ios& copyfmt(const basic_ios& o) { m_fl = o.m_fl; return *this; }
    char fill() const { return ' '; }
    char fill(char) { return ' '; }
};
template <> class basic_ostream<char, char_traits<char>> : virtual public basic_ios<char, char_traits<char>>
{
protected:
    basic_ostream() {}
public:
    explicit basic_ostream(int) {}
    typedef basic_ostream<char, char_traits<char>> self;
    class sentry { bool m_ok; public: explicit sentry(self& o) : m_ok(o.good()) {} explicit operator bool() const { return m_ok; } };
    self& operator<<(self& (*f)(self&)) { return f(*this); }
    self& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
    self& operator<<(const std::string& s) { sxwrite(s.data(), (streamsize)s.size()); return *this; }
    self& operator<<(std::string_view s) { sxwrite(s.data(), (streamsize)s.size()); return *this; }
    self& operator<<(const char* s) { if (m_kind) sxwrite(s, (streamsize)strlen(s)); return *this; }
    self& operator<<(char c) { sxwrite(&c, 1); return *this; }
    self& operator<<(unsigned char c) { sxwrite((const char*)&c, 1); return *this; }
    self& operator<<(signed char c) { sxwrite((const char*)&c, 1); return *this; }
    template <class T> self& operator<<(const T&) { return *this; }
    self& put(char c) { sxwrite(&c, 1); return *this; }
    self& flush() { if (m_f && m_kind == 1) spill(); return *this; }
    self& write(const char* p, streamsize n) { sxwrite(p, n); return *this; }
    self& seekp(streampos off) { sxseek((long)off, beg); return *this; }
    self& seekp(streamoff off, int dir) { sxseek(off, dir); return *this; }
    streampos tellp() { return sxtell(); }
};
template <> class basic_istream<char, char_traits<char>> : virtual public basic_ios<char, char_traits<char>>
{
protected:
    basic_istream() {}
public:
    explicit basic_istream(int) {}
    typedef basic_istream<char, char_traits<char>> self;
    class sentry { bool m_ok; public: explicit sentry(self& o, bool = false) : m_ok(o.good()) {} explicit operator bool() const { return m_ok; } };
    streamsize gcount() const { return m_gc; }
    self& read(char* p, streamsize n) { sxread(p, n); return *this; }
    streamsize readsome(char* p, streamsize n)
    {
        m_gc = 0;
        if (m_st) { setstate(failbit); return 0; }
        if (!m_f) return 0;
        spill();
        unsigned long av = m_pos < m_f->size ? m_f->size - m_pos : 0;
        sxread(p, (unsigned long)n < av ? n : (streamsize)av);
        return m_gc;
    }
    int get() { char c; sxread(&c, 1); return m_gc == 1 ? (unsigned char)c : -1; }
    self& get(char& c) { sxread(&c, 1); return *this; }
    int peek() { return sxpeek(); }
    self& ignore(streamsize n = 1, int delim = -1)
    {
        streamsize k = 0;
        while (k < n) {
            int c = sxpeek();
            if (c < 0) break;
            m_pos++;
            k++;
            if (c == delim) break;
        }
        m_gc = k;
        return *this;
    }
    self& unget() { clear(m_st & ~eofbit); if (!m_st && m_f && m_pos) m_pos--; else setstate(badbit); m_gc = 0; return *this; }
    self& seekg(streampos off) { clear(m_st & ~eofbit); sxseek((long)off, beg); return *this; }
    self& seekg(streamoff off, int dir) { clear(m_st & ~eofbit); sxseek(off, dir); return *this; }
    streampos tellg() { if (m_f && !m_st) spill(); return sxtell(); }
    int sync() { if (m_f) spill(); return m_st ? -1 : 0; }
    self& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
    self& operator>>(char& c) { sxread(&c, 1); return *this; }
};
template <> class basic_iostream<char, char_traits<char>> : public basic_istream<char, char_traits<char>>, public basic_ostream<char, char_traits<char>>
{
protected:
    basic_iostream() {}
};
inline ostream& endl(ostream& o) { return o.put('\n').flush(); }
inline ostream& ends(ostream& o) { return o.put(0); }
inline ostream& flush(ostream& o) { return o.flush(); }
inline istream& ws(istream& i) { return i; }
#define SXMANIP(nm) inline ios_base& nm(ios_base& b) { return b; }
SXMANIP(hex) SXMANIP(dec) SXMANIP(oct) SXMANIP(boolalpha) SXMANIP(noboolalpha) SXMANIP(showbase) SXMANIP(noshowbase) SXMANIP(uppercase)
SXMANIP(nouppercase) SXMANIP(left) SXMANIP(right) SXMANIP(internal) SXMANIP(fixed) SXMANIP(scientific) SXMANIP(defaultfloat) SXMANIP(skipws) SXMANIP(noskipws)
#undef SXMANIP
inline ostream cout(0), cerr(0), clog(0);
inline istream cin(0);
struct sxmanip {};
inline sxmanip setw(int) { return {}; }
inline sxmanip setfill(char) { return {}; }
inline sxmanip setprecision(int) { return {}; }
inline sxmanip setbase(int) { return {}; }

template <class Base, int Def> class sxfstream : public Base
{
public:
    sxfstream() { this->m_kind = 1; }
    explicit sxfstream(const char* n, int mode = Def) { this->m_kind = 1; this->sxopen(n, mode | (Def == (ios_base::in | ios_base::out) ? 0 : Def)); }
    explicit sxfstream(const std::string& n, int mode = Def) : sxfstream(n.c_str(), mode) {}
    template <class P, class = decltype(std::declval<const P&>().native())> explicit sxfstream(const P& p, int mode = Def) : sxfstream(p.c_str(), mode) {}
    sxfstream(sxfstream&& o) { this->m_kind = 1; this->sxtake(o); }
    sxfstream& operator=(sxfstream&& o) { if (this != &o) this->sxtake(o); return *this; }
    void swap(sxfstream& o) { sxfstream t((sxfstream&&)o); o = (sxfstream&&)*this; *this = (sxfstream&&)t; }
    friend void swap(sxfstream& a, sxfstream& b) { a.swap(b); }
    void open(const char* n, int mode = Def) { this->sxopen(n, mode | (Def == (ios_base::in | ios_base::out) ? 0 : Def)); }
    void open(const std::string& n, int mode = Def) { open(n.c_str(), mode); }
    template <class P, class = decltype(std::declval<const P&>().native())> void open(const P& p, int mode = Def) { open(p.c_str(), mode); }
    bool is_open() const { return this->m_f; }
    void close() { this->sxclose(); }
};
template <> class basic_fstream<char, char_traits<char>> : public sxfstream<iostream, ios_base::in | ios_base::out>
{
    typedef sxfstream<iostream, ios_base::in | ios_base::out> sxbase;
public:
    using sxbase::sxbase;
    basic_fstream() {}
    basic_fstream(basic_fstream&& o) : sxbase((sxbase&&)o) {}
    basic_fstream& operator=(basic_fstream&& o) { sxbase::operator=((sxbase&&)o); return *this; }
};
template <> class basic_ifstream<char, char_traits<char>> : public sxfstream<istream, ios_base::in>
{
    typedef sxfstream<istream, ios_base::in> sxbase;
public:
    using sxbase::sxbase;
    basic_ifstream() {}
    basic_ifstream(basic_ifstream&& o) : sxbase((sxbase&&)o) {}
    basic_ifstream& operator=(basic_ifstream&& o) { sxbase::operator=((sxbase&&)o); return *this; }
};
template <> class basic_ofstream<char, char_traits<char>> : public sxfstream<ostream, ios_base::out>
{
    typedef sxfstream<ostream, ios_base::out> sxbase;
public:
    using sxbase::sxbase;
    basic_ofstream() {}
    basic_ofstream(basic_ofstream&& o) : sxbase((sxbase&&)o) {}
    basic_ofstream& operator=(basic_ofstream&& o) { sxbase::operator=((sxbase&&)o); return *this; }
};

template <class Base, int Def> class sxsstream : public Base
{
public:
    sxsstream() { this->sxstring(nullptr, 0, Def); }
    explicit sxsstream(int mode) { this->sxstring(nullptr, 0, mode | (Def == (ios_base::in | ios_base::out) ? 0 : Def)); }
    explicit sxsstream(const std::string& s, int mode = Def) { this->sxstring(s.data(), s.size(), mode | (Def == (ios_base::in | ios_base::out) ? 0 : Def)); }
    sxsstream(sxsstream&& o) { this->sxstring(nullptr, 0, Def); this->sxtake(o); }
    sxsstream& operator=(sxsstream&& o) { if (this != &o) this->sxtake(o); return *this; }
    std::string str() const { return this->sxstr(); }
    void str(const std::string& s) { this->m_len = 0; free(this->m_own.data); this->sxstring(s.data(), s.size(), this->m_mode); }
};
template <> class basic_ostringstream<char, char_traits<char>, allocator<char>> : public sxsstream<ostream, ios_base::out>
{
    typedef sxsstream<ostream, ios_base::out> sxbase;
public:
    using sxbase::sxbase;
    basic_ostringstream() {}
    basic_ostringstream(basic_ostringstream&& o) : sxbase((sxbase&&)o) {}
    basic_ostringstream& operator=(basic_ostringstream&& o) { sxbase::operator=((sxbase&&)o); return *this; }
};
template <> class basic_istringstream<char, char_traits<char>, allocator<char>> : public sxsstream<istream, ios_base::in>
{
    typedef sxsstream<istream, ios_base::in> sxbase;
public:
    using sxbase::sxbase;
    basic_istringstream() {}
    basic_istringstream(basic_istringstream&& o) : sxbase((sxbase&&)o) {}
    basic_istringstream& operator=(basic_istringstream&& o) { sxbase::operator=((sxbase&&)o); return *this; }
};
template <> class basic_stringstream<char, char_traits<char>, allocator<char>> : public sxsstream<iostream, ios_base::in | ios_base::out>
{
    typedef sxsstream<iostream, ios_base::in | ios_base::out> sxbase;
public:
    using sxbase::sxbase;
    basic_stringstream() {}
    basic_stringstream(basic_stringstream&& o) : sxbase((sxbase&&)o) {}
    basic_stringstream& operator=(basic_stringstream&& o) { sxbase::operator=((sxbase&&)o); return *this; }
};

// ---- stream iterators
template <class T, class C = char, class Tr = char_traits<C>> class ostream_iterator
{
    ostream* m_o; const char* m_d;
public:
    typedef output_iterator_tag iterator_category; typedef void value_type, difference_type, pointer, reference;
    ostream_iterator(ostream& o, const char* d = nullptr) : m_o(&o), m_d(d) {}
    ostream_iterator& operator=(const T& v) { *m_o << v; if (m_d) *m_o << m_d; return *this; }
    ostream_iterator& operator*() { return *this; }
    ostream_iterator& operator++() { return *this; }
    ostream_iterator& operator++(int) { return *this; }
};
template <class C, class Tr> class ostreambuf_iterator
{
    ostream* m_o;
public:
    typedef output_iterator_tag iterator_category; typedef void value_type, difference_type, pointer, reference;
    ostreambuf_iterator(ostream& o) : m_o(&o) {}
    ostreambuf_iterator& operator=(C v) { m_o->put(v); return *this; }
    ostreambuf_iterator& operator*() { return *this; }
    ostreambuf_iterator& operator++() { return *this; }
    ostreambuf_iterator& operator++(int) { return *this; }
};
template <class C, class Tr> class istreambuf_iterator
{
    istream* m_i;
    bool at() const { basic_ios<char>* s = m_i; if (!s || !s->m_f || !(s->m_mode & ios_base::in)) return false; s->spill(); return s->m_pos < s->m_f->size; }
public:
    typedef input_iterator_tag iterator_category; typedef C value_type; typedef long difference_type; typedef C* pointer; typedef C reference;
    istreambuf_iterator() : m_i(nullptr) {}
    istreambuf_iterator(istream& i) : m_i(&i) {}
    C operator*() const { return at() ? m_i->m_f->data[m_i->m_pos] : C(-1); }
    istreambuf_iterator& operator++() { if (at()) m_i->m_pos++; return *this; }
    istreambuf_iterator operator++(int) { istreambuf_iterator t(*this); ++*this; return t; }
    bool equal(const istreambuf_iterator& o) const { return at() == o.at(); }
    friend bool operator==(const istreambuf_iterator& a, const istreambuf_iterator& b) { return a.equal(b); }
    friend bool operator!=(const istreambuf_iterator& a, const istreambuf_iterator& b) { return !a.equal(b); }
};
} // namespace std
