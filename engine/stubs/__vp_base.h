// Contract headers of the verification-condition generator.
// Same names and signatures as the standard library; members that are declared
// but not defined are given meaning by their contracts in engine/libspec.py.
// Members with a body are executed like any other code.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <initializer_list>
#include <type_traits>
#include <utility>
#include <limits>
#include <new>

namespace std {
typedef long streamsize;
typedef long streamoff;

// ---------------------------------------------------------------- vector ops
template <class T> size_t __vp_argmin(const T* f, const T* l);   // contract
template <class T> size_t __vp_argmax(const T* f, const T* l);   // contract
template <class T, class U> void __vp_copy(const T* f, const T* l, U* out); // contract
template <class T> void __vp_fill(T* f, T* l, const T& v);       // contract
int __vp_min(int, int); unsigned __vp_min(unsigned, unsigned);
long __vp_min(long, long); unsigned long __vp_min(unsigned long, unsigned long);
double __vp_min(double, double);
int __vp_max(int, int); unsigned __vp_max(unsigned, unsigned);
long __vp_max(long, long); unsigned long __vp_max(unsigned long, unsigned long);
double __vp_max(double, double);

struct random_access_iterator_tag {};
struct forward_iterator_tag {};
struct bidirectional_iterator_tag {};
struct input_iterator_tag {};
struct output_iterator_tag {};
template <class It> struct iterator_traits {
    typedef typename It::value_type value_type; typedef typename It::difference_type difference_type;
    typedef typename It::reference reference; typedef typename It::pointer pointer;
    typedef typename It::iterator_category iterator_category;
};
template <class T> struct iterator_traits<T*> {
    typedef typename remove_cv<T>::type value_type; typedef ptrdiff_t difference_type;
    typedef T& reference; typedef T* pointer; typedef random_access_iterator_tag iterator_category;
};

template <class T> class allocator {};

template <class T, class A = allocator<T>> class vector {
    T* __p; T __e[0];
    void __resize(size_t n, const T& v);       // contract
    void __push(const T& v);                   // contract
    void __insert(size_t at, const T* f, const T* l); // contract
    void __insert1(size_t at, const T& v);     // contract
    void __init();                             // contract
    T* __d() const;                            // contract: pointer to element 0
    size_t __idx(const T* p) const;            // contract: index of p in this vector
    void __assign(const vector& o);            // contract
    void __take(vector& o);                    // contract: *this := o, o := empty
public:
    typedef T value_type; typedef T& reference; typedef const T& const_reference;
    typedef T* iterator; typedef const T* const_iterator; typedef size_t size_type;
    typedef ptrdiff_t difference_type; typedef T* pointer; typedef const T* const_pointer;
    vector() { __init(); }
    explicit vector(size_t n) { __init(); __resize(n, T()); }
    vector(size_t n, const T& v) { __init(); __resize(n, v); }
    vector(const vector& o) { __init(); __assign(o); }
    vector(vector&& o) { __init(); __take(o); }
    vector(std::initializer_list<T> l) { __init(); for (const T* p = l.begin(); p != l.end(); ++p) __push(*p); }
    template <class It, class = typename std::enable_if<!std::is_integral<It>::value>::type>
    vector(It f, It l) { __init(); insert(end(), f, l); }
    vector& operator=(const vector& o) { __assign(o); return *this; }
    vector& operator=(vector&& o) { __take(o); return *this; }
    vector& operator=(std::initializer_list<T> l) { clear(); for (const T* p = l.begin(); p != l.end(); ++p) __push(*p); return *this; }
    size_t size() const;                       // contract
    size_t max_size() const { return PTRDIFF_MAX / sizeof(T); }
    size_t capacity() const { return size(); }
    bool empty() const { return size() == 0; }
    void reserve(size_t n);                    // contract
    void shrink_to_fit() {}
    void clear();                              // contract
    void resize(size_t n) { T v = T(); __resize(n, v); }
    void resize(size_t n, const T& v) { __resize(n, v); }
    void assign(size_t n, const T& v) { T c(v); clear(); __resize(n, c); }
    template <class It, class = typename std::enable_if<!std::is_integral<It>::value>::type>
    void assign(It f, It l) { clear(); insert(end(), f, l); }
    void push_back(const T& v) { __push(v); }
    template <class... Args> T& emplace_back(Args&&... a) { T v = T(std::forward<Args>(a)...); __push(v); return back(); }
    void pop_back();                           // contract
    T& operator[](size_t i) { return *__at(i); }
    const T& operator[](size_t i) const { return *__at(i); }
    T* __at(size_t i) const;                   // contract: obligation i < size()
    T& at(size_t i) { return *__at_checked(i); }
    const T& at(size_t i) const { return *__at_checked(i); }
    T* __at_checked(size_t i) const;           // contract: throws out_of_range
    T& back() { return *__at(size() - 1); }
    const T& back() const { return *__at(size() - 1); }
    T& front() { return *__at(0); }
    const T& front() const { return *__at(0); }
    T* data() { return __d(); }
    const T* data() const { return __d(); }
    T* begin() { return __d(); }
    T* end() { return __d() + size(); }
    const T* begin() const { return __d(); }
    const T* end() const { return __d() + size(); }
    const T* cbegin() const { return __d(); }
    const T* cend() const { return __d() + size(); }
    struct reverse_iterator {
        T* p;
        T& operator*() const { return p[-1]; }
        T* operator->() const { return p - 1; }
        reverse_iterator& operator++() { --p; return *this; }
        reverse_iterator operator++(int) { reverse_iterator t = *this; --p; return t; }
        bool operator==(const reverse_iterator& o) const { return p == o.p; }
        bool operator!=(const reverse_iterator& o) const { return p != o.p; }
    };
    typedef reverse_iterator const_reverse_iterator;
    reverse_iterator rbegin() const { reverse_iterator t; t.p = const_cast<T*>(__d()) + size(); return t; }
    reverse_iterator rend() const { reverse_iterator t; t.p = const_cast<T*>(__d()); return t; }
    T* erase(const T* at); T* erase(const T* f, const T* l);
    template <class... Args> T* emplace(const T* at, Args&&... a) { size_t k = __idx(at); T v = T(std::forward<Args>(a)...); __insert1(k, v); return __d() + k; }
    template <class It, class = typename std::enable_if<!std::is_integral<It>::value>::type> void insert(const T* at, It f, It l) { size_t k = __idx(at); for (; f != l; ++f) { const T x = *f; __insert1(k, x); ++k; } }
    void insert(const T* at, T* f, T* l) { __insert(__idx(at), f, l); }
    void insert(const T* at, const T* f, const T* l) { __insert(__idx(at), f, l); }
    T* insert(const T* at, const T& v) { size_t k = __idx(at); __insert1(k, v); return __d() + k; }
    void insert(const T* at, size_t n, const T& v) { size_t k = __idx(at); const T c = v; for (size_t i = 0; i < n; i++) __insert1(k + i, c); }
    void insert(const T* at, std::initializer_list<T> l) { size_t k = __idx(at); for (const T* p = l.begin(); p != l.end(); ++p) { __insert1(k, *p); ++k; } }
    void swap(vector& o);                      // contract
};
template <class T> void swap(vector<T>& a, vector<T>& b) { a.swap(b); }
template <class T> bool operator==(const vector<T>& a, const vector<T>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i])) return false; return true; }
template <class T> bool operator!=(const vector<T>& a, const vector<T>& b) { return !(a == b); }

template <class T, size_t N> struct array {
    T _M_elems[N ? N : 1];
    typedef T value_type; typedef T* iterator; typedef const T* const_iterator; typedef size_t size_type;
    T& operator[](size_t i) { return _M_elems[i]; }
    const T& operator[](size_t i) const { return _M_elems[i]; }
    T& at(size_t i) { return _M_elems[i]; }
    const T& at(size_t i) const { return _M_elems[i]; }
    constexpr size_t size() const { return N; }
    constexpr bool empty() const { return N == 0; }
    T* data() { return _M_elems; }
    const T* data() const { return _M_elems; }
    T* begin() { return _M_elems; }
    T* end() { return _M_elems + N; }
    const T* begin() const { return _M_elems; }
    const T* end() const { return _M_elems + N; }
    T& front() { return _M_elems[0]; }
    T& back() { return _M_elems[N - 1]; }
    void fill(const T& v) { for (size_t i = 0; i < N; i++) _M_elems[i] = v; }
};

// ---------------------------------------------------------------- string
class string {
    void* __s; char __t0[0]; int __t1[0];
public:
    typedef size_t size_type; typedef char value_type;
    static const size_t npos = (size_t)-1;
    string();
    string(const char* s);
    string(const char* s, size_t n);
    string(const string& o);
    string(string&& o);
    string(size_t n, char c);
    string& operator=(const string& o);
    string& operator=(string&& o);
    string& operator=(const char* s);
    string& operator+=(const string& o);
    string& operator+=(const char* s);
    string& operator+=(char c);
    string& append(const string& o) { return *this += o; }
    string& append(const char* o) { return *this += o; }
    void push_back(char c) { *this += c; }
    void clear();
    size_t size() const;
    size_t length() const { return size(); }
    bool empty() const { return size() == 0; }
    const char& operator[](size_t i) const;
    char& operator[](size_t i);
    const char& at(size_t i) const { return (*this)[i]; }
    const char& front() const { return (*this)[0]; }
    const char& back() const { return (*this)[size() - 1]; }
    char& front() { return (*this)[0]; }
    char& back() { return (*this)[size() - 1]; }
    string& insert(size_t p, const string& o) { string r = substr(0, p); r += o; r += substr(p); *this = r; return *this; }
    string& insert(size_t p, const char* o) { return insert(p, string(o)); }
    string& insert(size_t p, size_t n, char c) { return insert(p, string(n, c)); }
    string& erase(size_t p = 0, size_t n = npos) { string r = substr(0, p); if (n < size() - p) r += substr(p + n); *this = r; return *this; }
    string& assign(const string& o) { return *this = o; }
    string& assign(const char* o) { return *this = o; }
    string& assign(const char* o, size_t n) { return *this = string(o, n); }
    string& assign(size_t n, char c) { return *this = string(n, c); }
    string& append(size_t n, char c) { return *this += string(n, c); }
    string& append(const char* o, size_t n) { return *this += string(o, n); }
    string& append(const string& o, size_t p, size_t n) { return *this += o.substr(p, n); }
    void pop_back() { *this = substr(0, size() - 1); }
    void resize(size_t n, char c = 0);
    int compare(const char* s) const;
    size_t rfind(char c, size_t pos = npos) const;
    size_t find_first_of(const char* s, size_t pos = 0) const; size_t find_first_of(char c, size_t pos = 0) const { return find(c, pos); }
    size_t find_first_not_of(const char* s, size_t pos = 0) const; size_t find_last_not_of(const char* s, size_t pos = npos) const;
    size_t find_last_of(const char* s, size_t pos = npos) const;
    typedef const char* const_iterator; typedef char* iterator;
    const char* begin() const; const char* end() const; char* begin(); char* end();
    string substr(size_t pos = 0, size_t n = npos) const;
    int compare(const string& o) const;
    int compare(size_t pos, size_t n, const char* s) const;
    int compare(size_t pos, size_t n, const string& s) const;
    size_t find(const char* s, size_t pos = 0) const;
    size_t find(const string& s, size_t pos = 0) const;
    size_t find(char c, size_t pos = 0) const;
    size_t rfind(const char* s, size_t pos = npos) const;
    size_t rfind(const string& s, size_t pos = npos) const;
    bool __eq(const string& o) const;
    bool __eqc(const char* o) const;
    bool __lt(const string& o) const;
    const char* c_str() const;
    const char* data() const { return c_str(); }
    void swap(string& o);
    void reserve(size_t = 0) {}
};
inline bool operator==(const string& a, const string& b) { return a.__eq(b); }
inline bool operator!=(const string& a, const string& b) { return !a.__eq(b); }
inline bool operator==(const string& a, const char* b) { return a.__eqc(b); }
inline bool operator!=(const string& a, const char* b) { return !a.__eqc(b); }
inline bool operator==(const char* b, const string& a) { return a.__eqc(b); }
inline bool operator!=(const char* b, const string& a) { return !a.__eqc(b); }
inline bool operator<(const string& a, const string& b) { return a.__lt(b); }
inline bool operator>(const string& a, const string& b) { return b.__lt(a); }
inline bool operator<=(const string& a, const string& b) { return !b.__lt(a); }
inline bool operator>=(const string& a, const string& b) { return !a.__lt(b); }
int stoi(const string&, size_t* = nullptr, int = 10); long stol(const string&, size_t* = nullptr, int = 10);
unsigned long stoul(const string&, size_t* = nullptr, int = 10); unsigned long long stoull(const string&, size_t* = nullptr, int = 10);
long long stoll(const string&, size_t* = nullptr, int = 10); double stod(const string&, size_t* = nullptr);
string operator+(const string& a, const string& b);
string operator+(const string& a, const char* b);
string operator+(const char* a, const string& b);
string operator+(const string& a, char b);
string operator+(char a, const string& b);
string to_string(int); string to_string(unsigned); string to_string(long);
string to_string(unsigned long); string to_string(long long); string to_string(unsigned long long); string to_string(double);
inline void swap(string& a, string& b) { a.swap(b); }
inline namespace literals { inline namespace string_literals { inline string operator""s(const char* p, size_t) { return string(p); } } }

// ---------------------------------------------------------------- streams
typedef unsigned _Ios_Iostate;
class ios_base {
public:
    typedef unsigned iostate; typedef unsigned openmode; typedef unsigned fmtflags;
    static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
    static constexpr openmode binary = 1, in = 2, out = 4, trunc = 8, app = 16, ate = 32;
    enum seekdir { beg, cur, end };
    static constexpr fmtflags fixed = 4, scientific = 8, hex = 16, dec = 2, oct = 128, skipws = 32, boolalpha = 64, floatfield = 12, basefield = 146, showpos = 256;
};
class ios : public ios_base {
    void* __ios; long __t0[0]; char __t1[0];
public:
    bool good() const; bool eof() const; bool fail() const; bool bad() const;
    iostate rdstate() const;
    bool operator!() const { return fail(); }
    explicit operator bool() const { return !fail(); }
    void clear(); void clear(iostate s); void setstate(iostate s);
    void exceptions(iostate s); iostate exceptions() const;
    streamsize precision() const; streamsize precision(streamsize n);
    fmtflags flags() const; fmtflags flags(fmtflags); fmtflags setf(fmtflags); fmtflags setf(fmtflags, fmtflags); void unsetf(fmtflags);
    streamsize width() const; streamsize width(streamsize);
    char fill() const; char fill(char);
    ios& copyfmt(const ios&);
};
class istream : public ios {
public:
    istream& operator>>(bool&); istream& operator>>(short&); istream& operator>>(unsigned short&);
    istream& operator>>(int&); istream& operator>>(unsigned&); istream& operator>>(long&);
    istream& operator>>(unsigned long&); istream& operator>>(long long&); istream& operator>>(unsigned long long&);
    istream& operator>>(float&); istream& operator>>(double&);
    istream& operator>>(istream& (*pf)(istream&)) { return pf(*this); }
    istream& read(char* p, streamsize n);
    int get(); istream& get(char& c); int peek(); istream& unget(); istream& putback(char);
    istream& ignore(streamsize n = 1, int delim = -1);
    istream& seekg(streamoff); istream& seekg(streamoff, seekdir); streamoff tellg();
    streamsize gcount() const;
    istream& get(char* p, streamsize n); istream& getline(char* p, streamsize n);
    streamsize readsome(char* p, streamsize n);
};
istream& operator>>(istream&, string&);
istream& operator>>(istream&, char&);
istream& getline(istream&, string&);
istream& getline(istream&, string&, char);
istream& ws(istream&);
class ostream : public ios {
public:
    ostream& operator<<(bool); ostream& operator<<(short); ostream& operator<<(unsigned short);
    ostream& operator<<(int); ostream& operator<<(unsigned); ostream& operator<<(long);
    ostream& operator<<(unsigned long); ostream& operator<<(long long); ostream& operator<<(unsigned long long);
    ostream& operator<<(float); ostream& operator<<(double); ostream& operator<<(const void*);
    ostream& operator<<(ostream& (*pf)(ostream&)) { return pf(*this); }
    ostream& operator<<(ios_base& (*pf)(ios_base&)) { pf(*this); return *this; }
    ostream& write(const char* p, streamsize n);
    ostream& put(char c); ostream& flush();
    streamoff tellp();
};
ostream& operator<<(ostream&, const char*);
ostream& operator<<(ostream&, char);
ostream& operator<<(ostream&, const string&);
ostream& endl(ostream&);
ostream& flush(ostream&);
ios_base& fixed(ios_base&); ios_base& scientific(ios_base&); ios_base& hex(ios_base&); ios_base& dec(ios_base&);
ios_base& defaultfloat(ios_base&); ios_base& boolalpha(ios_base&); ios_base& noboolalpha(ios_base&);
extern istream cin; extern ostream cout, cerr, clog;

class stringstream : public ostream {
public:
    stringstream(); explicit stringstream(const string&);
    string str() const; void str(const string&);
};
typedef stringstream ostringstream;
template <class T> stringstream& operator>>(stringstream&, T&);
class istringstream : public istream { public: explicit istringstream(const string&); };
class ifstream : public istream {
public:
    ifstream(); explicit ifstream(const char*, openmode = in); explicit ifstream(const string&, openmode = in);
    void open(const char*, openmode = in); void open(const string&, openmode = in);
    bool is_open() const; void close();
};
class ofstream : public ostream {
public:
    ofstream(); explicit ofstream(const char*, openmode = out); explicit ofstream(const string&, openmode = out);
    void open(const char*, openmode = out); void open(const string&, openmode = out);
    bool is_open() const; void close();
};

// ---------------------------------------------------------------- manipulators
struct __q_out { const string* s; };
struct __q_io { string* s; };
struct __q_cout { const char* s; };
inline __q_out quoted(const string& s) { __q_out q; q.s = &s; return q; }
inline __q_io quoted(string& s) { __q_io q; q.s = &s; return q; }
inline __q_cout quoted(const char* s) { __q_cout q; q.s = s; return q; }
ostream& __vp_quoted_out(ostream&, const string&);
istream& __vp_quoted_in(istream&, string&);
inline ostream& operator<<(ostream& o, const __q_out& q) { return __vp_quoted_out(o, *q.s); }
inline ostream& operator<<(ostream& o, const __q_io& q) { return __vp_quoted_out(o, *q.s); }
inline ostream& operator<<(ostream& o, const __q_cout& q) { return __vp_quoted_out(o, string(q.s)); }
inline istream& operator>>(istream& i, const __q_io& q) { return __vp_quoted_in(i, *q.s); }
struct __setprec { int n; };
inline __setprec setprecision(int n) { __setprec p; p.n = n; return p; }
inline ostream& operator<<(ostream& o, __setprec p) { o.precision(p.n); return o; }
struct __setw { int n; };
inline __setw setw(int n) { __setw p; p.n = n; return p; }
inline ostream& operator<<(ostream& o, __setw p) { o.width(p.n); return o; }

// ---------------------------------------------------------------- algorithms
inline int min(const int& a, const int& b) { return __vp_min(a, b); }
inline unsigned min(const unsigned& a, const unsigned& b) { return __vp_min(a, b); }
inline long min(const long& a, const long& b) { return __vp_min(a, b); }
inline unsigned long min(const unsigned long& a, const unsigned long& b) { return __vp_min(a, b); }
inline double min(const double& a, const double& b) { return __vp_min(a, b); }
inline int max(const int& a, const int& b) { return __vp_max(a, b); }
inline unsigned max(const unsigned& a, const unsigned& b) { return __vp_max(a, b); }
inline long max(const long& a, const long& b) { return __vp_max(a, b); }
inline unsigned long max(const unsigned long& a, const unsigned long& b) { return __vp_max(a, b); }
inline double max(const double& a, const double& b) { return __vp_max(a, b); }
template <class T> T min(const T& a, const T& b) { return __vp_min(a, b); }
template <class T> T max(const T& a, const T& b) { return __vp_max(a, b); }
template <class T> const T* min_element(const T* f, const T* l) { return f + __vp_argmin(f, l); }
template <class T> T* min_element(T* f, T* l) { return f + __vp_argmin<T>(f, l); }
template <class T> const T* max_element(const T* f, const T* l) { return f + __vp_argmax(f, l); }
template <class T> T* max_element(T* f, T* l) { return f + __vp_argmax<T>(f, l); }
template <class T> pair<T*, T*> minmax_element(T* f, T* l) { return pair<T*, T*>(f + __vp_argmin<T>(f, l), f + __vp_argmax<T>(f, l)); }

template <class V> struct back_insert_iterator {
    V* v;
    back_insert_iterator& operator*() { return *this; }
    back_insert_iterator& operator++() { return *this; }
    back_insert_iterator operator++(int) { return *this; }
    template <class T> back_insert_iterator& operator=(const T& x) { v->push_back(x); return *this; }
    back_insert_iterator(const back_insert_iterator&) = default; back_insert_iterator() {}
};
template <class T> struct ostream_iterator {
    ostream* o; const char* d;
    ostream_iterator(ostream& s, const char* t = nullptr) : o(&s), d(t) {}
    ostream_iterator(const ostream_iterator&) = default;
    ostream_iterator& operator*() { return *this; }
    ostream_iterator& operator++() { return *this; }
    ostream_iterator operator++(int) { return *this; }
    ostream_iterator& operator=(const T& x) { *o << x; if (d) *o << d; return *this; }
};
template <class T> struct istream_iterator {
    istream* i; T v;
    istream_iterator() : i(nullptr), v() {}
    istream_iterator(istream& s) : i(&s), v() { next(); }
    void next() { if (i && !(*i >> v)) i = nullptr; }
    const T& operator*() const { return v; }
    const T* operator->() const { return &v; }
    istream_iterator& operator++() { next(); return *this; }
    bool operator==(const istream_iterator& o) const { return i == o.i; }
    bool operator!=(const istream_iterator& o) const { return i != o.i; }
};
template <class V> back_insert_iterator<V> back_inserter(V& v) { back_insert_iterator<V> b; b.v = &v; return b; }
template <class T, class V> back_insert_iterator<V> copy(const T* f, const T* l, back_insert_iterator<V> o) { o.v->insert(o.v->end(), f, l); return o; }
template <class T, class V> back_insert_iterator<V> copy(T* f, T* l, back_insert_iterator<V> o) { o.v->insert(o.v->end(), f, l); return o; }
template <class It, class V> back_insert_iterator<V> copy(It f, It l, back_insert_iterator<V> o) { for (; f != l; ++f) o.v->push_back(*f); return o; }
template <class T, class U> U* copy(const T* f, const T* l, U* o) { __vp_copy<T, U>(f, l, o); return o + (l - f); }
template <class T, class U> U* copy(T* f, T* l, U* o) { __vp_copy<T, U>(f, l, o); return o + (l - f); }
template <class T, class U> ostream_iterator<U> copy(const T* f, const T* l, ostream_iterator<U> o) { for (; f != l; ++f) o = *f; return o; }
template <class T, class U> ostream_iterator<U> copy(T* f, T* l, ostream_iterator<U> o) { for (; f != l; ++f) o = *f; return o; }
template <class T, class U> U* copy(istream_iterator<T> f, istream_iterator<T> l, U* o) { for (; f != l; ++f, ++o) *o = *f; return o; }
template <class T, class N, class O> O copy_n(istream_iterator<T> f, N n, O o) { if (n > 0) { for (N k = 0; ; ) { *o = *f; ++o; if (++k == n) break; ++f; } } return o; }
template <class It, class F> void generate(It f, It l, F g) { for (; f != l; ++f) *f = g(); }
template <class It, class N, class F> It generate_n(It f, N n, F g) { for (N i = 0; i < n; i++, ++f) *f = g(); return f; }
template <class It, class N, class F> It for_each_n(It f, N n, F g) { for (N i = 0; i < n; i++, ++f) g(*f); return f; }
template <class It, class It2> bool equal(It f, It l, It2 g) { for (; f != l; ++f, ++g) if (!(*f == *g)) return false; return true; }
template <class It, class T> ptrdiff_t count(It f, It l, const T& v) { ptrdiff_t n = 0; for (; f != l; ++f) if (*f == v) ++n; return n; }
template <class It> void sort(It, It); template <class It, class F> void sort(It, It, F);
template <class It> void stable_sort(It, It); template <class It, class F> void stable_sort(It, It, F);
template <class It> void reverse(It, It); template <class It> It unique(It, It); template <class It, class T> It remove(It, It, const T&); template <class It, class P> It remove_if(It, It, P);
template <class It, class T> It lower_bound(It, It, const T&); template <class It, class T> It upper_bound(It, It, const T&); template <class It, class T> bool binary_search(It, It, const T&);
template <class It> It rotate(It, It, It);
template <class It, class F> It min_element(It f, It l, F c) { if (f == l) return l; It m = f; for (++f; f != l; ++f) if (c(*f, *m)) m = f; return m; }
template <class It, class F> It max_element(It f, It l, F c) { if (f == l) return l; It m = f; for (++f; f != l; ++f) if (c(*m, *f)) m = f; return m; }
template <class T> T min(initializer_list<T> l) { const T* p = l.begin(); T m = *p; for (++p; p != l.end(); ++p) m = __vp_min(m, *p); return m; }
template <class T> T max(initializer_list<T> l) { const T* p = l.begin(); T m = *p; for (++p; p != l.end(); ++p) m = __vp_max(m, *p); return m; }
template <class T> const T& clamp(const T& v, const T& a, const T& b) { return v < a ? a : b < v ? b : v; }
template <class T, class N, class O> O copy_n(T* f, N n, O o) { return copy(f, f + n, o); }
template <class T, class U> void fill(T* f, T* l, const U& v) { const T c = v; __vp_fill<T>(f, l, c); }
template <class T, class N, class U> T* fill_n(T* f, N n, const U& v) { const T c = v; __vp_fill<T>(f, f + n, c); return f + n; }
template <class It, class F> F for_each(It f, It l, F g) { for (; f != l; ++f) g(*f); return g; }
template <class It, class P> bool any_of(It f, It l, P p) { for (; f != l; ++f) if (p(*f)) return true; return false; }
template <class It, class P> bool all_of(It f, It l, P p) { for (; f != l; ++f) if (!p(*f)) return false; return true; }
template <class It, class P> bool none_of(It f, It l, P p) { for (; f != l; ++f) if (p(*f)) return false; return true; }
template <class It, class T> It find(It f, It l, const T& v) { for (; f != l; ++f) if (*f == v) return f; return l; }
template <class It, class P> It find_if(It f, It l, P p) { for (; f != l; ++f) if (p(*f)) return f; return l; }
template <class It, class P> ptrdiff_t count_if(It f, It l, P p) { ptrdiff_t n = 0; for (; f != l; ++f) if (p(*f)) ++n; return n; }
template <class It, class O, class F> O transform(It f, It l, O o, F g) { for (; f != l; ++f, ++o) *o = g(*f); return o; }
template <class It, class T> T accumulate(It f, It l, T v) { for (; f != l; ++f) v = v + *f; return v; }
template <class It, class T, class F> T accumulate(It f, It l, T v, F g) { for (; f != l; ++f) v = g(v, *f); return v; }
template <class It, class T> void iota(It f, It l, T v) { for (; f != l; ++f) { *f = v; ++v; } }
template <class It> void advance(It& i, ptrdiff_t n) { i += n; }
template <class It> It next(It i, ptrdiff_t n = 1) { return i + n; }
template <class It> It prev(It i, ptrdiff_t n = 1) { return i - n; }
template <class It> ptrdiff_t distance(It f, It l) { return l - f; }
template <class C> auto begin(C& c) -> decltype(c.begin()) { return c.begin(); }
template <class C> auto end(C& c) -> decltype(c.end()) { return c.end(); }
template <class C> auto begin(const C& c) -> decltype(c.begin()) { return c.begin(); }
template <class C> auto end(const C& c) -> decltype(c.end()) { return c.end(); }
template <class T, size_t N> constexpr T* begin(T (&a)[N]) { return a; }
template <class T, size_t N> constexpr T* end(T (&a)[N]) { return a + N; }
template <class C> constexpr auto size(const C& c) -> decltype(c.size()) { return c.size(); }
template <class T, size_t N> constexpr size_t size(const T (&)[N]) { return N; }

// ---------------------------------------------------------------- exceptions
}
#include <exception>
namespace std {
class logic_error : public exception { void* m; public: explicit logic_error(const string&); explicit logic_error(const char*); const char* what() const noexcept override; };
class runtime_error : public exception { void* m; public: explicit runtime_error(const string&); explicit runtime_error(const char*); const char* what() const noexcept override; };
class out_of_range : public logic_error { public: using logic_error::logic_error; };
class invalid_argument : public logic_error { public: using logic_error::logic_error; };
class length_error : public logic_error { public: using logic_error::logic_error; };
class domain_error : public logic_error { public: using logic_error::logic_error; };
class range_error : public runtime_error { public: using runtime_error::runtime_error; };
class overflow_error : public runtime_error { public: using runtime_error::runtime_error; };
} // namespace std
