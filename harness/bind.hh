// Binds generated classes to the model. Included after the generated header; the includer defines PG (namespace
// of the runtime) and HAS_NUMBER, HAS_STRING, HAS_BYTES, HAS_ARRAY (0/1) from its knowledge of the schema.
#pragma once
#include "val.hh"
#include <deque>
#include <list>
#include <vector>
#include <sstream>
#include <locale>
#include <type_traits>

namespace bind {

template<typename M> struct Bind { static const bool value = false; };

template<typename T, typename E = void> struct Conv;    // element <-> Val

template<typename T> struct Conv<T, typename std::enable_if<std::is_floating_point<T>::value>::type>
{
    static T to( const Val &v ) { return (T) v.d; }
    static Val from( const T &t ) { Val v; v.present = true; v.d = (double) t; return v; }
};
template<typename T> struct Conv<T, typename std::enable_if<std::is_integral<T>::value && std::is_signed<T>::value>::type>
{
    static T to( const Val &v ) { return (T) v.i; }
    static Val from( const T &t ) { Val v; v.present = true; v.i = t; return v; }
};
template<typename T> struct Conv<T, typename std::enable_if<std::is_integral<T>::value && !std::is_signed<T>::value && !std::is_same<T,bool>::value>::type>
{
    static T to( const Val &v ) { return (T) v.u; }
    static Val from( const T &t ) { Val v; v.present = true; v.u = t; return v; }
};
template<> struct Conv<bool, void>
{
    static bool to( const Val &v ) { return v.i != 0; }
    static Val from( const bool &t ) { Val v; v.present = true; v.i = t ? 1 : 0; return v; }
};
template<> struct Conv<std::string, void>
{
    static std::string to( const Val &v ) { return v.s; }
    static Val from( const std::string &t ) { Val v; v.present = true; v.s = t; return v; }
};
template<> struct Conv<std::vector<uint8_t>, void>
{
    static std::vector<uint8_t> to( const Val &v ) { return std::vector<uint8_t>(v.s.begin(), v.s.end()); }
    static void assign( std::vector<uint8_t> &m, const Val &v ) { m.assign(v.s.begin(), v.s.end()); }
    static Val from( const std::vector<uint8_t> &t ) { Val v; v.present = true; v.s.assign(t.begin(), t.end()); return v; }
};
template<typename M> struct Conv<M, typename std::enable_if<Bind<M>::value>::type>
{
    struct Set { const Val &v; template<typename T> void operator()( size_t i, T &m ) { Conv<T>::assign(m, v.list[i]); } };
    struct Get { Val &v; template<typename T> void operator()( size_t i, const T &m ) { v.list[i] = Conv<T>::from(m); } };
    static void assign( M &m, const Val &v ) { Set s = { v }; Bind<M>::each(m, s); }
    static M to( const Val &v ) { M m; assign(m, v); return m; }
    static Val from( const M &m )
    {
        Val v; v.list.resize(Bind<M>::count);
        Get g = { v };
        Bind<M>::each(m, g);
        return v;
    }
};

#if HAS_STRING
template<> struct Conv<PG::string_field, void>
{
    static PG::string_field to( const Val &v ) { PG::string_field f; assign(f, v); return f; }
    static void assign( PG::string_field &f, const Val &v ) { if (v.present) f = v.s; }
    static Val from( const PG::string_field &f )
    {
        Val v; v.present = !f.empty(); v.s = *f;
        return v;
    }
};
#endif
#if HAS_NUMBER
template<typename T> struct Conv<PG::field<T>, void>
{
    static PG::field<T> to( const Val &v ) { PG::field<T> f; assign(f, v); return f; }
    static void assign( PG::field<T> &f, const Val &v ) { if (v.present) f = Conv<T>::to(v); }
    static Val from( const PG::field<T> &f )
    {
        Val v; 
        if (!f.empty()) v = Conv<T>::from((T) f);
        return v;
    }
};
#endif
template<typename C> struct ConvList
{
    typedef typename C::value_type E;
    static void assign( C &c, const Val &v ) { for (const auto &e : v.list) c.push_back(Conv<E>::to(e)); }
    static C to( const Val &v ) { C c; assign(c, v); return c; }
    static Val from( const C &c ) { Val v; for (typename C::const_iterator it = c.begin(); it != c.end(); ++it) v.list.push_back(Conv<E>::from(*it)); return v; }
};
template<typename T> struct Conv<std::vector<T>, typename std::enable_if<!std::is_same<T,uint8_t>::value>::type> : ConvList<std::vector<T>> {};
template<typename T> struct Conv<std::list<T>, void> : ConvList<std::list<T>> {};
template<typename T> struct Conv<std::deque<T>, void> : ConvList<std::deque<T>> {};

// How a field is changed, cleared and compared in different but equivalent ways
template<typename T, typename E = void> struct Fld
{
    // containers and bytes
    static void set( T &m, const Val &v, unsigned how ) { if (how & 1) { m.clear(); for (auto &x : Conv<T>::to(v)) m.push_back(x); } else m = Conv<T>::to(v); }
    static void clear( T &m, unsigned ) { m.clear(); }
    static bool empty( const T &m ) { return m.empty(); }
    static void swap( T &a, T &b ) { a.swap(b); }
    static int cmp( const T &, const T & ) { return -1; }
    static void alias( T &m, unsigned ) { T &o = m; m = o; }
    static int plain( const T &, const Val &, unsigned ) { return -1; }
};
template<> struct Fld<std::vector<bool>, void>
{
    typedef std::vector<bool> T;
    static void set( T &m, const Val &v, unsigned ) { m = Conv<T>::to(v); }
    static void clear( T &m, unsigned ) { m.clear(); }
    static bool empty( const T &m ) { return m.empty(); }
    static void swap( T &a, T &b ) { a.swap(b); }
    static int cmp( const T &, const T & ) { return -1; }
    static void alias( T &m, unsigned ) { T &o = m; m = o; }
    static int plain( const T &, const Val &, unsigned ) { return -1; }
};
template<typename T> struct Fld<T, typename std::enable_if<Bind<T>::value>::type>
{
    static void set( T &m, const Val &v, unsigned how ) { if (how & 1) { m.clear(); Conv<T>::assign(m, v); } else m = Conv<T>::to(v); }
    static void clear( T &m, unsigned how ) { if (how & 1) m = T(); else m.clear(); }
    static bool empty( const T &m ) { return m.empty(); }
    static void swap( T &a, T &b ) { a.swap(b); }
    static int cmp( const T &a, const T &b ) { return (a == b ? 1 : 0) | (a != b ? 2 : 0); }
    static void alias( T &m, unsigned ) { T &o = m; m = o; }
    static int plain( const T &, const Val &, unsigned ) { return -1; }
};
#if HAS_NUMBER
template<typename N> struct Fld<PG::field<N>, void>
{
    typedef PG::field<N> T;
    static void set( T &m, const Val &v, unsigned how )
    {
        if (!v.present) { clear(m, how); return; }
        switch (how % 4)
        {
            case 0: m = Conv<N>::to(v); break;
            case 1: { T t; t = Conv<N>::to(v); m = t; break; }
            case 2: { Val was = Conv<T>::from(m); N n = Conv<N>::to(v); m.swap(n); if (was.present && n != Conv<N>::to(was)) m.clear(); break; } // the value comes out
            case 3: { T t; t = Conv<N>::to(v); T u(t); m = u; break; }
        }
    }
    static void clear( T &m, unsigned how ) { if (how & 1) { T t; m = t; } else m.clear(); }
    static bool empty( const T &m ) { return m.empty(); }
    static void swap( T &a, T &b ) { a.swap(b); }
    static int cmp( const T &a, const T &b ) { return (a == b ? 1 : 0) | (a != b ? 2 : 0); }
    // assigned from itself in some way
    static void alias( T &m, unsigned how )
    {
        switch (how % 3) { case 0: { T &o = m; m = o; break; } case 1: m = (N) m; break; case 2: { T &o = m; m.swap(o); break; } }
    }
    // compared with a plain value
    static int plain( const T &m, const Val &v, unsigned ) { const N n = Conv<N>::to(v); return (m == n ? 1 : 0) | (m != n ? 2 : 0); }
};
#endif
#if HAS_STRING
template<> struct Fld<PG::string_field, void>
{
    typedef PG::string_field T;
    static void set( T &m, const Val &v, unsigned how )
    {
        if (!v.present) { clear(m, how); return; }
        switch (how % 6)
        {
            case 0: m = v.s; break;
            case 1: m = T(v.s); break;
            case 2: { Val was = Conv<T>::from(m); std::string n = v.s; m.swap(n); if (was.present && n != was.s) m.clear(); break; } // the value comes out
            case 3: { T t(v.s); T u(t); m = u; break; }
            case 4: if (v.s.find('\0') == std::string::npos) m = v.s.c_str(); else m = v.s; break;
            case 5: if (v.s.empty()) m = v.s; else { m.clear(); *m += v.s; } break; // changed in place
        }
    }
    static void clear( T &m, unsigned how )
    {
        switch (how % 3) { case 0: m.clear(); break; case 1: { T t; m = t; break; } case 2: m.empty(true); break; }
    }
    static bool empty( const T &m ) { return m.empty(); }
    static void swap( T &a, T &b ) { a.swap(b); }
    static int cmp( const T &a, const T &b ) { return (a == b ? 1 : 0) | (a != b ? 2 : 0); }
    static void alias( T &m, unsigned how )
    {
        const bool c = (*m).find('\0') == std::string::npos;
        switch (how % 6)
        {
            case 0: { T &o = m; m = o; break; }
            case 1: m = *m; break;
            case 2: { const T &o = m; m = static_cast<const std::string&>(o); break; }
            case 3: if (c) m = (*m).c_str(); break;
            case 4: { T &o = m; m.swap(o); break; }
            case 5: if (c) { T t((*m).c_str()); m = t; } break;
        }
    }
    static int plain( const T &m, const Val &v, unsigned how )
    {
        if (how % 5 == 3)
        {
            // what is printed, and every way to the text
            std::ostringstream o; o << m; T u(m); std::string s = u; const std::string &r = m;
            if (o.str() != *m || s != *m || r != *m || &*m != &r) return 8;
        }
        if (how & 1 && v.s.find('\0') == std::string::npos) return (m == v.s.c_str() ? 1 : 0) | (m != v.s.c_str() ? 2 : 0);
        return (m == v.s ? 1 : 0) | (m != v.s ? 2 : 0);
    }
};
#endif

inline void to_params( const P &p, PG::Parameters &out )
{
    out.ensure_ascii = p.ascii;
    out.serialize_null = p.nulls;
    out.error.code = (PG::error_code) p.error.code;
    out.error.message = p.error.message;
    out.error.line = p.error.line;
    out.error.column = p.error.column;
}
inline void from_params( const PG::Parameters &in, P &p )
{
    p.error.code = (int) in.error.code;
    p.error.message = in.error.message;
    p.error.line = in.error.line;
    p.error.column = in.error.column;
    // the error record agrees with itself
    {
        PG::ErrorInfo copy(in.error), other, moved;
        other.code = in.error.code == PG::PGERR_OK ? PG::PGERR_INVALID_VALUE : PG::PGERR_OK;
        moved = in.error;
        const bool none = in.error.code == PG::PGERR_OK;
        bool good = (bool) in.error == none && in.error == in.error.code && !(in.error == other.code) && in.error == copy && moved == in.error && !(in.error == other) &&
            moved.message == in.error.message && copy.message == in.error.message;
        copy.clear();
        good = good && copy.code == PG::PGERR_OK && copy.message.empty() && copy.line == 0 && copy.column == 0 && (bool) copy;
        if (!good) { p.error.code = -2; p.error.message = "the error record disagrees with itself"; }
    }
    // the options belong to the caller
    if (in.ensure_ascii != p.ascii || in.serialize_null != p.nulls) { p.error.code = -1; p.error.message = "parameters changed"; }
}

// user-defined output and input
class UserOut : public PG::ostream
{
    public:
        std::string &out; ChanInfo &info;
        UserOut( std::string &out, ChanInfo &info ) : out(out), info(info) {}
        PG::ostream &operator<<( const std::string &value ) override { info.step(); out += value; ++info.writes; return *this; }
        PG::ostream &operator<<( const char *value ) override { info.step(); out += value; ++info.writes; return *this; }
        PG::ostream &operator<<( char *value ) override { info.step(); out += value; ++info.writes; return *this; }
        PG::ostream &operator<<( char value ) override { info.step(); out += value; ++info.writes; return *this; }
};
class UserIn : public PG::istream
{
    public:
        const char *cur, *last; int line_ = 1, column_ = 1; ChanInfo &info;
        UserIn( const char *data, size_t len, ChanInfo &info ) : cur(data), last(data + len), info(info) {}
        int peek() override { info.step(); ++info.peeks; return cur == last ? 0 : *cur; }
        void next() override
        {
            info.step();
            ++info.nexts;
            if (cur == last) return;
            if (*cur == '\n') { ++line_; column_ = 1; } else ++column_;
            ++cur; ++info.consumed;
        }
        bool eof() const override { info.step(); return cur == last; }
        int line() const override { return line_; }
        int column() const override { return column_; }
};

// the buffer of a standard stream that fails at some character
class FaultBuf : public std::streambuf
{
    public:
        const char *cur, *last; std::string *out; ChanInfo &info; char c;
        FaultBuf( const char *data, size_t len, ChanInfo &info ) : cur(data), last(data + len), out(nullptr), info(info), c(0) {}
        FaultBuf( std::string *out, ChanInfo &info ) : cur(nullptr), last(nullptr), out(out), info(info), c(0) {}
    protected:
        int_type underflow() override
        {
            if (cur == last) return traits_type::eof();
            info.step();
            c = *cur++;
            setg(&c, &c, &c + 1);
            return traits_type::to_int_type(c);
        }
        int_type overflow( int_type x ) override
        {
            if (info.fault_kind == 3 && info.ops + 1 >= info.throw_at && info.throw_at) { ++info.ops; return traits_type::eof(); }
            info.step();
            if (!traits_type::eq_int_type(x, traits_type::eof())) *out += traits_type::to_char_type(x);
            return traits_type::not_eof(x);
        }
};

// calls f(params pointer) and carries the parameters in and out
template<typename F> bool with_params( P &p, ChanInfo &info, F f )
{
    bool result = false;
    try
    {
        if (p.null) { Window w; result = f((PG::Parameters*) nullptr); }
        else
        {
            PG::Parameters pp; to_params(p, pp);
            { Window w; result = f(&pp); }
            from_params(pp, p);
        }
    } catch (std::exception &ex) { info.threw = true; info.what = ex.what(); }
    catch (UserFault &) { info.threw = true; info.what = "user fault"; }
    return result;
}

// what a stream may have been told before, none of which concerns the text of a message
struct OtherDigits : std::numpunct<char>
{
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\3"; }
};
inline void set_up( std::ios &s, unsigned f )
{
    if (f & 1) s.setf(std::ios::hex, std::ios::basefield);
    if (f & 2) { s.setf(std::ios::showbase); s.setf(std::ios::uppercase); s.setf(std::ios::showpos); }
    if (f & 4) { s.setf(std::ios::boolalpha); s.setf(std::ios::unitbuf); }
    if (f & 8) { s.setf(std::ios::scientific, std::ios::floatfield); s.precision(2); }
    if (f & 16) { s.fill('*'); s.setf(f & 32 ? std::ios::left : std::ios::internal, std::ios::adjustfield); }
    if (f & 64) s.imbue(std::locale(std::locale::classic(), new OtherDigits));
    if (f & 128) s.width(1 + (f >> 8) % 40);
}

template<typename M> struct ObjT : Obj
{
    M m;
    ObjT() {}
    ObjT( const M &o ) : m(o) {}
    ObjT( M &&o ) : m(std::move(o)) {}
    const MsgDesc &desc() const override { return Bind<M>::desc(); }
    void set( const Val &v ) override { Conv<M>::assign(m, v); }
    Val get() const override { return Conv<M>::from(m); }
    bool ser( OutChan c, std::string &out, P &p, ChanInfo &info ) const override
    {
        switch (c)
        {
            case OUT_STRING: return with_params(p, info, [&](PG::Parameters *pp) { return m.serialize(out, pp); });
            case OUT_VECTOR:
            {
                std::vector<char> v(out.begin(), out.end());
                bool r = with_params(p, info, [&](PG::Parameters *pp) { return m.serialize(v, pp); });
                out.assign(v.begin(), v.end());
                return r;
            }
            case OUT_STREAM:
            {
                if (info.faulty)
                {
                    FaultBuf fb(&out, info);
                    std::ostream os(&fb);
                    if (info.exceptions) os.exceptions(std::ios_base::badbit);
                    auto flags = os.flags();
                    bool r = with_params(p, info, [&](PG::Parameters *pp) { return m.serialize(os, pp); });
                    if (flags != os.flags()) info.flags_changed = true;
                    info.stream_failed = !os.good();
                    return r;
                }
                std::ostringstream ss; ss << out;
                set_up(ss, info.format);
                auto flags = ss.flags();
                bool r = with_params(p, info, [&](PG::Parameters *pp) { return m.serialize(ss, pp); });
                if (flags != ss.flags()) info.flags_changed = true;
                info.stream_failed = !ss.good();
                out = ss.str();
                return r;
            }
            default:
            {
                UserOut uo(out, info);
                return with_params(p, info, [&](PG::Parameters *pp) { return m.serialize(uo, pp); });
            }
        }
    }
    bool ser_buf( char *buf, size_t len, P &p ) override
    {
        ChanInfo info;
        bool r = with_params(p, info, [&](PG::Parameters *pp) { return m.serialize(buf, len, pp); });
        return r && !info.threw;
    }
    bool des( InChan c, const char *data, size_t len, P &p, ChanInfo &info ) override
    {
        switch (c)
        {
            case IN_STRING: { std::string s(data, len); return with_params(p, info, [&](PG::Parameters *pp) { return m.deserialize(s, pp); }); }
            case IN_VECTOR: { std::vector<char> s(data, data + len); return with_params(p, info, [&](PG::Parameters *pp) { return m.deserialize(s, pp); }); }
            case IN_PTR:
            {
                // exactly as large as the text, so that any access outside of it is seen
                std::unique_ptr<char[]> copy(new char[len]);
                if (len) memcpy(copy.get(), data, len);
                const char *ptr = copy.get();
                return with_params(p, info, [&](PG::Parameters *pp) { return m.deserialize(ptr, len, pp); });
            }
            case IN_STREAM:
            {
                if (info.faulty)
                {
                    FaultBuf fb(data, len, info);
                    std::istream is(&fb);
                    if (info.exceptions) is.exceptions(std::ios_base::badbit);
                    if (len % 3 == 1) is >> std::noskipws;
                    auto flags = is.flags();
                    bool r = with_params(p, info, [&](PG::Parameters *pp) { return m.deserialize(is, pp); });
                    if (flags != is.flags()) info.flags_changed = true;
                    info.stream_failed = is.bad();
                    return r;
                }
                std::istringstream ss(std::string(data, len));
                switch (len % 3) { case 0: break; case 1: ss >> std::noskipws; break; case 2: ss >> std::hex; break; }
                set_up(ss, info.format);
                auto flags = ss.flags();
                bool r = with_params(p, info, [&](PG::Parameters *pp) { return m.deserialize(ss, pp); });
                if (flags != ss.flags()) info.flags_changed = true;
                return r;
            }
            default:
            {
                UserIn ui(data, len, info);
                return with_params(p, info, [&](PG::Parameters *pp) { return m.deserialize(ui, pp); });
            }
        }
    }
    static M &of( Obj &o ) { return static_cast<ObjT&>(o).m; }
    static const M &of( const Obj &o ) { return static_cast<const ObjT&>(o).m; }
    Obj *fresh() const override { return new ObjT; }
    Obj *copy() const override { return new ObjT(m); }
    Obj *move() override { return new ObjT(std::move(m)); }
    void assign( const Obj &o ) override { m = of(o); }
    void assign_move( Obj &o ) override { m = std::move(of(o)); }
    void swap( Obj &o ) override { m.swap(of(o)); }
    void clear() override { m.clear(); }
    bool empty() const override { return m.empty(); }
    bool equal( const Obj &o ) const override { return m.equal(of(o)); }
    bool eq( const Obj &o ) const override { return m == of(o); }
    bool ne( const Obj &o ) const override { return m != of(o); }

    struct SetF { size_t n; const Val &v; unsigned how; template<typename T> void operator()( size_t i, T &f ) { if (i == n) Fld<T>::set(f, v, how); } };
    struct ClearF { size_t n; unsigned how; template<typename T> void operator()( size_t i, T &f ) { if (i == n) Fld<T>::clear(f, how); } };
    struct EmptyF { size_t n; bool r; template<typename T> void operator()( size_t i, const T &f ) { if (i == n) r = Fld<T>::empty(f); } };
    struct PtrF { size_t n; void *r; template<typename T> void operator()( size_t i, T &f ) { if (i == n) r = (void*) &f; } };
    struct CPtrF { size_t n; const void *r; template<typename T> void operator()( size_t i, const T &f ) { if (i == n) r = (const void*) &f; } };
    struct CopyF { size_t n; const void *from; unsigned how; template<typename T> void operator()( size_t i, T &f )
    {
        if (i != n) return;
        const T &o = *(const T*) from;
        if (how & 1) { T t(o); f = t; } else f = o;
    } };
    struct SwapF { size_t n; void *with; template<typename T> void operator()( size_t i, T &f ) { if (i == n) Fld<T>::swap(f, *(T*) with); } };
    struct AliasF { size_t n; unsigned how; template<typename T> void operator()( size_t i, T &f ) { if (i == n) Fld<T>::alias(f, how); } };
    struct PlainF { size_t n; const Val &v; unsigned how; int r; template<typename T> void operator()( size_t i, const T &f ) { if (i == n) r = Fld<T>::plain(f, v, how); } };
    struct CmpF { size_t n; const void *with; int r; template<typename T> void operator()( size_t i, const T &f ) { if (i == n) r = Fld<T>::cmp(f, *(const T*) with); } };

    void set_field( size_t i, const Val &v, unsigned how ) override { SetF s = { i, v, how }; Bind<M>::each(m, s); }
    void clear_field( size_t i, unsigned how ) override { ClearF s = { i, how }; Bind<M>::each(m, s); }
    bool field_is_empty( size_t i ) const override { EmptyF s = { i, false }; Bind<M>::each(m, s); return s.r; }
    void copy_field( size_t i, const Obj &from, unsigned how ) override
    {
        CPtrF p = { i, nullptr }; Bind<M>::each(of(from), p);
        CopyF s = { i, p.r, how }; Bind<M>::each(m, s);
    }
    void swap_field( size_t i, Obj &with ) override
    {
        PtrF p = { i, nullptr }; Bind<M>::each(of(with), p);
        SwapF s = { i, p.r }; Bind<M>::each(m, s);
    }
    void alias_field( size_t i, unsigned how ) override { AliasF s = { i, how }; Bind<M>::each(m, s); }
    int cmp_plain( size_t i, const Val &v, unsigned how ) const override { PlainF s = { i, v, how, -1 }; Bind<M>::each(m, s); return s.r; }
    int cmp_field( size_t i, const Obj &with ) const override
    {
        CPtrF p = { i, nullptr }; Bind<M>::each(of(with), p);
        CmpF s = { i, p.r, -1 }; Bind<M>::each(m, s);
        return s.r;
    }
    static Obj *make() { return new ObjT; }
};

#if HAS_ARRAY
template<typename T> struct KindOf { static Kind kind() { return K_MSG; } static const MsgDesc *msg() { return &Bind<T>::desc(); } };
template<> struct KindOf<double> { static Kind kind() { return K_DOUBLE; } static const MsgDesc *msg() { return nullptr; } };
template<> struct KindOf<float> { static Kind kind() { return K_FLOAT; } static const MsgDesc *msg() { return nullptr; } };
template<> struct KindOf<int32_t> { static Kind kind() { return K_INT32; } static const MsgDesc *msg() { return nullptr; } };
template<> struct KindOf<int64_t> { static Kind kind() { return K_INT64; } static const MsgDesc *msg() { return nullptr; } };
template<> struct KindOf<uint32_t> { static Kind kind() { return K_UINT32; } static const MsgDesc *msg() { return nullptr; } };
template<> struct KindOf<uint64_t> { static Kind kind() { return K_UINT64; } static const MsgDesc *msg() { return nullptr; } };
template<> struct KindOf<bool> { static Kind kind() { return K_BOOL; } static const MsgDesc *msg() { return nullptr; } };
template<> struct KindOf<std::string> { static Kind kind() { return K_STRING; } static const MsgDesc *msg() { return nullptr; } };
template<> struct KindOf<std::vector<uint8_t>> { static Kind kind() { return K_BYTES; } static const MsgDesc *msg() { return nullptr; } };
#if HAS_STRING
template<> struct KindOf<PG::string_field> { static Kind kind() { return K_STRING; } static const MsgDesc *msg() { return nullptr; } };
#endif

template<typename C> struct ArrT : Arr
{
    C c;
    typedef typename C::value_type E;
    ArrT() { kind = KindOf<E>::kind(); msg = KindOf<E>::msg(); nullable = !std::is_same<E, std::string>::value; }
    void set( const std::vector<Val> &v ) override { c.clear(); for (auto &e : v) c.push_back(Conv<E>::to(e)); }
    std::vector<Val> get() const override { return Conv<C>::from(c).list; }
    bool ser( OutChan ch, std::string &out, P &p, ChanInfo &info ) const override
    {
        switch (ch)
        {
            case OUT_STRING: return with_params(p, info, [&](PG::Parameters *pp) { return PG::serialize_array(c, out, pp); });
            case OUT_VECTOR:
            {
                std::vector<char> v(out.begin(), out.end());
                bool r = with_params(p, info, [&](PG::Parameters *pp) { return PG::serialize_array(c, v, pp); });
                out.assign(v.begin(), v.end());
                return r;
            }
            default:
            {
                UserOut uo(out, info);
                return with_params(p, info, [&](PG::Parameters *pp) { return PG::serialize_array(c, uo, pp); });
            }
        }
    }
    bool des( InChan ch, const char *data, size_t len, P &p, ChanInfo &info ) override
    {
        switch (ch)
        {
            case IN_STRING: { std::string s(data, len); return with_params(p, info, [&](PG::Parameters *pp) { return PG::deserialize_array(c, s, pp); }); }
            case IN_VECTOR: { std::vector<char> s(data, data + len); return with_params(p, info, [&](PG::Parameters *pp) { return PG::deserialize_array(c, s, pp); }); }
            case IN_PTR:
            {
                std::unique_ptr<char[]> copy(new char[len]);
                if (len) memcpy(copy.get(), data, len);
                const char *ptr = copy.get();
                return with_params(p, info, [&](PG::Parameters *pp) { return PG::deserialize_array(c, ptr, len, pp); });
            }
            default:
            {
                UserIn ui(data, len, info);
                return with_params(p, info, [&](PG::Parameters *pp) { return PG::deserialize_array(c, ui, pp); });
            }
        }
    }
    Arr *fresh() const override { return new ArrT; }
    static Arr *make() { return new ArrT; }
};
#endif

} // namespace bind
