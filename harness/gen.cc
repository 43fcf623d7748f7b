#include "gen.hh"
#include "ref.hh"
#include <limits>
#include <algorithm>
#include <cstdio>

static uint32_t gen_cp( Rng &r )
{
    static const uint32_t EDGE[] = { 0, 1, 7, 8, 9, 10, 11, 12, 13, 0x1B, 0x1F, 0x20, '"', '\\', '/', '\'', 0x7E, 0x7F, 0x80, 0x81, 0xFF, 0x100, 0x7FF, 0x800, 0x801, 0xFFF, 0x1000,
        0x2028, 0x2029, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x103FF, 0x10400, 0x1F600, 0x1FFFF, 0x20000, 0xFFFFF, 0x100000, 0x10FC00, 0x10FFFE, 0x10FFFF };
    switch (r.below(10))
    {
        case 0: case 1: case 2: case 3: return 0x20 + (uint32_t) r.below(0x5F);
        case 4: return (uint32_t) r.below(0x80);
        case 5: return 0x80 + (uint32_t) r.below(0x780);
        case 6: { uint32_t c = 0x800 + (uint32_t) r.below(0xF800); return c >= 0xD800 && c <= 0xDFFF ? c - 0x1000 : c; }
        case 7: return 0x10000 + (uint32_t) r.below(0x100000);
        default: return EDGE[r.below(sizeof(EDGE) / sizeof(*EDGE))];
    }
}

static int gen_len( Rng &r, int max )
{
    switch (r.below(8))
    {
        case 0: return 0;
        case 1: return 1;
        case 2: return 2;
        case 3: return 3;
        default: return (int) r.below((uint64_t) max + 1);
    }
}

std::string gen_utf8( Rng &r, int max )
{
    std::string out;
    int n = gen_len(r, max);
    bool ascii = r.chance(30);
    for (int i = 0; i < n; ++i) out += ascii ? std::string(1, (char) (0x20 + r.below(0x5F))) : utf8(gen_cp(r));
    return out;
}

std::string gen_bytes( Rng &r, int max )
{
    std::string out;
    int n = gen_len(r, max);
    while ((int) out.size() < n)
    {
        switch (r.below(6))
        {
            case 0: out += (char) r.below(256); break;
            case 1: out += (char) (0x80 + r.below(0x80)); break;
            case 2: { std::string c = utf8(gen_cp(r)); c.resize(r.below(c.size()) + (r.chance(50) ? 1 : 0)); out += c; break; }
            case 3: // surrogates and overlong forms
            {
                static const char *BAD[] = { "\xED\xA0\x80", "\xED\xBF\xBF", "\xC0\xAF", "\xC1\xBF", "\xE0\x80\xAF", "\xE0\x9F\xBF", "\xF0\x80\x80\xAF", "\xF0\x8F\xBF\xBF", "\xF4\x90\x80\x80", "\xF7\xBF\xBF\xBF", "\xF8\x88\x80\x80\x80", "\xFE", "\xFF", "\x80", "\xBF", "\xC2", "\xE1\x80", "\xF1\x80\x80", "\xC2\x41", "\xE1\x41\x80", "\xE1\x80\x41", "\xF1\x80\x80\x41" };
                out += BAD[r.below(sizeof(BAD) / sizeof(*BAD))];
                break;
            }
            default: out += utf8(gen_cp(r));
        }
    }
    return out;
}

std::string gen_string( Rng &r, const GenOpt &o )
{
    int max = o.max_str;
    if (o.huge && r.chance(3)) max = 3000;
    return o.utf8_only || r.chance(60) ? gen_utf8(r, max) : gen_bytes(r, max);
}

static double gen_double( Rng &r, bool flt, bool finite )
{
    auto bits = [&]() -> double {
        if (flt) { uint32_t b = (uint32_t) r.next(); float f; memcpy(&f, &b, 4); return f; }
        uint64_t b = r.next(); double d; memcpy(&d, &b, 8); return d;
    };
    double d = 0;
    switch (r.below(8))
    {
        case 0: d = (double) r.range(-1000, 1000); break;
        case 1: d = (double) (int64_t) r.next(); break;
        case 2: d = (double) r.range(-100000, 100000) / 1000.0; break;
        case 3:
        {
            static const double E[] = { 0.0, -0.0, 1.0, -1.0, 0.1, 0.2, 0.3, 1e22, 1e23, 9007199254740991.0, 9007199254740992.0, 9007199254740993.0, 5e-324, 2.2250738585072014e-308, 2.2250738585072011e-308, 1.7976931348623157e308, -1.7976931348623157e308, 1e-7, 1e-5, 123456789012345678.0, 4.35, 2.675, 1.0/3.0 };
            static const float F[] = { 0.0f, -0.0f, 1.0f, -1.0f, 0.1f, 0.3f, 16777216.0f, 16777217.0f, 1.40129846e-45f, 1.17549435e-38f, 3.40282347e38f, -3.40282347e38f, 33554433.0f, 1e10f, 1.0f/3.0f };
            d = flt ? (double) F[r.below(sizeof(F) / sizeof(*F))] : E[r.below(sizeof(E) / sizeof(*E))];
            break;
        }
        default: d = bits();
    }
    if (flt) d = (double) (float) d;
    if (!finite && r.chance(15)) { static const double N[] = { INFINITY, -INFINITY, NAN }; return N[r.below(3)]; }
    if (!std::isfinite(d)) { if (finite) return flt ? (double) 1.5f : 1.5; }
    return d;
}

static int64_t gen_int( Rng &r, int64_t min, int64_t max )
{
    switch (r.below(6))
    {
        case 0: return min + (int64_t) r.below(3);
        case 1: return max - (int64_t) r.below(3);
        case 2: return (int64_t) r.below(3) - (min < 0 ? 1 : 0);
        case 3: { int b = r.range(1, 62); int64_t v = ((int64_t) 1 << b) + r.range(-1, 1); if (r.chance(50)) v = -v; if (v >= min && v <= max) return v; return max / 2; }
        case 4: return (int64_t) r.below(1000);
        default: { uint64_t v = r.next(); int64_t s; memcpy(&s, &v, 8); if (s >= min && s <= max) return s; return min + (int64_t) r.below((uint64_t) max - (uint64_t) min); }
    }
}

Val gen_scalar( Rng &r, Kind k, const GenOpt &o )
{
    Val v; v.present = true;
    switch (k)
    {
        case K_DOUBLE: v.d = gen_double(r, false, o.finite); break;
        case K_FLOAT: v.d = gen_double(r, true, o.finite); break;
        case K_INT32: v.i = gen_int(r, INT32_MIN, INT32_MAX); break;
        case K_INT64: v.i = gen_int(r, INT64_MIN, INT64_MAX); break;
        case K_UINT32: v.u = (uint64_t) gen_int(r, 0, UINT32_MAX); break;
        case K_UINT64: v.u = r.chance(30) ? UINT64_MAX - r.below(3) : r.chance(20) ? (uint64_t) INT64_MAX + r.below(3) : r.chance(30) ? r.next() : (uint64_t) gen_int(r, 0, INT64_MAX); break;
        case K_BOOL: v.i = (int64_t) r.below(2); break;
        case K_STRING: v.s = gen_string(r, o); break;
        case K_BYTES:
        {
            int n = gen_len(r, o.huge && r.chance(3) ? 3000 : o.max_str);
            for (int i = 0; i < n; ++i) v.s += (char) (r.chance(20) ? (r.chance(50) ? 0 : 0xFF) : r.below(256));
            break;
        }
        default: break;
    }
    return v;
}

Val gen_elem( Rng &r, Kind k, const MsgDesc *m, const GenOpt &o )
{
    if (k == K_MSG) return gen_msg(r, *m, o);
    if (k == K_STRING && o.null_elems && r.chance(15)) return Val();
    return gen_scalar(r, k, o);
}

Val gen_field( Rng &r, const FieldDesc &f, const GenOpt &o, bool present )
{
    Val v;
    if (!present)
        return f.kind == K_MSG && !f.repeated ? msg_fresh(*f.msg) : v;
    if (f.repeated)
    {
        int max = o.max_list;
        GenOpt p = o;
        if (f.kind == K_MSG) { p.max_list = std::max(1, o.max_list / 2); p.huge = false; }
        else if (o.huge && r.chance(3)) max = 400;
        int n = 1 + gen_len(r, max - 1);
        for (int i = 0; i < n; ++i) v.list.push_back(gen_elem(r, f.kind, f.msg, p));
        return v;
    }
    GenOpt p = o;
    if (f.kind == K_MSG) { p.huge = false; p.max_list = std::max(1, o.max_list / 2); }
    return gen_elem(r, f.kind, f.msg, p);
}

// one field holds far more than the others: beyond the range of 16-bit counters
Val gen_giant( Rng &r, const MsgDesc &d, const GenOpt &opt )
{
    GenOpt o = opt; o.huge = false;
    Val v = gen_msg(r, d, o);
    std::vector<size_t> fit;
    for (size_t i = 0; i < d.fields.size(); ++i)
        if (!d.fields[i].transient && (d.fields[i].repeated || d.fields[i].kind == K_STRING || d.fields[i].kind == K_BYTES)) fit.push_back(i);
    if (fit.empty()) return v;
    size_t i = r.pick(fit); auto &f = d.fields[i];
    Val x;
    size_t n = r.pick(std::vector<size_t>{ 32767, 32768, 65535, 65536, 65537, 70000, 98304, 131073 });
    if (f.repeated)
    {
        o.max_str = 2; o.max_list = 1; o.presence = f.kind == K_MSG ? 10 : 60;
        std::vector<Val> some;
        for (int k = 0; k < 40; ++k) some.push_back(gen_elem(r, f.kind, f.msg, o));
        if (f.kind == K_MSG) n = 1000 + n % 1000;
        for (size_t k = 0; k < n; ++k) x.list.push_back(some[r.below(some.size())]);
    }
    else
    {
        x.present = true;
        std::vector<std::string> some;
        for (int k = 0; k < 20; ++k) some.push_back(f.kind == K_BYTES ? gen_bytes(r, 20) : gen_string(r, o));
        while (x.s.size() < n) { x.s += some[r.below(some.size())]; x.s += 'x'; }
        if (f.kind == K_BYTES || r.chance(50)) x.s.resize(f.kind == K_BYTES ? n : x.s.size());
    }
    v.list[i] = x;
    return v;
}

// a valid value far larger than usual, for unknown members
void gen_giant_json( Rng &r, Tokens &out )
{
    size_t n = r.pick(std::vector<size_t>{ 32767, 32768, 65535, 65536, 65537, 70000 });
    switch (r.below(5))
    {
        case 0: out.push_back("\"" + std::string(n, 'y') + "\""); break;
        case 1: { std::string s = "\""; while (s.size() < n) s += spell_string(r, gen_utf8(r, 20), 30).substr(1), s.pop_back(); out.push_back(s + "\""); break; }
        case 2: out.push_back("1." + std::string(n, '0') + "1"); break;
        case 3: out.push_back("["); for (size_t i = 0; i < n; ++i) { if (i) out.push_back(","); out.push_back(r.chance(50) ? "1" : r.chance(50) ? "{}" : "[]"); } out.push_back("]"); break;
        default: out.push_back("{"); for (size_t i = 0; i < n; ++i) { if (i) out.push_back(","); out.push_back("\"k\""); out.push_back(":"); out.push_back(r.chance(50) ? "1" : "null"); } out.push_back("}");
    }
}

Val gen_msg( Rng &r, const MsgDesc &d, const GenOpt &o )
{
    Val v;
    for (auto &f : d.fields) v.list.push_back(gen_field(r, f, o, r.chance(o.presence)));
    return v;
}

//
// spelling
//

static void hex4( Rng &r, std::string &out, uint32_t u )
{
    char tmp[8];
    snprintf(tmp, sizeof(tmp), "\\u%04x", u);
    for (char *p = tmp + 2; *p; ++p) if (*p >= 'a' && r.chance(50)) *p = (char) (*p - 32);
    out += tmp;
}

// 's' can have any bytes; only valid UTF-8 sequences are escaped as characters
std::string spell_string( Rng &r, const std::string &s, int escapes )
{
    std::string out = "\"";
    for (size_t i = 0; i < s.size(); )
    {
        unsigned char c = (unsigned char) s[i];
        size_t n = c < 0x80 ? 1 : c >= 0xF0 ? 4 : c >= 0xE0 ? 3 : c >= 0xC0 ? 2 : 1;
        std::string seq = s.substr(i, n);
        bool valid = valid_utf8(seq) && seq.size() == n;
        if (!valid) { out += (char) c; ++i; continue; }
        uint32_t cp = c;
        if (n > 1)
        {
            cp = n == 2 ? c & 0x1F : n == 3 ? c & 0x0F : c & 0x07;
            for (size_t k = 1; k < n; ++k) cp = cp * 64 + ((unsigned char) seq[k] & 0x3F);
        }
        bool must = cp < 0x20 || cp == '"' || cp == '\\';
        i += n;
        if (!must && !r.chance(escapes)) { out += seq; continue; }
        const char *S = "\"\\/\b\f\n\r\t", *L = "\"\\/bfnrt";
        const char *p = cp && cp < 0x80 ? strchr(S, (int) cp) : nullptr;
        if (p && r.chance(60)) { out += '\\'; out += L[p - S]; continue; }
        if (cp < 0x10000) hex4(r, out, cp);
        else { hex4(r, out, 0xD800 + ((cp - 0x10000) >> 10)); hex4(r, out, 0xDC00 + ((cp - 0x10000) & 0x3FF)); }
    }
    return out + "\"";
}

// rewrites sign/digits/exponent in another way with the same value
static std::string respell( Rng &r, bool neg, std::string digits, long exp )
{
    // value = 0.digits... : digits * 10^exp
    if (digits.find_first_not_of('0') == std::string::npos) { static const char *Z[] = { "0", "0.0", "0e0", "0E5", "0.000e-3", "0e+10", "0.00", "0e-400", "0E999" }; return (neg && r.chance(70) ? "-" : "") + std::string(Z[r.below(9)]); }
    int extra = r.chance(40) ? (int) r.below(6) : 0;
    bool lengthy = r.chance(6);                                 // spelled with up to hundreds of zeros
    if (lengthy && r.chance(50)) extra = r.range(20, r.chance(20) ? 1200 : 300);
    digits += std::string((size_t) extra, '0'); exp -= extra;
    // place the point somewhere
    long point;
    switch (r.below(4))
    {
        case 0: point = 1; break;
        case 1: point = (long) digits.size(); break;
        case 2: point = (long) r.below(digits.size() + 3); break;
        default: point = -(long) r.below(lengthy ? 400 : 4); break;
    }
    long e = exp + (long) digits.size() - point;
    std::string ip, fp;
    if (point <= 0) { ip = "0"; fp = std::string((size_t) -point, '0') + digits; }
    else if (point >= (long) digits.size()) { ip = digits + std::string((size_t) (point - (long) digits.size()), '0'); }
    else { ip = digits.substr(0, (size_t) point); fp = digits.substr((size_t) point); }
    size_t z = 0; while (z + 1 < ip.size() && ip[z] == '0') ++z;
    ip.erase(0, z);
    std::string out = neg ? "-" : "";
    out += ip;
    if (!fp.empty()) out += "." + fp;
    if (e != 0 || r.chance(30))
    {
        out += r.chance(50) ? 'e' : 'E';
        if (e >= 0 && r.chance(50)) out += '+';
        if (e < 0) out += '-';
        std::string es = std::to_string(e < 0 ? -e : e);
        if (r.chance(20)) es = std::string((size_t) r.range(1, 3), '0') + es;
        out += es;
    }
    return out;
}

std::string spell_number( Rng &r, Kind k, const Val &v, int unusual )
{
    char tmp[64];
    if (is_float(k))
    {
        snprintf(tmp, sizeof(tmp), "%.17g", v.d);
        if (!r.chance(unusual)) return tmp;
        if (r.chance(15) && v.d == v.d && std::fabs(v.d) < 1e15 && std::fabs(v.d) > 1e-10)
        {
            char big[400]; snprintf(big, sizeof(big), "%.60f", v.d); // exact expansion of most values
            Val w, a;
            if (number_fit(big, k, w, a) == FIT && w.d == v.d && a.d == v.d) return big;
        }
        snprintf(tmp, sizeof(tmp), "%.16e", v.d);
        std::string t = tmp; bool neg = t[0] == '-'; if (neg) t.erase(0, 1);
        size_t e = t.find('e');
        long exp = strtol(t.c_str() + e + 1, nullptr, 10);
        std::string digits = t.substr(0, 1) + t.substr(2, e - 2);
        return respell(r, neg, digits, exp - (long) digits.size() + 1);
    }
    std::string t = is_unsigned(k) ? std::to_string(v.u) : std::to_string(v.i);
    if (!r.chance(unusual)) return t;
    bool neg = t[0] == '-'; if (neg) t.erase(0, 1);
    return respell(r, neg, t, 0);
}

static std::string spell_scalar( Rng &r, Kind k, const Val &v, const Style &st )
{
    if (k == K_STRING) return spell_string(r, v.s, st.escapes);
    if (k == K_BYTES) return spell_string(r, b64_encode(v.s), st.escapes / 3);
    if (k == K_BOOL) return v.i ? "true" : "false";
    return spell_number(r, k, v, st.numbers);
}

static void spell_elem( Rng &r, Kind k, const MsgDesc *m, const Val &v, const Style &st, Tokens &out )
{
    if (k == K_MSG) spell_msg(r, *m, v, st, out);
    else out.push_back(spell_scalar(r, k, v, st));
}

void spell_list( Rng &r, Kind k, const MsgDesc *m, const std::vector<Val> &v, const Style &st, Tokens &out )
{
    out.push_back("[");
    bool first = true;
    auto sep = [&]() { if (!first) out.push_back(","); first = false; };
    auto nulls = [&]() { while (r.chance(st.null_elems)) { sep(); out.push_back("null"); } };
    for (auto &e : v)
    {
        nulls(); sep();
        spell_elem(r, k, m, e, st, out);
    }
    nulls();
    out.push_back("]");
}

std::string unknown_name( Rng &r, const MsgDesc &d )
{
    while (true)
    {
        std::string n;
        if (!d.fields.empty() && r.chance(60))
        {
            auto &f = r.pick(d.fields);
            n = f.json;
            switch (r.below(8))
            {
                case 0: n += "x"; break;
                case 1: if (!n.empty()) n.pop_back(); break;
                case 2: for (auto &c : n) c = (char) (c >= 'a' && c <= 'z' ? c - 32 : c >= 'A' && c <= 'Z' ? c + 32 : c); break;
                case 3: n = f.name; break;
                case 4: n += std::string(1, '\0'); break;
                case 5: n += ' '; break;
                case 6: n = f.name + "_"; break;
                case 7: if (f.transient) n = f.json; else n = "_" + n; break;
            }
        }
        else n = gen_utf8(r, 8);
        if (d.find(n) < 0) return n;
    }
}

void gen_json( Rng &r, int depth, Tokens &out )
{
    GenOpt o; o.max_str = 10;
    switch (r.below(depth > 0 ? 9 : 6))
    {
        case 0: out.push_back("null"); break;
        case 1: out.push_back(r.chance(50) ? "true" : "false"); break;
        case 2: case 3: out.push_back(gen_numeral(r)); break;
        case 4: case 5: out.push_back(spell_string(r, gen_utf8(r, 10), 40)); break;
        case 6:
        {
            out.push_back("[");
            int n = (int) r.below(4);
            for (int i = 0; i < n; ++i) { if (i) out.push_back(","); gen_json(r, depth - 1, out); }
            out.push_back("]");
            break;
        }
        default:
        {
            out.push_back("{");
            int n = (int) r.below(4);
            for (int i = 0; i < n; ++i) { if (i) out.push_back(","); out.push_back(spell_string(r, gen_utf8(r, 6), 30)); out.push_back(":"); gen_json(r, depth - 1, out); }
            out.push_back("}");
        }
    }
}

void spell_msg( Rng &r, const MsgDesc &d, const Val &v, const Style &st, Tokens &out )
{
    std::vector<size_t> order;
    for (size_t i = 0; i < d.fields.size(); ++i) if (!d.fields[i].transient) order.push_back(i);
    if (r.chance(st.order)) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
    out.push_back("{");
    bool first = true;
    auto member = [&]( const std::string &name ) {
        if (!first) out.push_back(",");
        first = false;
        out.push_back(spell_string(r, name, st.escapes)); out.push_back(":");
    };
    auto unknowns = [&]() {
        while (r.chance(st.unknown))
        {
            member(unknown_name(r, d));
            if (r.chance(3)) // deep nesting
            {
                int n = r.range(10, 300); bool obj = r.chance(50);
                for (int i = 0; i < n; ++i) { out.push_back(obj ? "{" : "["); if (obj) { out.push_back("\"a\""); out.push_back(":"); } }
                out.push_back("1");
                for (int i = 0; i < n; ++i) out.push_back(obj ? "}" : "]");
            }
            else gen_json(r, st.unknown_depth, out);
        }
    };
    for (size_t i : order)
    {
        auto &f = d.fields[i]; const Val &x = v.list[i];
        unknowns();
        if (field_empty(f, x))
        {
            if (r.chance(st.nulls)) { member(f.json); out.push_back("null"); }
            else if (st.empties && r.chance(15))
            {
                if (f.repeated) { member(f.json); spell_list(r, f.kind, f.msg, {}, st, out); }
                else if (f.kind == K_BYTES) { member(f.json); out.push_back("\"\""); }
                else if (f.kind == K_MSG) { member(f.json); spell_msg(r, *f.msg, x, st, out); }
            }
            continue;
        }
        member(f.json);
        if (f.repeated) spell_list(r, f.kind, f.msg, x.list, st, out);
        else spell_elem(r, f.kind, f.msg, x, st, out);
    }
    unknowns();
    out.push_back("}");
}

std::string layout( Rng &r, const Tokens &t, int mode )
{
    static const char *WS[] = { " ", "\t", "\n", "\r", "\r\n", "  ", "\n\n", " \n\t " };
    if (mode < 0) mode = (int) r.below(3);
    std::string out;
    auto ws = [&]() {
        if (mode == L_NONE) return;
        if (mode == L_SPACES) { if (r.chance(30)) out += ' '; return; }
        while (r.chance(40)) out += WS[r.below(8)];
    };
    size_t big = r.chance(1) && r.chance(5) ? r.below(t.size() + 1) : (size_t) -1;     // a very long run of whitespace
    size_t at = 0;
    auto run = [&]() { if (at++ == big) for (size_t n = r.pick(std::vector<size_t>{ 255, 256, 32768, 65536, 70000 }), w = r.below(5); n > 0; --n) out += w < 4 ? WS[w] : WS[r.below(4)]; };
    for (auto &k : t) { ws(); run(); out += k; }
    ws(); run();
    return out;
}

std::string gen_numeral( Rng &r )
{
    static const char *EDGE[] = { "0", "-0", "1", "-1", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
        "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "-18446744073709551615", "9007199254740993", "1e308", "1.7976931348623157e308", "1.7976931348623159e308",
        "1e309", "-1e309", "1e400", "5e-324", "2e-324", "1e-400", "3.4028234663852886e38", "3.4028235677973366e38", "3.5e38", "1e39", "-1e39", "1.4e-45", "0.1", "1.5", "-0.5", "1e5", "1E5", "1e+5", "100e-2", "150e-2",
        "1e18", "1e19", "1e20", "1e21", "0.5e1", "12345678901234567890123", "1e-5", "0e99999999999", "1e99999999999", "1e-99999999999", "4294967296.0", "4294967295.0", "2147483648.5", "18446744073709551615.0", "1844674407370955161.5e1",
        "18446744073709551617", "36893488147419103232", "4294967297", "8589934592", "-4294967295", "-4294967296", "340282366920938463463374607431768211456", "-1e-5", "1000000000000000000000000e-20", "0.00000000000000001e17",
        "1e2147483647", "1.5e2147483648", "1e-2147483649", "1e4294967296", "1.5e-4294967296", "7e4294967297", "1e65536", "3e-65536", "2e256", "2e-256", "1.5e9223372036854775807", "1.5e-9223372036854775808", "0.25e-9223372036854775807", "12.5e99999999999999999999", "1.25e-99999999999999999999",
        "1e18446744073709551616", "5e-18446744073709551616", "0.0e-99999999999999999999", "-0.000e18446744073709551617", "1e00000000000000000000000000000001", "10e-0000000000000000000000000000001" };
    switch (r.below(7))
    {
        case 0: case 1: return EDGE[r.below(sizeof(EDGE) / sizeof(*EDGE))];
        case 2: { GenOpt o; Val v = gen_scalar(r, r.chance(50) ? K_DOUBLE : K_FLOAT, o); return spell_number(r, K_DOUBLE, v, 70); }
        case 3: { GenOpt o; Kind k = (Kind) (K_INT32 + r.below(4)); Val v = gen_scalar(r, k, o); return spell_number(r, k, v, 70); }
        case 4: // an edge value, one last digit changed
        {
            std::string e = EDGE[r.below(sizeof(EDGE) / sizeof(*EDGE))];
            for (int tries = 0; tries < 10; ++tries)
            {
                size_t i = r.below(e.size());
                if (e[i] < '0' || e[i] > '9') continue;
                std::string f = e; f[i] = (char) ('0' + r.below(10));
                JVal j; std::string why;
                if (json_parse(f, j, why)) return f;
            }
            return e;
        }
        case 5: { std::string d; int n = r.range(1, 30); for (int i = 0; i < n; ++i) d += (char) ('0' + r.below(10)); return respell(r, r.chance(30), d, r.range(-25, 10)); }
        default: return std::to_string((int64_t) r.next());
    }
}

void mutate( Rng &r, Tokens &t )
{
    static const char *SOUP[] = { "{", "}", "[", "]", ":", ",", "\"a\"", "1", "true", "false", "null", "tru", "True", "nul", "nulll", "NaN", "Infinity", "-", "+1", "01", "1.", ".5", "1e", "1e+", "--1", "0x10", "1.2.3", "1-2", "\"\\x\"", "\"\\u12\"", "\"\\u12G4\"", "\"\\ud800\"", "\"\\udc00\"", "\"\\ud800\\u0041\"", "\"\\ud800x\"", "\"abc", "'a'", "#", "//", "/**/", "undefined", "\"\\\"", "-0", "1e5", "-1", "1.5", "\"\"", "[]", "{}", "[1,]", "{\"a\":1,}", "99999999999999999999", "1e999", "\"QQ==\"", "\"QQ=\"", "\"Q\"", "\"====\"", "\"QUJ\"", "\"\\", "\"\\u", "\0", "\xEF\xBB\xBF" };
    size_t n = t.size();
    size_t i = r.below(n);
    switch (r.below(9))
    {
        case 0: t.erase(t.begin() + (long) i); break;
        case 1: t.insert(t.begin() + (long) i, t[i]); break;
        case 2: std::swap(t[i], t[r.below(n)]); break;
        case 3: case 4: t[i] = SOUP[r.below(sizeof(SOUP) / sizeof(*SOUP))]; break;
        case 5: t.insert(t.begin() + (long) i, SOUP[r.below(sizeof(SOUP) / sizeof(*SOUP))]); break;
        case 6: t.resize(i); break;                          // truncated
        case 7: // edit a separator or bracket
        {
            for (int k = 0; k < 20; ++k)
            {
                size_t j = r.below(n);
                if (t[j].size() == 1 && strchr("{}[]:,", t[j][0]))
                {
                    switch (r.below(4)) { case 0: t.erase(t.begin() + (long) j); break; case 1: t.insert(t.begin() + (long) j, t[j]); break; case 2: t[j] = std::string(1, "{}[]:,"[r.below(6)]); break; case 3: t.insert(t.begin() + (long) j, ","); break; }
                    break;
                }
            }
            break;
        }
        case 8: // edit inside a token
        {
            if (!t[i].empty()) { size_t b = r.below(t[i].size()); switch (r.below(3)) { case 0: t[i].erase(b, 1); break; case 1: t[i][b] = (char) r.below(256); break; case 2: t[i].insert(b, 1, "\"\\u0,:]}{[e.-+ \n"[r.below(16)]); break; } }
            break;
        }
    }
}

std::string mutate_bytes( Rng &r, const std::string &s )
{
    std::string t = s;
    switch (r.below(5))
    {
        case 0: t.resize(r.below(t.size() + 1)); break;
        case 1: if (!t.empty()) t[r.below(t.size())] = (char) r.below(256); break;
        case 2: if (!t.empty()) t.erase(r.below(t.size()), 1 + r.below(3)); break;
        case 3: t.insert(r.below(t.size() + 1), 1, "\"\\{}[]:,0-9.eEtfn\0 \n\x80"[r.below(21)]); break;
        case 4: if (!t.empty()) { size_t i = r.below(t.size()); t[i] = (char) ((unsigned char) t[i] ^ (1u << r.below(8))); } break;
    }
    return t;
}
