#include "ref.hh"
#include <charconv>
#include <cstdlib>
#include <cstdio>

//
// helpers
//

std::string quote( const std::string &s )
{
    std::string out = "\"";
    char tmp[8];
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { out += '\\'; out += (char) c; }
        else if (c >= 0x20 && c < 0x7F) out += (char) c;
        else { snprintf(tmp, sizeof(tmp), "\\x%02x", c); out += tmp; }
    }
    return out + "\"";
}

bool elem_equal( Kind k, const MsgDesc *m, const Val &a, const Val &b )
{
    if (k == K_MSG) return msg_equal(*m, a, b);
    if (a.present != b.present) return false;
    if (!a.present) return true;
    if (is_float(k)) return a.d == b.d || (std::isnan(a.d) && std::isnan(b.d));
    if (is_unsigned(k)) return a.u == b.u;
    if (k == K_STRING || k == K_BYTES) return a.s == b.s;
    return a.i == b.i;
}

bool val_equal( const FieldDesc &f, const Val &a, const Val &b )
{
    if (f.repeated)
    {
        if (a.list.size() != b.list.size()) return false;
        for (size_t i = 0; i < a.list.size(); ++i)
            if (!elem_equal(f.kind, f.msg, a.list[i], b.list[i])) return false;
        return true;
    }
    if (f.kind == K_BYTES) return a.s == b.s;
    return elem_equal(f.kind, f.msg, a, b);
}

bool msg_equal( const MsgDesc &d, const Val &a, const Val &b )
{
    for (size_t i = 0; i < d.fields.size(); ++i)
        if (!val_equal(d.fields[i], a.list[i], b.list[i])) return false;
    return true;
}

bool field_empty( const FieldDesc &f, const Val &v )
{
    if (f.repeated) return v.list.empty();
    if (f.kind == K_BYTES) return v.s.empty();
    if (f.kind == K_MSG) return msg_empty(*f.msg, v);
    return !v.present;
}

bool msg_empty( const MsgDesc &d, const Val &v )
{
    for (size_t i = 0; i < d.fields.size(); ++i)
        if (!field_empty(d.fields[i], v.list[i])) return false;
    return true;
}

Val msg_fresh( const MsgDesc &d )
{
    Val v;
    for (auto &f : d.fields)
        v.list.push_back(f.kind == K_MSG && !f.repeated ? msg_fresh(*f.msg) : Val());
    return v;
}

static std::string show_elem( Kind k, const MsgDesc *m, const Val &v )
{
    char tmp[64];
    if (k == K_MSG) return show(*m, v);
    if (k == K_BYTES) return "b" + quote(v.s);
    if (!v.present) return "-";
    if (is_float(k)) { snprintf(tmp, sizeof(tmp), "%.17g", v.d); return tmp; }
    if (is_unsigned(k)) return std::to_string(v.u);
    if (k == K_STRING) return quote(v.s);
    if (k == K_BOOL) return v.i ? "true" : "false";
    return std::to_string(v.i);
}

std::string show( const MsgDesc &d, const Val &v )
{
    std::string out = "{";
    for (size_t i = 0; i < d.fields.size(); ++i)
    {
        auto &f = d.fields[i];
        if (field_empty(f, v.list[i])) continue;
        if (out.size() > 1) out += ", ";
        out += f.name + ": ";
        if (f.repeated)
        {
            out += "[";
            for (size_t j = 0; j < v.list[i].list.size(); ++j)
                out += (j ? ", " : "") + show_elem(f.kind, f.msg, v.list[i].list[j]);
            out += "]";
        }
        else
            out += show_elem(f.kind, f.msg, v.list[i]);
        if (out.size() > 4000) return out + "...";
    }
    return out + "}";
}

std::string diff( const MsgDesc &d, const Val &a, const Val &b )
{
    for (size_t i = 0; i < d.fields.size(); ++i)
        if (!val_equal(d.fields[i], a.list[i], b.list[i]))
        {
            MsgDesc one; one.fields.push_back(d.fields[i]);
            Val x, y; x.list.push_back(a.list[i]); y.list.push_back(b.list[i]);
            return "field '" + d.fields[i].name + "': " + show(one, x).substr(0, 1500) + " versus " + show(one, y).substr(0, 1500);
        }
    return "no difference";
}

bool valid_utf8( const std::string &s )
{
    size_t n = s.size();
    auto cont = [&]( size_t i, unsigned lo, unsigned hi ) { return i < n && (unsigned char) s[i] >= lo && (unsigned char) s[i] <= hi; };
    for (size_t i = 0; i < n; )
    {
        unsigned char c = (unsigned char) s[i];
        if (c < 0x80) i += 1;
        else if (c >= 0xC2 && c <= 0xDF) { if (!cont(i+1,0x80,0xBF)) return false; i += 2; }
        else if (c >= 0xE0 && c <= 0xEF)
        {
            unsigned lo = c == 0xE0 ? 0xA0 : 0x80, hi = c == 0xED ? 0x9F : 0xBF;
            if (!cont(i+1,lo,hi) || !cont(i+2,0x80,0xBF)) return false;
            i += 3;
        }
        else if (c >= 0xF0 && c <= 0xF4)
        {
            unsigned lo = c == 0xF0 ? 0x90 : 0x80, hi = c == 0xF4 ? 0x8F : 0xBF;
            if (!cont(i+1,lo,hi) || !cont(i+2,0x80,0xBF) || !cont(i+3,0x80,0xBF)) return false;
            i += 4;
        }
        else return false;
    }
    return true;
}

std::string utf8( uint32_t c )
{
    std::string o;
    if (c < 0x80) o += (char) c;
    else if (c < 0x800) { o += (char) (0xC0 + c / 64); o += (char) (0x80 + c % 64); }
    else if (c < 0x10000) { o += (char) (0xE0 + c / 4096); o += (char) (0x80 + c / 64 % 64); o += (char) (0x80 + c % 64); }
    else { o += (char) (0xF0 + c / 262144); o += (char) (0x80 + c / 4096 % 64); o += (char) (0x80 + c / 64 % 64); o += (char) (0x80 + c % 64); }
    return o;
}

static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

std::string b64_encode( const std::string &s )
{
    std::string out;
    // bit by bit, unlike any optimised implementation
    unsigned acc = 0, bits = 0;
    for (unsigned char c : s)
        for (int b = 7; b >= 0; --b)
        {
            acc = acc * 2 + ((c >> b) & 1);
            if (++bits == 6) { out += B64[acc]; acc = bits = 0; }
        }
    if (bits) { while (bits++ < 6) acc *= 2; out += B64[acc]; }
    while (out.size() % 4) out += '=';
    return out;
}

bool b64_decode( const std::string &text, std::string &out, bool &canonical )
{
    out.clear(); canonical = true;
    if (text.size() % 4) return false;
    size_t n = text.size();
    size_t pad = 0;
    while (pad < 3 && pad < n && text[n - 1 - pad] == '=') ++pad;
    if (pad > 2) return false;
    unsigned acc = 0, bits = 0;
    for (size_t i = 0; i < n - pad; ++i)
    {
        const char *p = text[i] ? strchr(B64, text[i]) : nullptr;
        if (!p) return false;
        unsigned v = (unsigned) (p - B64);
        for (int b = 5; b >= 0; --b)
        {
            acc = acc * 2 + ((v >> b) & 1);
            if (++bits == 8) { out += (char) acc; acc = bits = 0; }
        }
    }
    if (acc) canonical = false; // left over bits are not zero
    return true;
}
bool b64_valid( const std::string &text ) { std::string o; bool c; return b64_decode(text, o, c); }

//
// numbers
//

struct Dec { bool neg = false; std::string digits; long exp = 0; };  // digits * 10^exp, digits without leading or trailing zeros ("" is zero)

static Dec dec( const std::string &t )
{
    Dec d; size_t i = 0;
    if (t[i] == '-') { d.neg = true; ++i; }
    long frac = 0;
    for (; i < t.size() && isdigit((unsigned char) t[i]); ++i) d.digits += t[i];
    if (i < t.size() && t[i] == '.')
        for (++i; i < t.size() && isdigit((unsigned char) t[i]); ++i) { d.digits += t[i]; ++frac; }
    long e = 0; bool eneg = false;
    if (i < t.size() && (t[i] == 'e' || t[i] == 'E'))
    {
        ++i;
        if (t[i] == '+' || t[i] == '-') { eneg = t[i] == '-'; ++i; }
        for (; i < t.size(); ++i) if (e < 100000000000L) e = e * 10 + (t[i] - '0');
    }
    d.exp = (eneg ? -e : e) - frac;
    size_t z = 0; while (z < d.digits.size() && d.digits[z] == '0') ++z;
    d.digits.erase(0, z);
    while (!d.digits.empty() && d.digits.back() == '0') { d.digits.pop_back(); ++d.exp; }
    if (d.digits.empty()) d.exp = 0;
    return d;
}

bool number_to_integer( const std::string &text, bool &neg, std::string &digits )
{
    Dec d = dec(text);
    neg = d.neg;
    if (d.digits.empty()) { digits = "0"; neg = false; return true; }
    if (d.exp < 0) return false;
    if (d.exp + (long) d.digits.size() > 40) { digits = std::string(40, '9'); return true; }
    digits = d.digits + std::string((size_t) d.exp, '0');
    return true;
}

static bool num_le( const std::string &a, const std::string &b ) { return a.size() != b.size() ? a.size() < b.size() : a <= b; }

static double read_double( const std::string &t )
{
    double v = 0;
    auto r = std::from_chars(t.data(), t.data() + t.size(), v);
    if (r.ec == std::errc::result_out_of_range) v = strtod(t.c_str(), nullptr);
    return v;
}

NumFit number_fit( const std::string &text, Kind kind, Val &out, Val &alt )
{
    out = Val(); out.present = true;
    if (is_float(kind))
    {
        double v = read_double(text);
        if (kind == K_FLOAT)
        {
            float f = 0;
            auto r = std::from_chars(text.data(), text.data() + text.size(), f);
            if (r.ec == std::errc::result_out_of_range) f = strtof(text.c_str(), nullptr);
            float g = (float) v;
            out.d = f; alt = out; alt.d = g;
            if (!std::isfinite(f) && !std::isfinite(g)) return NOFIT;
            bool edge = std::isfinite(f) != std::isfinite(g);
            if (!std::isfinite(f)) out = alt;
            if (!std::isfinite(g)) alt = out;
            return edge ? EDGE : FIT;
        }
        out.d = v; alt = out;
        return std::isfinite(v) ? FIT : NOFIT;
    }
    bool neg; std::string digits;
    if (!number_to_integer(text, neg, digits)) return NOFIT;
    const char *max = nullptr;
    switch (kind)
    {
        case K_INT32:  max = neg ? "2147483648" : "2147483647"; break;
        case K_INT64:  max = neg ? "9223372036854775808" : "9223372036854775807"; break;
        case K_UINT32: max = neg ? "0" : "4294967295"; break;
        default:       max = neg ? "0" : "18446744073709551615"; break;
    }
    if (!num_le(digits, max)) return NOFIT;
    uint64_t u = 0;
    for (char c : digits) u = u * 10 + (uint64_t) (c - '0');
    if (is_unsigned(kind)) out.u = u;
    else out.i = (int64_t) (neg ? 0 - u : u);
    alt = out;
    return FIT;
}

static bool number_syntax( const std::string &t )
{
    size_t i = 0, n = t.size();
    auto digit = [&]() { return i < n && t[i] >= '0' && t[i] <= '9'; };
    if (i < n && t[i] == '-') ++i;
    if (!digit()) return false;
    if (t[i] == '0') ++i; else while (digit()) ++i;
    if (i < n && t[i] == '.') { ++i; if (!digit()) return false; while (digit()) ++i; }
    if (i < n && (t[i] == 'e' || t[i] == 'E'))
    {
        ++i; if (i < n && (t[i] == '+' || t[i] == '-')) ++i;
        if (!digit()) return false;
        while (digit()) ++i;
    }
    return i == n;
}

//
// strings
//

static int hexval( unsigned char c ) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }

// pos is at the opening quote; returns false if the string is malformed. raw_control: control characters found unescaped
static bool read_string( const std::string &t, size_t &pos, std::string &out, bool &raw_control )
{
    out.clear();
    size_t i = pos + 1, n = t.size();
    while (i < n)
    {
        unsigned char c = (unsigned char) t[i];
        if (c == '"') { pos = i + 1; return true; }
        if (c == 0) return false;
        if (c < 0x20) raw_control = true;
        if (c != '\\') { out += (char) c; ++i; continue; }
        if (++i >= n) return false;
        switch (t[i])
        {
            case '"': out += '"'; break;
            case '\\': out += '\\'; break;
            case '/': out += '/'; break;
            case 'b': out += '\b'; break;
            case 'f': out += '\f'; break;
            case 'n': out += '\n'; break;
            case 'r': out += '\r'; break;
            case 't': out += '\t'; break;
            case 'u':
            {
                auto unit = [&]( size_t at, uint32_t &v ) -> bool {
                    v = 0;
                    for (size_t k = 0; k < 4; ++k)
                    {
                        if (at + k >= n) return false;
                        int h = hexval((unsigned char) t[at + k]);
                        if (h < 0) return false;
                        v = v * 16 + (uint32_t) h;
                    }
                    return true;
                };
                uint32_t a, b;
                if (!unit(i + 1, a)) return false;
                i += 4;
                if (a >= 0xDC00 && a <= 0xDFFF) return false;
                if (a >= 0xD800 && a <= 0xDBFF)
                {
                    if (!(i + 2 < n && t[i + 1] == '\\' && t[i + 2] == 'u' && unit(i + 3, b))) return false;
                    if (b < 0xDC00 || b > 0xDFFF) return false;
                    i += 6;
                    a = 0x10000 + (a - 0xD800) * 0x400 + (b - 0xDC00);
                }
                out += utf8(a);
                break;
            }
            default: return false;
        }
        ++i;
    }
    return false;
}

//
// generic reader
//

namespace {
struct Generic
{
    const std::string &t; size_t pos = 0; std::string why; int depth = 0;
    Generic( const std::string &t ) : t(t) {}
    void ws() { while (pos < t.size() && (t[pos] == ' ' || t[pos] == '\t' || t[pos] == '\n' || t[pos] == '\r')) ++pos; }
    bool fail( const char *w ) { if (why.empty()) why = std::string(w) + " at byte " + std::to_string(pos); return false; }
    bool value( JVal &v )
    {
        ws();
        if (pos >= t.size()) return fail("end of text");
        if (++depth > 3000) return fail("too deep");
        char c = t[pos];
        bool r = false;
        if (c == '{')
        {
            v.type = JVal::OBJECT; ++pos; ws();
            if (pos < t.size() && t[pos] == '}') { ++pos; --depth; return true; }
            while (true)
            {
                ws();
                std::string name; bool rc = false;
                if (pos >= t.size() || t[pos] != '"') return fail("expected name");
                if (!read_string(t, pos, name, rc)) return fail("bad name");
                if (rc) return fail("control character in name");
                ws();
                if (pos >= t.size() || t[pos] != ':') return fail("expected colon");
                ++pos;
                v.members.emplace_back(name, JVal());
                if (!value(v.members.back().second)) return false;
                ws();
                if (pos < t.size() && t[pos] == ',') { ++pos; continue; }
                if (pos < t.size() && t[pos] == '}') { ++pos; break; }
                return fail("expected , or }");
            }
            r = true;
        }
        else if (c == '[')
        {
            v.type = JVal::ARRAY; ++pos; ws();
            if (pos < t.size() && t[pos] == ']') { ++pos; --depth; return true; }
            while (true)
            {
                v.items.emplace_back();
                if (!value(v.items.back())) return false;
                ws();
                if (pos < t.size() && t[pos] == ',') { ++pos; continue; }
                if (pos < t.size() && t[pos] == ']') { ++pos; break; }
                return fail("expected , or ]");
            }
            r = true;
        }
        else if (c == '"')
        {
            bool rc = false;
            v.type = JVal::STRING;
            if (!read_string(t, pos, v.text, rc)) return fail("bad string");
            if (rc) return fail("control character in string");
            r = true;
        }
        else if (t.compare(pos, 4, "true") == 0) { v.type = JVal::TRUE_; pos += 4; r = true; }
        else if (t.compare(pos, 5, "false") == 0) { v.type = JVal::FALSE_; pos += 5; r = true; }
        else if (t.compare(pos, 4, "null") == 0) { v.type = JVal::NUL; pos += 4; r = true; }
        else
        {
            size_t e = pos;
            while (e < t.size() && (isdigit((unsigned char) t[e]) || strchr("+-.eE", t[e]))) { if (!t[e]) break; ++e; }
            v.type = JVal::NUMBER; v.text = t.substr(pos, e - pos);
            if (!number_syntax(v.text)) return fail("bad value");
            pos = e; r = true;
        }
        --depth;
        return r;
    }
};
}

bool json_parse( const std::string &text, JVal &out, std::string &why )
{
    Generic g(text);
    out = JVal();
    if (!g.value(out)) { why = g.why; return false; }
    g.ws();
    if (g.pos != text.size()) { why = "text after the value at byte " + std::to_string(g.pos); return false; }
    return true;
}

//
// reference deserializer
//

namespace {

enum Id { NONE, EOS, OBJS, OBJE, COLON, COMMA, STRING, ARRS, ARRE, NIL, BTRUE, BFALSE, NUMBER };
struct Tok { Id id = NONE; std::string value; int line = 1, column = 1; size_t begin = 0, end = 0; };

enum { E_IGNORE = 1, E_SEP = 3, E_VALUE = 4, E_OBJECT = 5, E_NAME = 6, E_ARRAY = 7 };

struct Reader
{
    const std::string &t;
    size_t pos = 0; int line = 1, column = 1;
    Tok cur; size_t last_end = 0;
    RefResult &r;
    int depth = 0;
    bool raw_control = false;

    Reader( const std::string &t, RefResult &r ) : t(t), r(r) { next(); }
    void adv( size_t to ) { for (; pos < to; ++pos) if (t[pos] == '\n') { ++line; column = 1; } else ++column; }
    void next()
    {
        last_end = pos;
        while (pos < t.size() && (t[pos] == ' ' || t[pos] == '\t' || t[pos] == '\r' || t[pos] == '\n')) adv(pos + 1);
        cur = Tok(); cur.line = line; cur.column = column; cur.begin = pos;
        if (pos >= t.size()) { cur.id = EOS; cur.end = pos; return; }
        switch (t[pos])
        {
            case '{': cur.id = OBJS; break;
            case '}': cur.id = OBJE; break;
            case '[': cur.id = ARRS; break;
            case ']': cur.id = ARRE; break;
            case ':': cur.id = COLON; break;
            case ',': cur.id = COMMA; break;
            case '"':
            {
                size_t p = pos; bool rc = false;
                if (read_string(t, p, cur.value, rc)) { cur.id = STRING; adv(p); cur.end = pos; if (rc) r.unspecified = true; return; }
                // where a malformed string ends does not matter: reading stops here
                return;
            }
            default:
            {
                size_t e = pos;
                char c = t[pos];
                if (c == '-' || (c >= '0' && c <= '9'))
                {
                    while (e < t.size() && t[e] && strchr("0123456789+-.eE", t[e])) ++e;
                    cur.value = t.substr(pos, e - pos);
                    cur.id = number_syntax(cur.value) ? NUMBER : NONE;
                    if (cur.id == NUMBER) adv(e);
                    cur.end = pos;
                    return;
                }
                while (e < t.size() && ((t[e] >= 'a' && t[e] <= 'z') || (t[e] >= 'A' && t[e] <= 'Z'))) ++e;
                std::string w = t.substr(pos, e - pos);
                if (w == "true") cur.id = BTRUE;
                else if (w == "false") cur.id = BFALSE;
                else if (w == "null") cur.id = NIL;
                else return;
                adv(e); cur.end = pos;
                return;
            }
        }
        adv(pos + 1); cur.end = pos;
    }
    bool fail( std::set<int> codes, const char *why )
    {
        r.codes = codes; r.why = why; r.line = cur.line; r.column = cur.column;
        return false;
    }
    bool skip()
    {
        switch (cur.id)
        {
            case STRING: case NUMBER: case NIL: case BTRUE: case BFALSE: next(); return true;
            case OBJS:
            case ARRS:
            {
                if (++depth > 400) { r.unspecified = true; return fail({E_IGNORE}, "too deep"); }
                bool obj = cur.id == OBJS;
                Id close = obj ? OBJE : ARRE;
                next();
                if (cur.id != close)
                    while (true)
                    {
                        if (obj)
                        {
                            if (cur.id != STRING) return fail({E_IGNORE}, "skipped: expected name");
                            next();
                            if (cur.id != COLON) return fail({E_IGNORE}, "skipped: expected colon");
                            next();
                        }
                        if (!skip()) return false;
                        if (cur.id == COMMA) { next(); continue; }
                        if (cur.id == close) break;
                        return fail({E_IGNORE}, "skipped: expected separator");
                    }
                next();
                --depth;
                return true;
            }
            default: return fail({E_IGNORE}, "skipped: not a value");
        }
    }
    // 1 ok, 0 null, -1 failed
    int elem( Kind k, const MsgDesc *m, Val &v )
    {
        if (cur.id == NIL) return 0;
        if (k == K_MSG) return object(*m, v) ? 1 : -1;
        if (k == K_BOOL)
        {
            if (cur.id != BTRUE && cur.id != BFALSE) { fail({E_VALUE}, "expected boolean"); return -1; }
            v.present = true; v.i = cur.id == BTRUE;
            next(); return 1;
        }
        if (k == K_STRING)
        {
            if (cur.id != STRING) { fail({E_VALUE}, "expected string"); return -1; }
            v.present = true; v.s = cur.value;
            next(); return 1;
        }
        if (k == K_BYTES)
        {
            bool canonical;
            std::string out;
            if (cur.id != STRING) { fail({E_OBJECT, E_VALUE}, "expected base64 string"); return -1; }
            if (!b64_decode(cur.value, out, canonical)) { fail({E_OBJECT, E_VALUE}, "invalid base64"); return -1; }
            if (!canonical) r.unspecified = true;
            v.present = true; v.s = out;
            next(); return 1;
        }
        if (cur.id != NUMBER) { fail({E_VALUE}, "expected number"); return -1; }
        Val alt;
        NumFit fit = number_fit(cur.value, k, v, alt);
        if (fit == EDGE) r.unspecified = true;
        if (fit == NOFIT) { fail({E_VALUE}, "number does not fit"); return -1; }
        if (k == K_FLOAT && alt.d != v.d) r.value_unspecified = true;
        next(); return 1;
    }
    bool array( Kind k, const MsgDesc *m, Val &v )
    {
        if (cur.id != ARRS) return fail({E_ARRAY}, "expected array");
        next();
        if (cur.id != ARRE)
            while (true)
            {
                Val e;
                if (k == K_MSG) e = msg_fresh(*m);
                int n = elem(k, m, e);
                if (n < 0) return false;
                if (n == 0) next(); else v.list.push_back(e);
                if (cur.id == COMMA) { next(); continue; }
                if (cur.id == ARRE) break;
                std::set<int> codes = {E_ARRAY};
                if (n == 0) codes.insert(E_IGNORE);
                return fail(codes, "expected , or ]");
            }
        last_end = pos; size_t e = pos; next(); last_end = e;
        return true;
    }
    bool object( const MsgDesc &d, Val &v )
    {
        if (cur.id != OBJS) return fail({E_OBJECT}, "expected object");
        next();
        if (cur.id != OBJE)
        {
            std::set<int> seen;
            while (true)
            {
                if (cur.id != STRING) return fail({E_NAME}, "expected name");
                int idx = d.find(cur.value);
                next();
                if (cur.id != COLON) return fail({E_SEP}, "expected colon");
                next();
                bool skipped = false;
                if (idx < 0 || cur.id == NIL) { skipped = true; if (!skip()) return false; }
                if (idx >= 0)
                {
                    if (!seen.insert(idx).second) r.value_unspecified = true; // repeated member
                    if (!skipped)
                    {
                        auto &f = d.fields[(size_t) idx];
                        Val &x = v.list[(size_t) idx];
                        if (f.repeated) { if (!array(f.kind, f.msg, x)) return false; }
                        else if (elem(f.kind, f.msg, x) < 0) return false;
                    }
                }
                if (cur.id == COMMA) { next(); continue; }
                if (cur.id == OBJE) break;
                std::set<int> codes = {E_OBJECT};
                if (skipped) codes.insert(E_IGNORE);
                return fail(codes, "expected , or }");
            }
        }
        last_end = pos; size_t e = pos; next(); last_end = e;
        return true;
    }
};

}

RefResult ref_read( const MsgDesc &d, const std::string &text )
{
    RefResult r;
    r.val = msg_fresh(d);
    Reader rd(text, r);
    r.ok = rd.object(d, r.val);
    r.end = rd.last_end;
    if (r.ok) { r.codes.clear(); r.line = r.column = 0; }
    return r;
}

RefResult ref_read_array( Kind k, const MsgDesc *m, const std::string &text )
{
    RefResult r;
    Reader rd(text, r);
    r.ok = rd.array(k, m, r.val);
    r.end = rd.last_end;
    if (r.ok) { r.codes.clear(); r.line = r.column = 0; }
    return r;
}

//
// does the text say what the message holds?
//

static const char *tname( const JVal &j ) { static const char *N[] = { "null", "true", "false", "number", "string", "array", "object" }; return N[j.type]; }

bool text_says_elem( Kind k, const MsgDesc *m, const Val &v, const JVal &j, TextCheck &c )
{
    auto bad = [&]( const std::string &w ) { c.why = w; return false; };
    if (k == K_MSG)
    {
        if (j.type != JVal::OBJECT) return bad(std::string("message written as ") + tname(j));
        return text_says(*m, v, j, c);
    }
    if (k == K_BYTES)
    {
        if (j.type != JVal::STRING) return bad(std::string("bytes written as ") + tname(j));
        if (j.text != b64_encode(v.s)) return bad("bytes " + quote(v.s) + " written as " + quote(j.text));
        return true;
    }
    if (!v.present) return j.type == JVal::NUL ? true : bad(std::string("null written as ") + tname(j));
    if (k == K_STRING)
    {
        if (j.type != JVal::STRING) return bad(std::string("string written as ") + tname(j));
        if (j.text != v.s) return bad("string " + quote(v.s) + " written as " + quote(j.text));
        return true;
    }
    if (k == K_BOOL)
    {
        if (j.type != (v.i ? JVal::TRUE_ : JVal::FALSE_)) return bad(std::string("boolean written as ") + tname(j));
        return true;
    }
    if (j.type != JVal::NUMBER) return bad(std::string("number written as ") + tname(j));
    Val w, alt;
    if (number_fit(j.text, k, w, alt) != FIT) return bad("number written as " + j.text);
    if (!elem_equal(k, nullptr, v, w) && !elem_equal(k, nullptr, v, alt)) return bad("number " + show_elem(k, nullptr, v) + " written as " + j.text);
    return true;
}

bool text_says( const MsgDesc &d, const Val &v, const JVal &j, TextCheck &c )
{
    if (j.type != JVal::OBJECT) { c.why = "not an object"; return false; }
    std::vector<int> seen(d.fields.size(), 0);
    for (auto &mem : j.members)
    {
        int idx = d.find(mem.first);
        if (idx < 0) { c.why = "unexpected member " + quote(mem.first); return false; }
        auto &f = d.fields[(size_t) idx];
        if (seen[(size_t) idx]++) { c.why = "member " + quote(mem.first) + " repeated"; return false; }
        const Val &x = v.list[(size_t) idx];
        if (field_empty(f, x))
        {
            if (!c.nulls) { c.why = "empty field " + f.name + " written"; return false; }
            if (f.repeated)
            {
                if (mem.second.type != JVal::ARRAY || !mem.second.items.empty()) { c.why = "empty repeated field " + f.name + " not written as []"; return false; }
                continue;
            }
        }
        else if (f.repeated)
        {
            if (mem.second.type != JVal::ARRAY) { c.why = "repeated field " + f.name + " not written as array"; return false; }
            if (mem.second.items.size() != x.list.size()) { c.why = "repeated field " + f.name + " has " + std::to_string(x.list.size()) + " elements but " + std::to_string(mem.second.items.size()) + " were written"; return false; }
            for (size_t i = 0; i < x.list.size(); ++i)
                if (!text_says_elem(f.kind, f.msg, x.list[i], mem.second.items[i], c)) { c.why = f.name + "[" + std::to_string(i) + "]: " + c.why; return false; }
            continue;
        }
        if (!text_says_elem(f.kind, f.msg, x, mem.second, c)) { c.why = f.name + ": " + c.why; return false; }
    }
    for (size_t i = 0; i < d.fields.size(); ++i)
    {
        auto &f = d.fields[i];
        if (f.transient || seen[i]) continue;
        if (c.nulls || !field_empty(f, v.list[i])) { c.why = "field " + f.name + " not written"; return false; }
    }
    return true;
}
