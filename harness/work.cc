// C18: steps executed, bytes allocated and bytes moved by the generated code, for texts and messages of growing size.
// The generated code is built with -fsanitize-coverage=trace-pc-guard (every edge executed is one step); the memory
// functions of the C library are replaced by counting ones, which libstdc++ uses as well.
#include "mon.hh"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <valgrind/callgrind.h>

static uint64_t steps, allocs, bytes, moved, limit_;
static bool on;
static const char *what_ = "";

static void over() 
{
    on = false;
    printf("VIOL unbounded work %s: stopped after %llu steps, %llu bytes allocated, %llu bytes moved\n", what_, (unsigned long long) steps, (unsigned long long) bytes, (unsigned long long) moved);
    fflush(stdout);
    _Exit(1);
}
extern "C" void __sanitizer_cov_trace_pc_guard_init( uint32_t *a, uint32_t *b ) { for (; a < b; ++a) *a = 1; }
extern "C" void __sanitizer_cov_trace_pc_guard( uint32_t * ) { if (on && ++steps > limit_) over(); }
static void *get( size_t n )
{
    if (on) { ++allocs; bytes += n; if (bytes > limit_) over(); }
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new( size_t n ) { return get(n); }
void *operator new[]( size_t n ) { return get(n); }
void operator delete( void *p ) noexcept { free(p); }
void operator delete[]( void *p ) noexcept { free(p); }
void operator delete( void *p, size_t ) noexcept { free(p); }
void operator delete[]( void *p, size_t ) noexcept { free(p); }
#define MOVED(n) if (on && (moved += (n)) > limit_) over()
extern "C" {
void *counting_memcpy( void *d, const void *s, size_t n ) __asm__("memcpy");
void *counting_memmove( void *d, const void *s, size_t n ) __asm__("memmove");
void *counting_memset( void *d, int c, size_t n ) __asm__("memset");
int counting_memcmp( const void *a, const void *b, size_t n ) __asm__("memcmp");
void *counting_memchr( const void *a, int c, size_t n ) __asm__("memchr");
size_t counting_strlen( const char *s ) __asm__("strlen");
void *counting_memcpy( void *d, const void *s, size_t n ) { void *r = d; MOVED(n); __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
void *counting_memmove( void *d, const void *s, size_t n )
{
    MOVED(n);
    char *a = (char*) d; const char *b = (const char*) s; size_t k = n;
    if (a <= b || a >= b + n) { void *x = d; __asm__ volatile("rep movsb" : "+D"(x), "+S"(s), "+c"(k) : : "memory"); }
    else { void *x = a + n - 1; const void *y = b + n - 1; __asm__ volatile("std; rep movsb; cld" : "+D"(x), "+S"(y), "+c"(k) : : "memory"); }
    return d;
}
void *counting_memset( void *d, int c, size_t n ) { void *r = d; MOVED(n); __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }
int counting_memcmp( const void *a, const void *b, size_t n )
{
    const unsigned char *x = (const unsigned char*) a, *y = (const unsigned char*) b; size_t i = 0;
    while (i < n && x[i] == y[i]) ++i;
    MOVED(i + 1);
    return i == n ? 0 : (int) x[i] - (int) y[i];
}
void *counting_memchr( const void *a, int c, size_t n )
{
    const unsigned char *x = (const unsigned char*) a; size_t i = 0;
    while (i < n && x[i] != (unsigned char) c) ++i;
    MOVED(i + 1);
    return i == n ? nullptr : (void*) (x + i);
}
size_t counting_strlen( const char *s ) { size_t i = 0; while (s[i]) ++i; MOVED(i + 1); return i; }
}

// numbers are read by the C library, whose own steps are not seen: what it looks at is counted as moved
#include <cstdarg>
#include <dlfcn.h>
template<typename F> static F *real( const char *name ) { bool was = on; on = false; F *f = (F*) dlsym(RTLD_NEXT, name); on = was; return f; }
extern "C" {
#define READER(type, name) type counting_##name( const char *s, char **end ) __asm__(#name); \
    type counting_##name( const char *s, char **end ) { static auto *f = real<type( const char*, char** )>(#name); char *e; type r = f(s, &e); MOVED((size_t) (e - s) + 1); if (end) *end = e; return r; }
#define READER_L(type, name) type counting_##name( const char *s, char **end, locale_t l ) __asm__(#name); \
    type counting_##name( const char *s, char **end, locale_t l ) { static auto *f = real<type( const char*, char**, locale_t )>(#name); char *e; type r = f(s, &e, l); MOVED((size_t) (e - s) + 1); if (end) *end = e; return r; }
#define READER_B(type, name) type counting_##name( const char *s, char **end, int b ) __asm__(#name); \
    type counting_##name( const char *s, char **end, int b ) { static auto *f = real<type( const char*, char**, int )>(#name); char *e; type r = f(s, &e, b); MOVED((size_t) (e - s) + 1); if (end) *end = e; return r; }
READER(double, strtod) READER(float, strtof) READER(long double, strtold)
READER_L(double, strtod_l) READER_L(float, strtof_l) READER_L(long double, strtold_l)
READER_B(long, strtol) READER_B(long long, strtoll) READER_B(unsigned long, strtoul) READER_B(unsigned long long, strtoull)
READER_B(long, __isoc23_strtol) READER_B(long long, __isoc23_strtoll) READER_B(unsigned long, __isoc23_strtoul) READER_B(unsigned long long, __isoc23_strtoull)
static int scan( const char *s, const char *f, va_list a )
{
    static auto *r = real<int( const char*, const char*, va_list )>("vsscanf");
    size_t n = 0; while (s[n]) ++n;
    MOVED(n + 1);
    return r(s, f, a);
}
#define SCANNER(name) int counting_##name( const char *s, const char *f, ... ) __asm__(#name); int counting_##name( const char *s, const char *f, ... ) { va_list a; va_start(a, f); int r = scan(s, f, a); va_end(a); return r; }
SCANNER(sscanf) SCANNER(__isoc99_sscanf) SCANNER(__isoc23_sscanf)
}

static std::string rep( const std::string &s, size_t n ) { std::string o; o.reserve(s.size() * n); while (n-- > 0) o += s; return o; }

struct Family
{
    std::string name;
    const Schema::Type *type; const Schema::ArrayType *array;
    std::function<std::string( size_t )> text;      // a text of about n bytes
    std::function<Val( size_t )> val;               // or a message of about n bytes
};

// repeats 'one' until the text has about n bytes
static std::string fill( const std::string &head, const std::string &one, const std::string &tail, size_t n, bool comma = true )
{
    std::string t = head; t.reserve(n + 2 * one.size() + tail.size());
    bool f = true;
    do { if (!f && comma) t += ','; t += one; f = false; } while (t.size() < n);
    return t + tail;
}

static void families( uint64_t seed, const Schema &s, std::vector<Family> &out )
{
    static const std::vector<std::pair<const char*, const char*>> STR = {
        { "plain", "abcdefgh" }, { "short escapes", "\\n\\t\\\"\\\\" }, { "unicode escapes", "\\u00e9\\u4e2d" }, { "surrogate pairs", "\\ud83d\\ude00" }, { "raw UTF-8", "\xC3\xA9\xE4\xB8\xAD\xF0\x9F\x98\x80" }, { "NUL escapes", "\\u0000" }, { "ill-formed", "\xFF\xC3" } };
    std::set<std::string> done;
    for (auto &t : s.types)
    {
        auto &d = *t.desc;
        for (size_t fi = 0; fi < d.fields.size(); ++fi)
        {
            auto f = d.fields[fi];
            std::string key = "kind " + std::to_string(f.kind) + (f.repeated ? " repeated" : "") + (f.transient ? " transient" : "");
            if (!done.insert(key).second) continue;
            Rng r0(1);
            std::string mem = "{" + spell_string(r0, f.json, 0) + ":", name = spell_string(r0, f.json, 0);
            auto text = [&]( const std::string &n, std::function<std::string( size_t )> fn ) { out.push_back({ s.name + " " + d.name + "." + f.name + " " + key + ": " + n, &t, nullptr, fn, nullptr }); };
            auto val = [&]( const std::string &n, std::function<Val( size_t )> fn ) { out.push_back({ s.name + " " + d.name + "." + f.name + " " + key + ": " + n, &t, nullptr, nullptr, fn }); };
            std::string one = f.kind == K_STRING ? "\"abc\"" : f.kind == K_BYTES ? "\"AAAA\"" : f.kind == K_BOOL ? "true" : f.kind == K_MSG ? "{\"x!\":[1]}" : "12";
            std::string O = f.repeated ? "[" : "", C = f.repeated ? "]" : "";
            if (f.repeated)
            {
                text("long list", [=]( size_t n ) { return fill(mem + "[", one, "]}", n); });
                text("list of nulls", [=]( size_t n ) { return fill(mem + "[", "null", "]}", n); });
                text("unfinished list", [=]( size_t n ) { return fill(mem + "[", one, "", n); });
                text("list ending in a wrong value", [=]( size_t n ) { return fill(mem + "[", one, ",{]}", n); });
            }
            text("repeated member", [=]( size_t n ) { return fill("{", name + ":" + O + one + C, "}", n); });
            text("null member", [=]( size_t n ) { return fill("{", name + ":null", "}", n); });
            if (f.kind == K_STRING || f.transient)
                for (auto &k : STR)
                {
                    std::string part = k.second, n0 = k.first;
                    text(n0 + " string", [=]( size_t n ) { return fill(mem + O + "\"", part, "\"" + C + "}", n, false); });
                    text(n0 + " string without end", [=]( size_t n ) { return fill(mem + O + "\"", part, "", n, false); });
                    text(n0 + " name", [=]( size_t n ) { return fill("{\"", part, "\":1}", n, false); });
                    text(n0 + " unknown string", [=]( size_t n ) { return fill("{\"x!\":\"", part, "\"}", n, false); });
                }
            if (f.kind == K_BYTES) { text("long bytes", [=]( size_t n ) { return fill(mem + O + "\"", "QUJD", "\"" + C + "}", n, false); }); text("bytes with a wrong end", [=]( size_t n ) { return fill(mem + O + "\"", "QUJD", "A\"" + C + "}", n, false); }); }
            if (f.kind <= K_UINT64)
            {
                static const std::vector<std::pair<const char*, const char*>> NUM = { { "0.", "1" }, { "0.", "0" }, { "1", "0" }, { "-", "9" }, { "1e", "0" }, { "1e", "9" }, { "1e-", "9" }, { "1.5", "0" }, { "2", "5" } };
                for (auto &k : NUM) { std::string a = k.first, b = k.second; text("number " + a + b + b + "...", [=]( size_t n ) { return fill(mem + O + a, b, C + "}", n, false); }); }
                text("digits and a large exponent", [=]( size_t n ) { return fill(mem + O + "0.", "0", "1e" + std::to_string(n) + C + "}", n, false); });
                text("digits and a negative exponent", [=]( size_t n ) { return fill(mem + O + "1", "0", "e-" + std::to_string(n) + C + "}", n, false); });
            }
            // messages
            Kind k = f.kind; const MsgDesc *md = f.msg;
            Val fresh = msg_fresh(d);
            GenOpt go; go.max_str = 12; go.utf8_only = true;
            auto with = [=]( std::function<void( Val & )> set ) { Val v = fresh; set(v.list[fi]); return v; };
            if (f.repeated)
            {
                val("long list", [=]( size_t n ) { return with([&]( Val &x ) { Rng r(5); x.present = true; for (size_t i = 0; i < n / 16; ++i) x.list.push_back(gen_elem(r, k, md, go)); }); });
                val("long list of empty elements", [=]( size_t n ) { return with([&]( Val &x ) { Val e; if (md) e = msg_fresh(*md); else e.present = true; x.present = true; x.list.assign(n / 16, e); }); });
            }
            if (k == K_STRING || k == K_BYTES)
            {
                static const char *PART[] = { "abcdefgh", "\n\t\"\\", "\xC3\xA9\xE4\xB8\xAD", "\xF0\x9F\x98\x80", "\x01\x02\x1F\x7F" };
                for (int i = 0; i < 5; ++i)
                {
                    std::string part = PART[i];
                    val("long value " + quote(part), [=]( size_t n ) { return with([&]( Val &x ) { Val e; e.present = true; e.s = rep(part, n / part.size()); if (f.repeated) { x.present = true; x.list.push_back(e); } else x = e; }); });
                }
                val("long ill-formed value", [=]( size_t n ) { return with([&]( Val &x ) { Val e; e.present = true; e.s = rep("a", n) + "\xFF"; if (f.repeated) { x.present = true; x.list.push_back(e); } else x = e; }); });
            }
        }
        if (done.insert("general").second || done.insert("type " + std::to_string(d.fields.size() / 8)).second)
        {
            auto text = [&]( const std::string &n, std::function<std::string( size_t )> fn ) { out.push_back({ s.name + " " + d.name + ": " + n, &t, nullptr, fn, nullptr }); };
            for (const char *v : { "1", "\"s\"", "null", "true", "[]", "{}", "[1,[2,{\"a\":3}]]", "-1.5e10" })
            {
                std::string one = v;
                text("unknown members " + one, [=]( size_t n ) { return fill("{", "\"x!\":" + one, "}", n); });
                text("unknown list of " + one, [=]( size_t n ) { return fill("{\"x!\":[", one, "]}", n); });
                text("unknown object of " + one, [=]( size_t n ) { return fill("{\"x!\":{", "\"y\":" + one, "}}", n); });
            }
            for (uint64_t i = 0; i < 6; ++i)
            {
                Rng r(mix(seed, i + 100 * done.size()));
                Tokens k; gen_json(r, 3, k);
                std::string one = layout(r, k);
                text("random value " + quote(one), [=]( size_t n ) { return fill("{\"x!\":[", one, "]}", n); });
                text("random member " + quote(one), [=]( size_t n ) { return fill("{", "\"x!\":" + one, "}", n); });
                Tokens k2; Style st; st.unknown = 20; GenOpt o; o.max_list = 2; o.max_str = 8;
                spell_msg(r, d, gen_msg(r, d, o), st, k2);
                std::string doc = layout(r, k2);
                size_t from = doc.find('{') + 1, to = doc.rfind('}');
                std::string body = doc.substr(from, to - from);
                if (body.find('"') != std::string::npos) text("random document " + quote(body), [=]( size_t n ) { return fill("{", body, "}", n); });
            }
            text("different unknown members", [=]( size_t n ) { std::string o = "{"; for (size_t i = 0; o.size() < n; ++i) o += "\"x" + std::to_string(i) + "\":" + std::to_string(i) + ","; return o + "\"\":0}"; });
            text("unknown nested values", [=]( size_t n ) { return fill("{\"x!\":[", rep("[", 100) + rep("]", 100), "]}", n); });
            text("nested beyond any limit", [=]( size_t n ) { return fill("{\"x!\":", "[", "", n, false); });
            text("long number", [=]( size_t n ) { return fill("{\"x!\":", "7", "}", n, false); });
            text("number without end", [=]( size_t n ) { return fill("{\"x!\":", "7", "", n, false); });
            text("wrong number", [=]( size_t n ) { return fill("{\"x!\":", "1-", "}", n, false); });
            text("letters", [=]( size_t n ) { return fill("{\"x!\":", "true", "}", n, false); });
            for (const char *w : { " ", "\n", "\r\n", "\t" })
            {
                std::string ws = w;
                text("leading white space " + quote(ws), [=]( size_t n ) { return fill("", ws, "{}", n, false); });
                text("inner white space " + quote(ws), [=]( size_t n ) { return fill("{\"x!\":", ws, "1}", n, false); });
                text("only white space " + quote(ws), [=]( size_t n ) { return fill("", ws, "", n, false); });
                text("white space between tokens " + quote(ws), [=]( size_t n ) { return fill("{\"x!\":[", ws + "1" + ws, "]}", n); });
            }
            text("text after the object", [=]( size_t n ) { return fill("{}", "x ", "", n, false); });
            text("a string after the object", [=]( size_t n ) { return fill("{}\"", "x", "", n, false); });
            // all members with ordinary values
            const MsgDesc *dd = &d;
            text("ordinary document many times", [=]( size_t n ) { Rng r(9); GenOpt o; o.max_list = 3; std::string t = "{"; while (t.size() < n) { Val v = gen_msg(r, *dd, o); Tokens k; Style st; st.order = 0; spell_msg(r, *dd, v, st, k); std::string one = layout(r, k, L_NONE); if (one.size() > 2) t += one.substr(1, one.size() - 2) + ","; else t += "\"\":1,"; } return t + "\"\":0}"; });
        }
    }
    for (auto &a : s.arrays)
    {
        std::unique_ptr<Arr> x(a.make());
        if (!done.insert("array " + std::to_string(x->kind)).second) continue;
        std::string one = x->kind == K_STRING ? "\"abc\"" : x->kind == K_BYTES ? "\"AAAA\"" : x->kind == K_BOOL ? "true" : x->kind == K_MSG ? "{\"x!\":[1]}" : "12";
        out.push_back({ s.name + " " + a.name + ": array", nullptr, &a, [=]( size_t n ) { return fill("[", one, "]", n); }, nullptr });
        out.push_back({ s.name + " " + a.name + ": array without end", nullptr, &a, [=]( size_t n ) { return fill("[", one, "", n); }, nullptr });
    }
}

struct Work { double size; uint64_t steps, allocs, bytes, moved; bool ok; };

int main( int argc, char **argv )
{
    if (argc < 6) return 3;
    // sizes, share of the families, and whether to leave the counting to callgrind
    size_t small = strtoull(argv[1], nullptr, 10), large = strtoull(argv[2], nullptr, 10), first = strtoull(argv[3], nullptr, 10), step = strtoull(argv[4], nullptr, 10);
    bool callgrind = argv[5][0] == 'c'; uint64_t seed = strtoull(argv[5] + 1, nullptr, 10);
    std::sort(schemas().begin(), schemas().end(), []( const Schema *a, const Schema *b ) { return a->name < b->name; });
    std::vector<Family> fam;
    for (auto s : schemas()) families(seed, *s, fam);
    int viols = 0; uint64_t measured = 0; double worst = 0; std::string worst_name;
    for (size_t i = first; i < fam.size() && viols < 3; i += step)
    {
        auto &f = fam[i];
        std::vector<int> chans;
        if (f.text) chans = f.array ? std::vector<int>{ IN_STRING, IN_USER } : callgrind ? std::vector<int>{ IN_STRING + (int) (i % 4) } : std::vector<int>{ IN_STRING, IN_VECTOR, IN_PTR, IN_STREAM, IN_USER };
        else chans = callgrind ? std::vector<int>{ 0 } : std::vector<int>{ 0, 1, 2, 3 };
        for (int ch : chans)
        {
            std::vector<Work> w;
            for (size_t n = small; n <= large; n *= (callgrind ? 4 : 8))
            {
                std::string text, out; std::unique_ptr<Obj> o; std::unique_ptr<Arr> a;
                if (f.array) a.reset(f.array->make()); else o.reset(f.type->make());
                ChanInfo info; P p; p.ascii = (ch & 1) != 0; p.nulls = (ch & 2) != 0;
                Val v;
                if (f.text) text = f.text(n); else { v = f.val(n); o->set(v); }
                std::string label = f.name + " channel " + std::to_string(ch) + " size " + std::to_string(n);
                what_ = label.c_str();
                steps = allocs = bytes = moved = 0; limit_ = 20000ull * 4 * n + 50000000;
                Work x; x.size = (double) text.size();
                if (!f.text) out.reserve(64 * n + 4096);
                if (callgrind) { CALLGRIND_ZERO_STATS; CALLGRIND_TOGGLE_COLLECT; } else on = true;
                if (f.array) x.ok = a->des((InChan) ch, text.data(), text.size(), p, info);
                else if (f.text) x.ok = o->des((InChan) ch, text.data(), text.size(), p, info);
                else x.ok = o->ser((OutChan) ch, out, p, info);
                on = false;
                if (callgrind) { CALLGRIND_TOGGLE_COLLECT; CALLGRIND_DUMP_STATS_AT(what_); }
                if (!f.text)
                {
                    // what the message holds; on failure nothing says how much was looked at, but the message is the bound
                    x.size = (double) (x.ok ? out.size() : n);
                    if (!x.ok) x.size = (double) n;
                }
                x.steps = steps; x.allocs = allocs; x.bytes = bytes; x.moved = moved;
                ++measured;
                if (ch == IN_USER && f.text && (info.consumed > text.size() || info.nexts > text.size() + 16))
                {
                    printf("VIOL read more than once %s: %zu steps over %zu bytes\n", label.c_str(), info.nexts, text.size());
                    ++viols;
                }
                if (callgrind) { printf("SIZE %.0f %s\n", x.size, label.c_str()); continue; }
                w.push_back(x);
                printf("WORK %.0f %llu %llu %llu %d %s\n", x.size, (unsigned long long) steps, (unsigned long long) bytes, (unsigned long long) moved, (int) x.ok, label.c_str());
            }
            for (size_t k = 1; k <= w.size() && w.size() > 1; ++k)
            {
                // neighbours, then the first and the last
                size_t j = k < w.size() ? k - 1 : 0, m = k < w.size() ? k : w.size() - 1;
                double bound = k < w.size() ? 2.5 : 3;
                // proportional: the work per byte does not grow (the first sizes absorb what does not depend on the size)
                auto check = [&]( const char *what, uint64_t a, uint64_t b, double slack, double floor )
                {
                    double before = (double) a / std::max(1.0, w[j].size), after = ((double) b - slack) / std::max(1.0, w[m].size);
                    double ratio = after / std::max(before, 1.0);
                    if (after > floor && ratio > worst) { worst = ratio; worst_name = std::string(what) + " " + f.name; }
                    if (ratio > bound && after > floor) { printf("VIOL more than linear %s: %s, channel %d: %llu for %.0f bytes, %llu for %.0f bytes\n", what, f.name.c_str(), ch, (unsigned long long) a, w[j].size, (unsigned long long) b, w[m].size); ++viols; }
                };
                check("steps", w[j].steps, w[m].steps, 2000, 50);
                check("bytes allocated", w[j].bytes, w[m].bytes, 20000, 32);
                check("bytes moved", w[j].moved, w[m].moved, 20000, 8);
            }
        }
    }
    printf("STATS families=%zu measured=%llu worst=%.3f %s\n", fam.size(), (unsigned long long) measured, worst, worst_name.c_str());
    return viols ? 1 : 0;
}
