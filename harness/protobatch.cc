// Parses and generates many schema texts in one process; prints the model, the outcome and the state of the stream as JSON lines.
// Input file: records of '<length> <stream flags>[ <path>]\n<bytes>'.
#include <protogen/proto3.hh>
#include <protogen/protogen.hh>
#include <algorithm>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>
#include <new>
#include <cstdlib>
#include <cstring>
#include <locale>

// one allocation that fails
static long alloc_left = -1;
static unsigned long allocs_failed = 0;
void *operator new( size_t n )
{
    if (alloc_left == 0) { alloc_left = -1; ++allocs_failed; throw std::bad_alloc(); }
    if (alloc_left > 0) --alloc_left;
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void operator delete( void *p ) noexcept { free(p); }
void operator delete( void *p, size_t ) noexcept { free(p); }

// ends, throws something of its own or an I/O failure after some characters
struct fault_buf : std::streambuf
{
    const std::string &text; size_t at = 0, stop; int kind;
    fault_buf( const std::string &t, size_t s, int k ) : text(t), stop(s), kind(k) {}
    int underflow() override
    {
        if (at >= stop && kind == 0) throw 42;
        if (at >= stop && kind == 1) throw std::ios_base::failure("broken");
        return at < text.size() ? (unsigned char) text[at] : EOF;
    }
    int uflow() override { int c = underflow(); if (c != EOF) ++at; return c; }
};

static std::string q( const std::string &s )
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        char t[8];
        if (c < 32 || c >= 127 || c == '"' || c == '\\') { snprintf(t, sizeof t, "\\u%04x", c); o += t; }
        else o += (char) c;
    }
    return o + '"';
}

static std::string opts( const protogen::OptionMap &m )
{
    static const char *KIND[] = { "ident", "string", "int", "bool" };
    std::string o = "{";
    for (auto &x : m)
    {
        if (o.size() > 1) o += ',';
        o += q(x.first) + ":[" + q(KIND[(int) x.second.type]) + "," + q(x.second.value) + (x.second.name != x.first ? ",\"named otherwise\"" : "") + "]";
    }
    return o + "}";
}

static std::string dump( const protogen::Proto3 &p )
{
    static const char *TYPE[] = { "double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes", "message" };
    std::string o = "{\"options\":" + opts(p.options) + ",\"messages\":[";
    bool c = false;
    for (auto &m : p.messages)
    {
        if (c) o += ',';
        c = true;
        o += "{\"package\":" + q(m->package) + ",\"name\":" + q(m->name) + ",\"options\":" + opts(m->options) + ",\"fields\":[";
        bool d = false;
        for (auto &f : m->fields)
        {
            if (d) o += ',';
            d = true;
            int id = (int) f.type.id - (int) protogen::TYPE_DOUBLE;
            bool known = false;
            for (auto &x : p.messages) known |= f.type.ref == x;
            o += "{\"type\":" + q(id >= 0 && id < 16 ? TYPE[id] : "?") + ",\"ref\":" + (f.type.ref ? q((known ? "" : "not in the list: ") + f.type.ref->qualifiedName()) : std::string("null"))
                + ",\"repeated\":" + (f.type.repeated ? "true" : "false") + ",\"optional\":" + (f.type.optional ? "true" : "false") + ",\"name\":" + q(f.name)
                + ",\"number\":" + std::to_string(f.index) + ",\"options\":" + opts(f.options) + "}";
        }
        o += "]}";
    }
    return o + "]}";
}

// digest of what is written
struct count_buf : std::streambuf
{
    size_t n = 0;
    unsigned long h = 0xCBF29CE484222325UL;
    void add( char c ) { ++n; h = (h ^ (unsigned char) c) * 0x100000001B3UL; }
    int overflow( int c ) override { if (c != EOF) add((char) c); return c == EOF ? 0 : c; }
    std::streamsize xsputn( const char *p, std::streamsize k ) override { for (std::streamsize i = 0; i < k; ++i) add(p[i]); return k; }
};

// a locale whose numbers look otherwise
struct digits : std::numpunct<char>
{
    char do_thousands_sep() const override { return '.'; }
    char do_decimal_point() const override { return ','; }
    std::string do_grouping() const override { return "\3"; }
    std::string do_truename() const override { return "wahr"; }
    std::string do_falsename() const override { return "falsch"; }
};

int main( int argc, char **argv )
{
    bool fflag = argc > 2 && !strcmp(argv[2], "faults");
    if (argc > 2 && !strcmp(argv[2], "locale"))
        std::locale::global(std::locale(std::locale(), new digits()));
    protogen::CppGenerator gen;     // the same for all texts
    std::ifstream in(argv[1], std::ios::binary);
    size_t len; unsigned long flags;
    std::string line;
    while (std::getline(in, line))
    {
        int used = 0;
        if (sscanf(line.c_str(), "%zu %lu%n", &len, &flags, &used) != 2) return 3;
        std::string path = line.size() > (size_t) used ? line.substr((size_t) used + 1) : std::string("/some/file.proto");
        std::string text(len, '\0');
        in.read(&text[0], (std::streamsize) len);
        std::istringstream is(text);
        is.flags((std::ios_base::fmtflags) flags);
        auto before = is.flags();
        std::string out;
        // long chains of references: see main.cc
        protogen::Proto3 &proto = *new protogen::Proto3();
        const char *stage = "parse";
        std::string model = "null", err;
        count_buf cb;
        int el = 0; bool ok = true;
        try
        {
            proto.parse(is, path);
            if (is.flags() == before) {}
            model = dump(proto);
            stage = "generate";
            for (auto &m : proto.messages)
                std::sort(m->fields.begin(), m->fields.end(), [](const protogen::Field &a, const protogen::Field &b) { return a.name < b.name; });
            std::ostream os(&cb);
            gen.generate(proto, os);
        }
        catch (protogen::exception &ex) { ok = false; err = ex.cause(); el = ex.line; }
        bool same = is.flags() == before;
        // failures in the middle: of the stream (that throws or not) or of memory
        const char *fault = ""; bool fsame = true, fsilent = false;
        if (fflag)
        {
            unsigned long h = 1469598103934665603UL;
            for (unsigned char c : text) h = (h ^ c) * 1099511628211UL;
            h ^= h >> 29;
            int kind = (int) (h % 4); h /= 4;
            protogen::Proto3 &other = *new protogen::Proto3();
            bool threw = false;
            if (kind < 3)
            {
                fault_buf fb(text, len ? h % len : 0, kind == 2 ? 0 : kind);
                std::istream fs(&fb);
                if (kind != 2) fs.exceptions(std::ios_base::badbit);
                fs.flags((std::ios_base::fmtflags) flags);
                auto b = fs.flags();
                fault = kind == 2 ? "stream fails" : "stream throws";
                try { other.parse(fs, "/x.proto"); } catch (protogen::exception &) { threw = true; } catch (std::exception &) { threw = true; } catch (int) { threw = true; }
                fsame = fs.flags() == b;
                fsilent = kind != 2 && !threw;
                if (fb.at < fb.stop) { fault = ""; fsilent = false; }    // stopped before
            }
            else
            {
                std::istringstream fs(text);
                fs.exceptions(std::ios_base::badbit);
                fs.flags((std::ios_base::fmtflags) flags);
                auto b = fs.flags();
                unsigned long failed = allocs_failed;
                alloc_left = (long) (h % (len / 8 + 4));
                try { other.parse(fs, "/x.proto"); } catch (protogen::exception &) { threw = true; } catch (std::exception &) { threw = true; }
                alloc_left = -1;
                fsame = fs.flags() == b;
                if (allocs_failed != failed) { fault = "out of memory"; fsilent = !threw; }
            }
            for (auto &m : other.messages) for (auto &f : m->fields) f.type.ref.reset();
            delete &other;
        }
        printf("{\"ok\":%s,\"stage\":\"%s\",\"line\":%d,\"error\":%s,\"flags\":%s,\"fault\":\"%s\",\"fsame\":%s,\"fsilent\":%s,\"file\":%s,\"bytes\":%zu,\"digest\":\"%lx\",\"model\":%s}\n", ok ? "true" : "false", stage, el, q(err).c_str(), same ? "true" : "false", fault, fsame ? "true" : "false", fsilent ? "true" : "false", q(proto.fileName).c_str(), cb.n, cb.h, model.c_str());
        fflush(stdout);
        // break cycles, so that only real leaks are reported
        for (auto &m : proto.messages) for (auto &f : m->fields) f.type.ref.reset();
        delete &proto;
    }
    return 0;
}
