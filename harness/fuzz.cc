// libFuzzer target. Input: byte 0 type, byte 1 channel and parameters, rest the text.
// FUZZ_ORACLE=1: what is accepted is compared with the reference reader (C05) as well.
#include "mon.hh"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <memory>

std::string corpus_text( Rng &r, const Schema &s, const Schema::Type &t );
extern "C" size_t LLVMFuzzerMutate( uint8_t *data, size_t size, size_t max );

static std::vector<std::pair<const Schema*, Schema::Type>> types;
static std::vector<Schema::ArrayType> arrays;
static bool oracle;
static uint64_t accepted, rejected;

static void finish() { printf("FUZZ accepted=%llu rejected=%llu\n", (unsigned long long) accepted, (unsigned long long) rejected); fflush(stdout); }
static void bad( const std::string &what, const uint8_t *data, size_t size )
{
    printf("FUZZVIOL %s %s\n", what.c_str(), quote(std::string((const char*) data, size)).c_str());
    fflush(stdout);
    abort();
}

extern "C" int LLVMFuzzerInitialize( int *, char *** )
{
    std::sort(schemas().begin(), schemas().end(), []( const Schema *a, const Schema *b ) { return a->name < b->name; });
    for (auto s : schemas()) { for (auto &t : s->types) types.push_back({ s, t }); for (auto &a : s->arrays) arrays.push_back(a); }
    oracle = getenv("FUZZ_ORACLE") != nullptr;
    if (const char *dir = getenv("FUZZ_CORPUS"))
    {
        Rng r(strtoull(getenv("FUZZ_SEED"), nullptr, 10));
        for (int i = 0; i < 600; ++i)
        {
            size_t k = r.below(std::min<size_t>(types.size(), 200));
            std::string t = std::string(1, (char) k) + (char) r.below(256) + corpus_text(r, *types[k].first, types[k].second);
            std::ofstream(dir + ("/" + std::to_string(i)), std::ios::binary) << t;
        }
    }
    atexit(finish);
    return 0;
}

extern "C" size_t LLVMFuzzerCustomMutator( uint8_t *data, size_t size, size_t max, unsigned seed )
{
    Rng r(seed);
    if (size < 2 || r.chance(70)) return LLVMFuzzerMutate(data, size, max);
    std::string t((const char*) data + 2, size - 2);
    if (r.chance(10)) { auto &k = types[data[0] % types.size()]; t = corpus_text(r, *k.first, k.second); }
    else for (int i = r.range(1, 3); i > 0; --i) t = mutate_bytes(r, t);
    if (t.size() + 2 > max) t.resize(max - 2);
    memcpy(data + 2, t.data(), t.size());
    return t.size() + 2;
}

extern "C" int LLVMFuzzerTestOneInput( const uint8_t *data, size_t size )
{
    if (size < 2) return 0;
    const char *text = (const char*) data + 2; size_t len = size - 2;
    P p; p.null = (data[1] & 64) != 0; p.ascii = (data[1] & 8) != 0; p.nulls = (data[1] & 16) != 0;
    ChanInfo info;
    bool ok;
    if ((data[1] & 128) && !arrays.empty())
    {
        auto &at = arrays[data[0] % arrays.size()];
        std::unique_ptr<Arr> a(at.make());
        ok = a->des((InChan) ((data[1] & 7) % 4), text, len, p, info);
        if (ok) { std::string out; P q = p; ChanInfo i; a->ser(OUT_STRING, out, q, i); if (i.threw) bad("exception while writing: " + i.what, data, size); }
        if (oracle && ok)
        {
            RefResult ref = ref_read_array(a->kind, a->msg, std::string(text, len));
            if (!ref.ok && !ref.unspecified) bad("malformed text accepted: " + at.name + ": " + ref.why, data + 2, len);
        }
    }
    else
    {
        auto &t = types[data[0] % types.size()].second;
        std::unique_ptr<Obj> o(t.make());
        ok = o->des((InChan) ((data[1] & 7) % IN_COUNT), text, len, p, info);
        { std::string out; P q = p; ChanInfo i; o->ser(OUT_STRING, out, q, i); if (i.threw) bad("exception while writing: " + i.what, data, size); }
        if (oracle && ok)
        {
            RefResult ref = ref_read(*t.desc, std::string(text, len));
            if (!ref.ok && !ref.unspecified) bad("malformed text accepted: " + t.desc->name + ": " + ref.why, data + 2, len);
            if (ref.ok && !ref.unspecified && !ref.value_unspecified && !msg_equal(*t.desc, ref.val, o->get())) bad("read wrong: " + t.desc->name + ": " + diff(*t.desc, ref.val, o->get()), data + 2, len);
        }
    }
    (ok ? accepted : rejected)++;
    if (info.threw) bad("exception: " + info.what, data, size);
    if (info.nexts > 2 * len + 64 || info.peeks > 16 * len + 256) bad("unbounded work", data, size);
    return 0;
}
