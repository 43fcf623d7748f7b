// libFuzzer target: parses a schema text and generates code as the executable does.
#include <protogen/proto3.hh>
#include <protogen/protogen.hh>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <sstream>

static size_t accepted, rejected;
static void at_exit() { printf("fuzz: accepted=%zu rejected=%zu\n", accepted, rejected); fflush(stdout); }

extern "C" int LLVMFuzzerInitialize( int*, char*** ) { atexit(at_exit); return 0; }

extern "C" int LLVMFuzzerTestOneInput( const uint8_t *data, size_t size )
{
    std::istringstream is(std::string((const char*) data, size));
    protogen::Proto3 proto;
    try
    {
        proto.parse(is, "/some/file.proto");
        for (auto &m : proto.messages)
            std::sort(m->fields.begin(), m->fields.end(), [](const protogen::Field &a, const protogen::Field &b) { return a.name < b.name; });
        std::ostringstream os;
        protogen::CppGenerator gen;
        gen.generate(proto, os);
        if (os.str().size() < 1000) abort();
        ++accepted;
    }
    catch (protogen::exception &ex)
    {
        if (ex.cause().empty()) abort();
        ++rejected;
    }
    for (auto &m : proto.messages) for (auto &f : m->fields) f.type.ref.reset();
    return 0;
}
