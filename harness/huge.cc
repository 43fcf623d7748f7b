// C07: texts longer than an int can count, made up while they are read. Built with -DHEADER=... -DPG=... -DTYPE=...
#include HEADER
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <istream>
#include <streambuf>
#include <string>

struct Maker : public std::streambuf
{
    std::string head, tail; char fill; uint64_t n, at;
    char block[65536];

    int_type underflow() override
    {
        size_t have = 0;
        while (have < sizeof(block))
        {
            if (at < head.size())
                block[have++] = head[at++];
            else if (at < head.size() + n)
            {
                uint64_t k = std::min<uint64_t>(sizeof(block) - have, head.size() + n - at);
                memset(block + have, fill, k);
                have += k; at += k;
            }
            else if (at < head.size() + n + tail.size())
            {
                block[have++] = tail[at - head.size() - n];
                ++at;
            }
            else
                break;
        }
        if (!have)
            return traits_type::eof();
        setg(block, block, block + have);
        return traits_type::to_int_type(block[0]);
    }
};

int main( int argc, char **argv )
{
    if (argc < 5) return 3;
    static Maker m;
    m.head = argv[1]; m.tail = argv[3]; m.at = 0;
    m.fill = argv[2][0] == 'n' ? '\n' : argv[2][0] == 's' ? ' ' : argv[2][0];
    m.n = strtoull(argv[4], nullptr, 10);
    std::istream in(&m);
    TYPE x; PG::Parameters p;
    bool ok = x.deserialize(in, &p);
    printf("RESULT %d %d %d %d %d\n", (int) ok, (int) p.error.code, p.error.line, p.error.column, (int) x.empty());
    return 0;
}
