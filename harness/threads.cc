// C17: the same work done by concurrent threads and afterwards alone, under ThreadSanitizer.
#include "mon.hh"
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <mutex>
#include <sched.h>
#include <thread>
#include <unistd.h>

std::string corpus_text( Rng &r, const Schema &s, const Schema::Type &t );

struct Barrier
{
    std::mutex m; std::condition_variable cv; size_t n, waiting = 0, round = 0;
    explicit Barrier( size_t n ) : n(n) {}
    void wait()
    {
        std::unique_lock<std::mutex> l(m);
        size_t my = round;
        if (++waiting == n) { waiting = 0; ++round; cv.notify_all(); }
        else while (round == my) cv.wait(l);
    }
};

// one call to make, without anything of protogen in it
struct Job
{
    const Schema *schema; size_t type; int what; // 0 write, 1 read, 2 write array, 3 read array, 4 write the shared message
    Val v; std::vector<Val> list; std::string text;
    P p; InChan in; OutChan out;
};
struct Result { bool ok = false; std::string text; Val v; std::vector<Val> list; Err e; bool threw = false; std::string what; };

static Result run( const Job &j, const Obj *shared )
{
    Result r; P p = j.p; ChanInfo i;
    switch (j.what)
    {
        case 0: { std::unique_ptr<Obj> o(j.schema->types[j.type].make()); o->set(j.v); r.ok = o->ser(j.out, r.text, p, i); break; }
        case 1: { std::unique_ptr<Obj> o(j.schema->types[j.type].make()); r.ok = o->des(j.in, j.text.data(), j.text.size(), p, i); if (r.ok) r.v = o->get(); break; }
        case 2: { std::unique_ptr<Arr> a(j.schema->arrays[j.type].make()); a->set(j.list); r.ok = a->ser(j.out, r.text, p, i); break; }
        case 3: { std::unique_ptr<Arr> a(j.schema->arrays[j.type].make()); r.ok = a->des((InChan) (j.in % 4), j.text.data(), j.text.size(), p, i); if (r.ok) r.list = a->get(); break; }
        case 4: r.ok = shared->ser(j.out, r.text, p, i); if (shared->empty() != msg_empty(shared->desc(), j.v)) r.what = "empty() differs"; break;
    }
    r.e = p.error; r.threw = i.threw; r.what += i.what;
    return r;
}

static bool same( const Job &j, const Result &a, const Result &b )
{
    if (a.ok != b.ok || a.text != b.text || a.threw != b.threw || a.what != b.what || !(a.e == b.e)) return false;
    if (!a.ok) return true;
    if (j.what == 1) return msg_equal(*j.schema->types[j.type].desc, a.v, b.v);
    if (j.what == 3)
    {
        if (a.list.size() != b.list.size()) return false;
        std::unique_ptr<Arr> x(j.schema->arrays[j.type].make());
        for (size_t i = 0; i < a.list.size(); ++i) if (!elem_equal(x->kind, x->msg, a.list[i], b.list[i])) return false;
    }
    return true;
}

int main( int argc, char **argv )
{
    if (argc < 4) return 3;
    uint64_t seed = strtoull(argv[1], nullptr, 10); int rounds = atoi(argv[2]), per = atoi(argv[3]);
    std::sort(schemas().begin(), schemas().end(), []( const Schema *a, const Schema *b ) { return a->name < b->name; });
    Rng r(seed);
    uint64_t calls = 0, succeeded = 0; std::unordered_set<uint64_t> orders, distinct; std::map<std::string, uint64_t> counters;
    std::vector<std::string> samples;
    // the types in random order, so that every round is the first use of some
    std::vector<std::pair<const Schema*, size_t>> types;
    for (auto s : schemas()) for (size_t i = 0; i < s->types.size(); ++i) types.push_back({ s, i });
    for (size_t i = types.size(); i > 1; --i) std::swap(types[i - 1], types[r.below(i)]);
    std::unordered_set<const MsgDesc*> used;
    for (int round = 0; round < rounds; ++round)
    {
        size_t n = (size_t) r.range(2, 10);
        auto first = types[(size_t) round % types.size()];
        bool allsame = r.chance(60);
        Val sharedv; GenOpt o; o.huge = r.chance(20); o.finite = r.chance(70);
        const Schema::Type &st = first.first->types[first.second];
        sharedv = gen_msg(r, *st.desc, o);
        std::vector<std::vector<Job>> jobs(n);
        auto make = [&]( const std::pair<const Schema*, size_t> &t, bool share )
        {
            Job j; j.schema = t.first; j.type = t.second; j.p = random_params(r); j.in = (InChan) r.below(IN_COUNT); j.out = (OutChan) r.below(OUT_COUNT);
            j.what = share && r.chance(30) ? 4 : (int) r.below(2);
            if (!share && !t.first->arrays.empty() && r.chance(25)) { j.what = r.range(2, 3); j.type = r.below(t.first->arrays.size()); }
            if (j.what == 4) { j.v = sharedv; }
            else if (j.what <= 1) { j.v = gen_msg(r, *t.first->types[t.second].desc, o); if (j.what == 1) j.text = corpus_text(r, *t.first, t.first->types[t.second]); }
            else
            {
                std::unique_ptr<Arr> a(t.first->arrays[j.type].make());
                for (int i = 0; i < 4; ++i) j.list.push_back(gen_elem(r, a->kind, a->msg, o));
                Tokens toks; Style s; spell_list(r, a->kind, a->msg, j.list, s, toks); j.text = layout(r, toks); if (r.chance(30)) j.text = mutate_bytes(r, j.text);
            }
            return j;
        };
        for (size_t t = 0; t < n; ++t)
            for (int k = 0; k < per; ++k)
                // the first call of every thread is on the same type
                jobs[t].push_back(make(k == 0 || allsame ? first : types[r.below(types.size())], k == 0 || allsame));
        if (r.chance(40)) for (size_t t = 1; t < n; ++t) jobs[t][0] = jobs[0][0];
        std::unique_ptr<Obj> shared(st.make());
        shared->set(sharedv);
        std::vector<std::vector<Result>> res(n);
        Barrier b(n);
        std::vector<int> order; std::mutex om;
        std::vector<unsigned> delays; for (size_t t = 0; t < n; ++t) delays.push_back((unsigned) r.below(4));
        std::vector<std::thread> th;
        for (size_t t = 0; t < n; ++t) th.emplace_back([&, t]() {
            for (size_t k = 0; k < jobs[t].size(); ++k)
            {
                if (k < 3) b.wait();
                for (unsigned d = 0; d < delays[t]; ++d) sched_yield();
                res[t].push_back(run(jobs[t][k], shared.get()));
                if (k < 3) { std::lock_guard<std::mutex> l(om); order.push_back((int) t); }
            }
        });
        for (auto &x : th) x.join();
        std::string os; for (int x : order) os += (char) ('a' + x);
        orders.insert(hash_str(os));
        if (used.insert(st.desc).second) counters["first uses of a type by several threads"]++;
        for (size_t t = 0; t < n; ++t) for (size_t k = 0; k < jobs[t].size(); ++k)
        {
            auto &j = jobs[t][k];
            ++calls; if (res[t][k].ok) ++succeeded;
            std::string id = std::to_string(j.what) + j.text + (j.what == 0 || j.what == 4 ? show(*j.schema->types[j.type].desc, j.v) : "");
            distinct.insert(hash_str(id)); if (samples.size() < 3 && id.size() < 300) samples.push_back(id);
            static const char *W[] = { "messages written", "messages read", "arrays written", "arrays read", "writes of a shared message" };
            counters[W[j.what]]++;
            Result alone = run(j, shared.get());
            if (!same(j, res[t][k], alone))
            {
                printf("VIOL round %d thread %zu call %zu of %zu threads, %s %s: together %d '%s' code %d at %d:%d; alone %d '%s' code %d at %d:%d; %s\n", round, t, k, n, W[j.what], j.schema->name.c_str(), (int) res[t][k].ok,
                    quote(res[t][k].text).c_str(), res[t][k].e.code, res[t][k].e.line, res[t][k].e.column, (int) alone.ok, quote(alone.text).c_str(), alone.e.code, alone.e.line, alone.e.column, quote(j.text).c_str());
                fflush(stdout);
                return 1;
            }
        }
        if (!msg_equal(*st.desc, shared->get(), sharedv)) { printf("VIOL the shared message changed\n"); return 1; }
    }
    printf("STATS calls=%llu succeeded=%llu orders=%zu\n", (unsigned long long) calls, (unsigned long long) succeeded, orders.size());
    for (auto &k : counters) printf("COUNT %llu %s\n", (unsigned long long) k.second, k.first.c_str());
    for (auto &s : samples) printf("SAMPLE %s\n", quote(s).c_str());
    for (auto h : distinct) printf("D %llu\n", (unsigned long long) (h & 0xFFFFFFFFFFFFULL));
    return 0;
}
