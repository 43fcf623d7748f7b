// C19: every allocation and every operation of a user's stream fails in turn, under AddressSanitizer with leak detection.
#include "mon.hh"
#include <algorithm>
#include <clocale>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <locale.h>
#include <new>

std::string corpus_text( Rng &r, const Schema &s, const Schema::Type &t );

static bool armed, window, more, keeping;
static uint64_t allocs, fail_at, fired;
static int64_t live;

static void *get( size_t n )
{
    if (window)
    {
        ++allocs;
        if (armed && fail_at && (allocs == fail_at || (more && allocs > fail_at))) { ++fired; throw std::bad_alloc(); }
    }
    char *p = (char*) malloc(n + 16);
    if (!p) abort();
    *p = keeping ? 0 : 1;
    if (!keeping) ++live;
    return p + 16;
}
static void put( void *p ) { if (p) { char *q = (char*) p - 16; if (*q) --live; free(q); } }
struct Keep { bool was; Keep() : was(keeping) { keeping = true; } ~Keep() { keeping = was; } };  // the monitor's own records are not counted
void *operator new( size_t n ) { return get(n); }
void *operator new[]( size_t n ) { return get(n); }
void operator delete( void *p ) noexcept { put(p); }
void operator delete[]( void *p ) noexcept { put(p); }
void operator delete( void *p, size_t ) noexcept { put(p); }
void operator delete[]( void *p, size_t ) noexcept { put(p); }
void *operator new( size_t n, const std::nothrow_t& ) noexcept { try { return get(n); } catch (std::bad_alloc&) { return nullptr; } }
void *operator new[]( size_t n, const std::nothrow_t& ) noexcept { try { return get(n); } catch (std::bad_alloc&) { return nullptr; } }

static void enter() { window = true; }
static void leave() { window = false; }

enum Op { WRITE, READ, WRITE_ARRAY, READ_ARRAY, COPY, ASSIGN, OP_COUNT };
static const char *OPS[] = { "writing a message", "reading a message", "writing an array", "reading an array", "copying a message", "assigning a message" };

struct Case
{
    const Schema *schema = nullptr; size_t type = 0; Op op = WRITE; InChan in = IN_STRING; OutChan out = OUT_STRING; P p;
    Val v, w; std::vector<Val> list; std::string text; bool faulty = false, exceptions = false; int fault_kind = 0;
    const Schema::Type &t() const { return schema->types[type]; }
};

struct Outcome { bool ok = false, threw = false, failed = false, flags = false; std::string what, text; Val v; std::vector<Val> list; Err e; std::string bad; size_t steps = 0; };

static uint64_t evals, calls; static std::unordered_set<uint64_t> distinct; static std::map<std::string, uint64_t> counters; static std::vector<std::string> samples;
static int violations;

static void viol( const std::string &key, const std::string &detail )
{
    Keep keep;
    if (++violations <= 5) { printf("VIOL %s | %s\n", key.c_str(), detail.c_str()); fflush(stdout); }
}

static bool list_equal( const Case &c, const std::vector<Val> &a, const std::vector<Val> &b )
{
    if (a.size() != b.size()) return false;
    std::unique_ptr<Arr> x(c.schema->arrays[c.type].make());
    for (size_t i = 0; i < a.size(); ++i) if (!elem_equal(x->kind, x->msg, a[i], b[i])) return false;
    return true;
}

static const std::string PREFIX = "already here: ";

// the operation, perhaps with a fault; afterwards everything involved is used again
static void viol( const std::string &key, const std::string &detail );
static std::string describe( const Case &c );
static locale_t thread_locale; static std::string global_locale;

static Outcome perform( const Case &c, uint64_t alloc_at, size_t user_at )
{
    Outcome o; ChanInfo i; i.faulty = c.faulty; i.exceptions = c.exceptions; i.throw_at = user_at; i.fault_kind = c.fault_kind; P p = c.p;
    allocs = 0; fail_at = alloc_at; fired = 0;
    auto arm = []() { armed = true; }; auto disarm = []() { armed = false; };
    switch (c.op)
    {
        case WRITE:
        {
            std::unique_ptr<Obj> x(c.t().make()); x->set(c.v); o.text = PREFIX;
            arm(); o.ok = x->ser(c.out, o.text, p, i); disarm();
            if (!msg_equal(x->desc(), x->get(), c.v)) o.bad = "the message changes";
            break;
        }
        case READ:
        {
            std::unique_ptr<Obj> x(c.t().make());
            arm(); o.ok = x->des(c.in, c.text.data(), c.text.size(), p, i); disarm();
            o.v = x->get();
            if (alloc_at || user_at)
            {
                // what was read so far can be copied, compared, written and cleared
                std::unique_ptr<Obj> y(x->copy());
                if (!y->eq(*x) || y->ne(*x)) { if (msg_equal(x->desc(), o.v, o.v)) o.bad = "the message differs from its copy"; }   // NaN can not be read
                { P q; q.ascii = false; ChanInfo k; std::string s; y->ser(OUT_STRING, s, q, k); if (k.threw) o.bad = "writing what was read throws"; }
                x->clear();
                if (!x->empty() || !msg_equal(x->desc(), x->get(), msg_fresh(x->desc()))) o.bad = "clear() leaves something behind";
                P q = c.p; ChanInfo k; bool ok = x->des(IN_STRING, c.text.data(), c.text.size(), q, k);
                o.list.push_back(x->get()); o.list.back().present = ok;
            }
            break;
        }
        case WRITE_ARRAY:
        {
            std::unique_ptr<Arr> x(c.schema->arrays[c.type].make()); x->set(c.list); o.text = PREFIX;
            arm(); o.ok = x->ser(c.out, o.text, p, i); disarm();
            if (!list_equal(c, x->get(), c.list)) o.bad = "the array changes";
            break;
        }
        case READ_ARRAY:
        {
            std::unique_ptr<Arr> x(c.schema->arrays[c.type].make());
            arm(); o.ok = x->des(c.in, c.text.data(), c.text.size(), p, i); disarm();
            o.list = x->get();
            break;
        }
        case COPY:
        case ASSIGN:
        {
            std::unique_ptr<Obj> x(c.t().make()); x->set(c.v);
            std::unique_ptr<Obj> y;
            if (c.op == ASSIGN) { y.reset(c.t().make()); y->set(c.w); }
            try
            {
                armed = window = true;
                if (c.op == COPY) y.reset(x->copy()); else y->assign(*x);
                o.ok = true;
            } catch (std::bad_alloc &ex) { o.threw = true; o.what = ex.what(); }
            armed = window = false;
            if (!msg_equal(x->desc(), x->get(), c.v)) o.bad = "the copied message changes";
            if (o.ok && !msg_equal(x->desc(), y->get(), c.v)) o.bad = "the copy differs";
            if (y)
            {
                y->empty(); y->get(); y->clear();
                if (!y->empty()) o.bad = "clear() leaves something behind";
                y->assign(*x);
                if (!msg_equal(x->desc(), y->get(), c.v)) o.bad = "assigning again does not work";
            }
            break;
        }
        default: break;
    }
    {
        Keep keep;
        if (uselocale((locale_t) 0) != thread_locale) { viol("the thread's locale changes", describe(c) + ", allocation " + std::to_string(alloc_at) + " or stream operation " + std::to_string(user_at) + " fails"); uselocale(thread_locale); }
        if (global_locale != setlocale(LC_ALL, nullptr)) { viol("the locale changes", describe(c)); setlocale(LC_ALL, global_locale.c_str()); }
    }
    if (c.op < COPY) { o.threw = i.threw; o.what = i.what; o.failed = i.stream_failed; o.flags = i.flags_changed; o.steps = i.ops; o.e = p.error; }
    return o;
}

static std::string describe( const Case &c )
{
    std::string s = OPS[c.op];
    s += " of " + c.schema->name + " type " + std::to_string(c.type);
    if (c.op == WRITE || c.op == WRITE_ARRAY) s += " to channel " + std::to_string(c.out);
    if (c.op == READ || c.op == READ_ARRAY) s += " from channel " + std::to_string(c.in) + " text " + quote(c.text);
    else if (c.op != WRITE_ARRAY) s += " " + show(*c.t().desc, c.v);
    if (c.fault_kind) s += c.fault_kind == 3 ? " (the buffer refuses a character)" : " (fault " + std::to_string(c.fault_kind) + ")";
    if (c.faulty) s += c.exceptions ? " (failing buffer, stream throws)" : " (failing buffer)";
    return s;
}

static bool same( const Case &c, const Outcome &a, const Outcome &b )
{
    if (a.ok != b.ok || a.text != b.text) return false;
    if (c.op == READ) return !a.ok || msg_equal(*c.t().desc, a.v, b.v);
    if (c.op == READ_ARRAY) return !a.ok || list_equal(c, a.list, b.list);
    return true;
}

static void faulted( const Case &c, const Outcome &good, uint64_t alloc_at, size_t user_at, bool leaks )
{
    int64_t before = live;
    {
        Outcome o = perform(c, alloc_at, user_at);
        ++evals; ++calls;
        Keep keep;
        std::string where = describe(c) + (user_at ? ", stream fails at operation " + std::to_string(user_at) : ", allocation " + std::to_string(alloc_at) + (more ? " and those after it fail" : " fails"));
        bool hit = user_at ? o.steps >= user_at : fired > 0;
        if (!hit) { counters["faults that did not happen"]++; }
        const char *what = "std::bad_alloc";
        if (!o.bad.empty()) viol(o.bad, where);
        if (o.flags) viol("the stream's formatting flags change", where);
        const bool told = user_at ? o.what.find("user fault") == 0 || (c.fault_kind == 3 && c.faulty) : o.what == what;
        if (o.threw && !told) viol("another exception", where + ": " + o.what);
        if (o.threw && !hit) viol("exception without a fault", where + ": " + o.what);
        if (o.threw) counters[std::string("exceptions: ") + (user_at ? "of the stream" : "out of memory")]++;
        else if (hit && o.failed)
        {
            counters["standard streams that failed"]++;
            if (c.exceptions && o.ok && !same(c, good, o)) viol("the exception of a standard stream is lost", where);
            if (c.op == READ && o.ok && !same(c, good, o)) viol("a fault passes unnoticed", where);
        }
        else if (hit && !same(c, good, o))
        {
            // told by the result
            if (!o.ok && good.ok) counters["calls that report failure"]++;
            else viol("a fault passes unnoticed", where + ": result " + std::to_string(o.ok) + " " + quote(o.text) + ", without the fault " + std::to_string(good.ok) + " " + quote(good.text));
        }
        else if (hit) counters["faults without consequences"]++;
        // what was written is a leading part of the text
        if ((c.op == WRITE || c.op == WRITE_ARRAY) && good.text.compare(0, o.text.size(), o.text) != 0) viol("what was written is not the beginning of the text", where + ": " + quote(o.text) + ", without the fault " + quote(good.text));
        if (c.op == READ)
        {
            auto &again = o.list.back();
            if (again.present != good.ok || (good.ok && !msg_equal(*c.t().desc, again, good.v))) viol("the next read gives something else", where + ": " + diff(*c.t().desc, good.v, again));
        }
        std::string id = describe(c) + std::to_string(alloc_at) + "," + std::to_string(user_at);
        if (hit) distinct.insert(hash_str(id));
        if (samples.size() < 4 && hit && where.size() < 400) samples.push_back(where);
        counters[OPS[c.op]]++;
    }
    if (leaks && live != before) viol("memory is leaked", describe(c) + (user_at ? ", stream fails at operation " + std::to_string(user_at) : ", allocation " + std::to_string(alloc_at)) + ": " + std::to_string(live - before) + " blocks");
}

static Case make_case( Rng &r, const Schema &s, size_t type, int op )
{
    Case c; c.schema = &s; c.type = type; c.op = (Op) op;
    if ((op == WRITE_ARRAY || op == READ_ARRAY) && s.arrays.empty()) c.op = (Op) (op == WRITE_ARRAY ? WRITE : READ);
    c.p = random_params(r); c.in = (InChan) r.below(IN_COUNT); c.out = (OutChan) r.below(OUT_COUNT);
    if (c.p.null && c.p.ascii) c.p.ascii = false;
    GenOpt o; o.max_str = r.chance(20) ? 200 : 30; o.max_list = r.chance(20) ? 20 : 4; o.presence = r.pick(std::vector<int>{ 15, 60, 100 }); o.finite = r.chance(85);
    if (c.op == WRITE_ARRAY || c.op == READ_ARRAY)
    {
        c.type = r.below(s.arrays.size()); c.in = (InChan) r.below(4);
        std::unique_ptr<Arr> a(s.arrays[c.type].make());
        if (c.op == READ_ARRAY) o.finite = true;
        for (int i = (int) r.below(6); i >= 0; --i) c.list.push_back(gen_elem(r, a->kind, a->msg, o));
        if (c.op == READ_ARRAY) { Tokens toks; Style st; spell_list(r, a->kind, a->msg, c.list, st, toks); c.text = layout(r, toks); }
        if (c.out == OUT_STREAM) c.out = OUT_USER;
        if (c.in == IN_STREAM) c.in = IN_USER;
    }
    else
    {
        c.v = gen_msg(r, *c.t().desc, o); c.w = gen_msg(r, *c.t().desc, o);
        if (c.op == READ)
        {
            if (r.chance(25)) c.text = corpus_text(r, s, c.t());
            else { Val v = c.v; strip_transient(*c.t().desc, v); GenOpt f; f.finite = true; v = gen_msg(r, *c.t().desc, f); strip_transient(*c.t().desc, v); Tokens toks; Style st; st.unknown = r.chance(40) ? 30 : 0; spell_msg(r, *c.t().desc, v, st, toks); c.text = layout(r, toks); }
            if (c.text.size() > 3000) c.text.resize(3000);
        }
    }
    if ((c.op == READ && c.in == IN_STREAM) || (c.op == WRITE && c.out == OUT_STREAM)) { c.faulty = r.chance(75); c.exceptions = c.faulty && r.chance(60); }
    c.fault_kind = (int) r.below(4);
    if (c.fault_kind == 3 && !(c.faulty && c.op == WRITE)) c.fault_kind = 0;
    return c;
}

int main( int argc, char **argv )
{
    if (argc < 4) return 3;
    uint64_t seed = strtoull(argv[1], nullptr, 10); int rounds = atoi(argv[2]); uint64_t most = strtoull(argv[3], nullptr, 10);
    std::sort(schemas().begin(), schemas().end(), []( const Schema *a, const Schema *b ) { return a->name < b->name; });
    Rng r(seed);
    thread_locale = uselocale((locale_t) 0); global_locale = setlocale(LC_ALL, nullptr);
    call_hooks().enter = enter; call_hooks().leave = leave;
    // the numbers' locale and the streams' own memory are set up by the library at their first use
    for (auto s : schemas()) for (size_t t = 0; t < s->types.size(); ++t)
    {
        // the very first use of every type, interrupted at every allocation
        for (int op : { r.chance(50) ? WRITE : READ, READ })
        {
            Case c = make_case(r, *s, t, op);
            c.faulty = c.exceptions = false;
            if (c.op == WRITE && c.out == OUT_STREAM) c.out = OUT_STRING;
            if (c.op == READ && c.in == IN_STREAM) c.in = IN_PTR;
            more = r.chance(50);
            uint64_t k = 1;
            for (; k < 3000; ++k)
            {
                Outcome o = perform(c, k, 0);
                ++calls;
                if (!fired) break;
                ++evals; counters["faults at the first use of a type"]++;
            }
            more = false;
            Outcome good = perform(c, 0, 0);
            // the same in a spelling of its own is checked by reading and writing back
            if (c.op == READ && good.ok)
            {
                std::unique_ptr<Obj> x(c.t().make()); P q; q.ascii = true; ChanInfo i; std::string s1;
                x->set(good.v);
                if (writable(*c.t().desc, good.v, false)) { q.ascii = false; x->ser(OUT_STRING, s1, q, i); }
                std::unique_ptr<Obj> y(c.t().make()); P q2; ChanInfo i2;
                if (!s1.empty() && (!y->des(IN_STRING, s1.data(), s1.size(), q2, i2) || !msg_equal(*c.t().desc, y->get(), good.v)))
                {
                    Val g = good.v; strip_transient(*c.t().desc, g);
                    if (!msg_equal(*c.t().desc, y->get(), g)) viol("the first use left something wrong behind", describe(c));
                }
            }
        }
        // after the interrupted first use, a document with every member is understood
        GenOpt o; o.presence = 100;
        Val v = gen_msg(r, *s->types[t].desc, o); strip_transient(*s->types[t].desc, v);
        Tokens toks; Style st; st.nulls = 0; spell_msg(r, *s->types[t].desc, v, st, toks); std::string text = layout(r, toks);
        std::unique_ptr<Obj> x(s->types[t].make()); P q; ChanInfo i;
        if (!x->des(IN_STRING, text.data(), text.size(), q, i) || !msg_equal(*s->types[t].desc, x->get(), v))
            viol("the first use left something wrong behind", s->name + " type " + std::to_string(t) + " text " + quote(text) + ": " + diff(*s->types[t].desc, v, x->get()));
        counters["types used again after an interrupted first use"]++;
    }
    for (int round = 0; round < rounds && violations < 3; ++round)
        for (auto s : schemas())
        {
            Case c = make_case(r, *s, r.below(s->types.size()), (int) r.below(OP_COUNT));
            perform(c, 0, 0);
            Outcome good = perform(c, 0, 0);
            uint64_t n = allocs; size_t steps = good.steps;
            if (!good.bad.empty()) { viol(good.bad, describe(c)); continue; }
            if (good.threw) { viol("exception without a fault", describe(c) + ": " + good.what); continue; }
            more = r.chance(25);
            auto each = [&]( uint64_t n, bool user )
            {
                std::vector<uint64_t> ks;
                if (n <= most) for (uint64_t k = 1; k <= n; ++k) ks.push_back(k);
                else { for (uint64_t k = 1; k <= most / 4; ++k) { ks.push_back(k); ks.push_back(n + 1 - k); } while (ks.size() < most) ks.push_back(1 + r.below(n)); }
                for (auto k : ks) if (violations < 3) faulted(c, good, user ? 0 : k, user ? (size_t) k : 0, true);
            };
            each(n, false);
            more = false;
            if (c.op < COPY) each(steps, true);
        }
    printf("STATS calls=%llu evals=%llu\n", (unsigned long long) calls, (unsigned long long) evals);
    for (auto &k : counters) printf("COUNT %llu %s\n", (unsigned long long) k.second, k.first.c_str());
    for (auto &s : samples) printf("SAMPLE %s\n", s.c_str());
    for (auto h : distinct) printf("D %llu\n", (unsigned long long) (h & 0xFFFFFFFFFFFFULL));
    fflush(stdout);
    return violations ? 1 : 0;
}
