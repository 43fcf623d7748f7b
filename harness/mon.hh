#pragma once
#include "gen.hh"
#include "ref.hh"
#include "val.hh"
#include <unordered_set>

struct Stats
{
    uint64_t evals = 0;
    std::unordered_set<uint64_t> distinct;   // hashes of non-trivial cases
    std::map<std::string, uint64_t> counters;
    std::vector<std::string> samples;
    uint64_t violations = 0;
};

struct Ctx
{
    Stats &st;
    Rng r;
    std::string mon;
    const Schema *schema;
    uint64_t seed, index;
    bool thorough;
    Ctx( Stats &st, uint64_t s ) : st(st), r(s) {}
    // a violation; 'key' classifies it independently of the concrete case
    void fail( const std::string &key, const std::string &detail );
    // one evaluated case; 'what' identifies it, trivial cases do not count as distinct
    void seen( const std::string &what, bool nontrivial );
    void count( const std::string &name, uint64_t n = 1 ) { st.counters[name] += n; }
    const Schema::Type &type() { return r.pick(schema->types); }
};

typedef void (*Monitor)( Ctx & );
struct MonEntry { const char *name; Monitor fn; };

void strip_transient( const MsgDesc &d, Val &v );   // transient fields as in a fresh message
bool any_transient( const MsgDesc &d, const Val &v ); // some transient field is not empty
bool writable( const MsgDesc &d, const Val &v, bool ascii );
bool has_null_elem( const MsgDesc &d, const Val &v );
P random_params( Rng &r, bool allow_null = true );
Err stale_error( Rng &r );
