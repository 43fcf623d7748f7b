// Generators of messages, strings, numerals and JSON text.
#pragma once
#include "rng.hh"
#include "val.hh"

struct GenOpt
{
    int presence = 60;          // percent of fields present
    bool finite = true;         // no NaN or infinities
    bool utf8_only = false;     // strings are valid UTF-8
    bool null_elems = false;    // repeated strings may have null elements
    int max_list = 6;
    int max_str = 24;
    bool huge = false;          // now and then long strings and lists
};

std::string gen_utf8( Rng &r, int max );        // valid UTF-8 with every class of character
std::string gen_bytes( Rng &r, int max );       // arbitrary bytes, often nearly valid UTF-8
std::string gen_string( Rng &r, const GenOpt &o );
Val gen_scalar( Rng &r, Kind k, const GenOpt &o );
Val gen_elem( Rng &r, Kind k, const MsgDesc *m, const GenOpt &o );
Val gen_field( Rng &r, const FieldDesc &f, const GenOpt &o, bool present );
Val gen_msg( Rng &r, const MsgDesc &d, const GenOpt &o );
Val gen_giant( Rng &r, const MsgDesc &d, const GenOpt &o );             // one field with tens of thousands of elements or characters
void gen_giant_json( Rng &r, std::vector<std::string> &out );

// Writer with arbitrary spelling. Text is a list of tokens so that it can be laid out and edited.
struct Style
{
    int order = 100;            // percent chance of shuffling members
    int escapes = 30;           // percent of characters escaped although they need not be
    int numbers = 60;           // percent of numbers in unusual spelling
    int nulls = 20;             // percent of absent fields written as null
    int null_elems = 10;        // percent chance of a null inserted in arrays
    int unknown = 0;            // percent chance of unknown members at each position
    int unknown_depth = 3;
    bool empties = true;        // empty lists as [], empty bytes as "", empty messages as {} now and then
};
typedef std::vector<std::string> Tokens;
std::string spell_string( Rng &r, const std::string &s, int escapes );
std::string spell_number( Rng &r, Kind k, const Val &v, int unusual );
void spell_msg( Rng &r, const MsgDesc &d, const Val &v, const Style &st, Tokens &out );
void spell_list( Rng &r, Kind k, const MsgDesc *m, const std::vector<Val> &v, const Style &st, Tokens &out );
void gen_json( Rng &r, int depth, Tokens &out );                       // any valid JSON value
std::string unknown_name( Rng &r, const MsgDesc &d );
enum Layout { L_NONE, L_SPACES, L_RANDOM };
std::string layout( Rng &r, const Tokens &t, int mode = -1 );
std::string gen_numeral( Rng &r );                                     // any valid JSON number, often near limits
void mutate( Rng &r, Tokens &t );                                      // one token level edit
std::string mutate_bytes( Rng &r, const std::string &s );              // one byte level edit
