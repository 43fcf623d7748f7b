// Reference JSON reader (generic) and reference deserializer (with schema types).
#pragma once
#include "val.hh"

// Generic strict RFC 8259 reader
struct JVal
{
    enum Type { NUL, TRUE_, FALSE_, NUMBER, STRING, ARRAY, OBJECT } type = NUL;
    std::string text;                    // decoded string or number as written
    std::vector<std::pair<std::string, JVal>> members;
    std::vector<JVal> items;
};
// Reads exactly one value with nothing but whitespace around it. Bytes from 0x80 up are taken as they are.
bool json_parse( const std::string &text, JVal &out, std::string &why );

// exact conversions of a valid JSON number
bool number_to_integer( const std::string &text, bool &neg, std::string &digits ); // false if not an integer; digits without leading zeros
enum NumFit { FIT, NOFIT, EDGE };    // EDGE: depends on whether a float is rounded directly or by way of a double
NumFit number_fit( const std::string &text, Kind kind, Val &out, Val &alt );        // alt: another acceptable value (float via double)

bool valid_utf8( const std::string &s );
std::string utf8( uint32_t cp );
std::string b64_encode( const std::string &s );
bool b64_valid( const std::string &text );
bool b64_decode( const std::string &text, std::string &out, bool &canonical );

struct RefResult
{
    bool ok = false;
    bool unspecified = false;            // the outcome is outside of what is promised
    bool value_unspecified = false;      // success or failure is promised but not the value
    std::string why;
    int line = 0, column = 0;
    std::set<int> codes;
    size_t end = 0;                      // bytes of the complete value
    Val val;                             // object
    std::vector<std::string> trace;
};
RefResult ref_read( const MsgDesc &d, const std::string &text );
RefResult ref_read_array( Kind k, const MsgDesc *m, const std::string &text ); // val.list has the elements

// Does JSON value 'j' say exactly what 'v' holds? Used on serialized text.
struct TextCheck { bool nulls; std::string why; };
bool text_says( const MsgDesc &d, const Val &v, const JVal &j, TextCheck &c );
bool text_says_elem( Kind k, const MsgDesc *m, const Val &v, const JVal &j, TextCheck &c );
