// Model of messages used by every monitor. Shares no code with protogen.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <ios>
#include <stdexcept>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <memory>
#include <functional>

enum Kind { K_DOUBLE, K_FLOAT, K_INT32, K_INT64, K_UINT32, K_UINT64, K_BOOL, K_STRING, K_BYTES, K_MSG };

struct MsgDesc;
struct FieldDesc
{
    std::string name;   // C++ name
    std::string json;   // JSON name
    Kind kind;
    bool repeated;
    bool transient;
    const MsgDesc *msg; // only K_MSG
};
struct MsgDesc
{
    std::string name;
    std::vector<FieldDesc> fields;
    int find( const std::string &json ) const
    {
        for (size_t i = 0; i < fields.size(); ++i)
            if (!fields[i].transient && fields[i].json == json) return (int) i;
        return -1;
    }
};

// The value of a field (or of an element of a repeated field)
struct Val
{
    bool present = false;       // scalars and strings only
    double d = 0;               // K_DOUBLE, K_FLOAT
    int64_t i = 0;              // signed integers, bool
    uint64_t u = 0;             // unsigned integers
    std::string s;              // K_STRING, K_BYTES
    std::vector<Val> list;      // repeated: elements; K_MSG: one value per field
};

inline bool is_float( Kind k ) { return k == K_DOUBLE || k == K_FLOAT; }
inline bool is_signed( Kind k ) { return k == K_INT32 || k == K_INT64; }
inline bool is_unsigned( Kind k ) { return k == K_UINT32 || k == K_UINT64; }

bool val_equal( const FieldDesc &f, const Val &a, const Val &b );
bool msg_equal( const MsgDesc &d, const Val &a, const Val &b );
bool elem_equal( Kind k, const MsgDesc *m, const Val &a, const Val &b );
bool field_empty( const FieldDesc &f, const Val &v );
bool msg_empty( const MsgDesc &d, const Val &v );
Val msg_fresh( const MsgDesc &d );
std::string show( const MsgDesc &d, const Val &v );
std::string quote( const std::string &s );   // printable form
// first difference between messages, for reports
std::string diff( const MsgDesc &d, const Val &a, const Val &b );

//
// Type-erased access to the generated classes (implemented by bind.hh)
//

struct Err
{
    int code = 0, line = 0, column = 0;
    std::string message;
    bool operator==( const Err &o ) const { return code == o.code && line == o.line && column == o.column && message == o.message; }
};

struct P
{
    bool null = false;                  // pass no parameters at all
    bool ascii = false, nulls = false;
    Err error;                          // in: stale error; out: error afterwards
};

enum InChan { IN_STRING, IN_VECTOR, IN_PTR, IN_STREAM, IN_USER, IN_COUNT };
enum OutChan { OUT_STRING, OUT_VECTOR, OUT_STREAM, OUT_USER, OUT_COUNT };

// things seen by a channel besides the result
struct ChanInfo
{
    bool flags_changed = false;         // stream formatting flags
    size_t consumed = 0;                // user channel: number of next() calls that advanced
    size_t peeks = 0, nexts = 0, writes = 0;
    bool threw = false;
    std::string what;
    // faults of user-defined and standard streams: the operation at which they fail (0: never)
    size_t throw_at = 0, ops = 0;
    int fault_kind = 0;                 // what is thrown; 3: the buffer of an output stream refuses the character instead
    bool faulty = false;                // standard streams over a buffer that fails
    bool exceptions = false;            // standard streams that throw when they fail
    bool stream_failed = false;         // the standard stream knows that it failed
    unsigned format = 0;                // standard streams: how their user has set them up for numbers and columns
    void step();
};

// thrown by streams of the monitors
struct UserFault { size_t at; };
inline void ChanInfo::step()
{
    if (++ops != throw_at) return;
    if (fault_kind == 1) throw std::runtime_error("user fault");
    if (fault_kind == 2) throw std::ios_base::failure("user fault");
    throw UserFault{ ops };
}

// called around every call of the generated code
struct CallHooks { void (*enter)(); void (*leave)(); };
inline CallHooks &call_hooks() { static CallHooks h = { nullptr, nullptr }; return h; }
struct Window
{
    Window() { if (call_hooks().enter) call_hooks().enter(); }
    ~Window() { if (call_hooks().leave) call_hooks().leave(); }
};

struct Obj
{
    virtual ~Obj() {}
    virtual const MsgDesc &desc() const = 0;
    virtual void set( const Val & ) = 0;              // assigns every present field
    virtual Val get() const = 0;
    virtual bool ser( OutChan c, std::string &out, P &p, ChanInfo &info ) const = 0;
    virtual bool ser_buf( char *buf, size_t len, P &p ) = 0;
    virtual bool des( InChan c, const char *data, size_t len, P &p, ChanInfo &info ) = 0;
    // value operations
    virtual Obj *fresh() const = 0;
    virtual Obj *copy() const = 0;                    // copy constructor
    virtual Obj *move() = 0;                          // move constructor
    virtual void assign( const Obj & ) = 0;
    virtual void assign_move( Obj & ) = 0;            // x = std::move(y)
    virtual void swap( Obj & ) = 0;
    virtual void clear() = 0;
    virtual bool empty() const = 0;
    virtual bool equal( const Obj & ) const = 0;
    virtual bool eq( const Obj & ) const = 0;
    virtual bool ne( const Obj & ) const = 0;
    // field operations; 'how' selects among equivalent ways
    virtual void set_field( size_t i, const Val &v, unsigned how ) = 0;
    virtual void clear_field( size_t i, unsigned how ) = 0;
    virtual bool field_is_empty( size_t i ) const = 0;
    virtual void copy_field( size_t i, const Obj &from, unsigned how ) = 0;
    virtual void swap_field( size_t i, Obj &with ) = 0;
    virtual void alias_field( size_t i, unsigned how ) = 0;       // assigns the field (which has a value) to itself in some way
    virtual int cmp_plain( size_t i, const Val &v, unsigned how ) const = 0; // as cmp_field, with a plain value
    virtual int cmp_field( size_t i, const Obj &with ) const = 0; // bit 0: ==, bit 1: !=; -1 not comparable
};

// Top-level arrays
struct Arr
{
    std::string type;
    Kind kind; const MsgDesc *msg;
    bool nullable = true;               // elements may be null
    virtual ~Arr() {}
    virtual void set( const std::vector<Val> & ) = 0;
    virtual std::vector<Val> get() const = 0;
    virtual bool ser( OutChan c, std::string &out, P &p, ChanInfo &info ) const = 0;
    virtual bool des( InChan c, const char *data, size_t len, P &p, ChanInfo &info ) = 0;
    virtual Arr *fresh() const = 0;
};

struct Schema
{
    std::string name;
    struct Type { const MsgDesc *desc; Obj *(*make)(); };
    std::vector<Type> types;
    struct ArrayType { std::string name; Arr *(*make)(); };
    std::vector<ArrayType> arrays;
};

std::vector<const Schema*> &schemas();  // filled by the bind files
struct Register { Register( const Schema *s ) { schemas().push_back(s); } };
