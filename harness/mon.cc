#include "mon.hh"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <clocale>
#include <locale>
#include <locale.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

std::vector<const Schema*> &schemas() { static auto &v = *new std::vector<const Schema*>; return v; }

typedef std::unique_ptr<Obj> ObjP;
typedef std::unique_ptr<Arr> ArrP;

static std::string json_str( const std::string &s )
{
    std::string o = "\"";
    char t[8];
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
        else if (c < 0x20 || c >= 0x7F) { snprintf(t, sizeof(t), "\\u%04x", c); o += t; }
        else o += (char) c;
    }
    return o + "\"";
}

void Ctx::fail( const std::string &key, const std::string &detail )
{
    st.violations++;
    printf("VIOL {\"mon\":%s,\"schema\":%s,\"seed\":%llu,\"case\":%llu,\"key\":%s,\"detail\":%s}\n", json_str(mon).c_str(), json_str(schema->name).c_str(),
        (unsigned long long) seed, (unsigned long long) index, json_str(key).c_str(), json_str(detail.substr(0, 6000)).c_str());
    fflush(stdout);
}

void Ctx::seen( const std::string &what, bool nontrivial )
{
    st.evals++;
    if (nontrivial) st.distinct.insert(hash_str(what));
    if (nontrivial && st.samples.size() < 3 && what.size() < 600) st.samples.push_back(what);
}

void strip_transient( const MsgDesc &d, Val &v )
{
    for (size_t i = 0; i < d.fields.size(); ++i)
    {
        auto &f = d.fields[i];
        if (f.transient) v.list[i] = f.kind == K_MSG && !f.repeated ? msg_fresh(*f.msg) : Val();
        else if (f.kind == K_MSG)
        {
            if (f.repeated) for (auto &e : v.list[i].list) strip_transient(*f.msg, e);
            else strip_transient(*f.msg, v.list[i]);
        }
    }
}

bool any_transient( const MsgDesc &d, const Val &v ) { Val w = v; strip_transient(d, w); return !msg_equal(d, v, w); }

static bool elem_writable( Kind k, const MsgDesc *m, const Val &v, bool ascii )
{
    if (k == K_MSG) return writable(*m, v, ascii);
    if (!v.present) return true;
    if (is_float(k)) return std::isfinite(v.d);
    if (k == K_STRING && ascii) return valid_utf8(v.s);
    return true;
}
bool writable( const MsgDesc &d, const Val &v, bool ascii )
{
    for (size_t i = 0; i < d.fields.size(); ++i)
    {
        auto &f = d.fields[i];
        if (f.transient) continue;
        if (f.repeated) { for (auto &e : v.list[i].list) if (!elem_writable(f.kind, f.msg, e, ascii)) return false; }
        else if (!elem_writable(f.kind, f.msg, v.list[i], ascii)) return false;
    }
    return true;
}
bool has_null_elem( const MsgDesc &d, const Val &v )
{
    for (size_t i = 0; i < d.fields.size(); ++i)
    {
        auto &f = d.fields[i];
        if (f.repeated && f.kind == K_STRING) { for (auto &e : v.list[i].list) if (!e.present) return true; }
        if (f.kind == K_MSG)
        {
            if (f.repeated) { for (auto &e : v.list[i].list) if (has_null_elem(*f.msg, e)) return true; }
            else if (has_null_elem(*f.msg, v.list[i])) return true;
        }
    }
    return false;
}

Err stale_error( Rng &r )
{
    Err e;
    if (r.chance(50)) { e.code = r.range(1, 7); e.message = "stale error"; e.line = r.range(1, 99); e.column = r.range(1, 99); }
    return e;
}
P random_params( Rng &r, bool allow_null )
{
    P p;
    if (allow_null && r.chance(25)) { p.null = true; return p; }
    p.ascii = r.chance(50); p.nulls = r.chance(50);
    p.error = stale_error(r);
    return p;
}

static std::string pstr( const P &p ) { return p.null ? "no parameters" : std::string("ensure_ascii=") + (p.ascii ? "1" : "0") + " serialize_null=" + (p.nulls ? "1" : "0"); }
static std::string estr( const Err &e ) { return "code " + std::to_string(e.code) + " at " + std::to_string(e.line) + ":" + std::to_string(e.column) + " '" + e.message + "'"; }
static std::string clip( const std::string &s ) { return s.size() > 1500 ? quote(s.substr(0, 1500)) + "..." : quote(s); }

static bool des( Obj &o, InChan c, const std::string &text, P &p ) { ChanInfo i; bool r = o.des(c, text.data(), text.size(), p, i); return r && !i.threw; }
static bool des( Arr &o, InChan c, const std::string &text, P &p ) { ChanInfo i; bool r = o.des(c, text.data(), text.size(), p, i); return r && !i.threw; }
static bool ser( const Obj &o, OutChan c, std::string &text, P &p ) { ChanInfo i; bool r = o.ser(c, text, p, i); return r && !i.threw; }
static bool ser( const Arr &o, OutChan c, std::string &text, P &p ) { ChanInfo i; bool r = o.ser(c, text, p, i); return r && !i.threw; }
static InChan rin( Rng &r ) { return (InChan) r.below(IN_COUNT); }
static OutChan rout( Rng &r ) { return (OutChan) r.below(OUT_COUNT); }

// assigns and checks that the message holds what was assigned
static bool hold( Ctx &c, Obj &o, const Val &v )
{
    o.set(v);
    Val w = o.get();
    if (msg_equal(o.desc(), v, w)) return true;
    c.fail("assignment", "assigned and read back: " + diff(o.desc(), v, w));
    return false;
}

// the array's own type of elements
static std::vector<Val> gen_list( Rng &r, const Arr &a, const GenOpt &opt )
{
    GenOpt o = opt; if (!a.nullable) o.null_elems = false;
    std::vector<Val> v;
    int n = (int) r.below(7);
    if (r.chance(3)) n = 200;
    if (r.below(3000) == 0) n = a.kind == K_MSG ? 3000 : 65530 + (int) r.below(10);
    for (int i = 0; i < n; ++i) v.push_back(i < 300 ? gen_elem(r, a.kind, a.msg, o) : v[r.below(300)]);
    return v;
}
static bool list_equal( const Arr &a, const std::vector<Val> &x, const std::vector<Val> &y )
{
    if (x.size() != y.size()) return false;
    for (size_t i = 0; i < x.size(); ++i) if (!elem_equal(a.kind, a.msg, x[i], y[i])) return false;
    return true;
}
static std::string show_list( const Arr &a, const std::vector<Val> &v )
{
    MsgDesc d; d.fields.push_back({ "items", "items", a.kind, true, false, a.msg });
    Val m; m.list.resize(1); m.list[0].list = v;
    return show(d, m);
}
static int depth_of( const MsgDesc &d, const Val &v )
{
    int m = 0;
    for (size_t i = 0; i < d.fields.size() && i < v.list.size(); ++i)
    {
        auto &f = d.fields[i];
        if (f.kind != K_MSG || f.transient) continue;
        if (!f.repeated) { if (!msg_empty(*f.msg, v.list[i])) m = std::max(m, 1 + depth_of(*f.msg, v.list[i])); }
        else for (auto &e : v.list[i].list) m = std::max(m, 1 + depth_of(*f.msg, e));
    }
    return m;
}
// the first cases of every schema are giants
static const uint64_t GIANTS = 24;
static Val gen_case( Ctx &c, const MsgDesc &d, const GenOpt &o )
{
    if (c.index >= GIANTS)
    {
        Val v = gen_msg(c.r, d, o);
        if (depth_of(d, v) > 15) c.count("messages more than 15 levels deep");
        return v;
    }
    c.count("giant messages");
    return gen_giant(c.r, d, o);
}
static bool use_array( Ctx &c, int percent ) { return !c.schema->arrays.empty() && c.r.chance(percent); }

//
// C01
//
static void mon_c01( Ctx &c )
{
    Rng &r = c.r;
    P p = random_params(r);
    GenOpt o; o.presence = r.pick(std::vector<int>{ 0, 10, 50, 90, 100 }); o.utf8_only = p.ascii; o.huge = true;
    if (use_array(c, 12))
    {
        auto &t = r.pick(c.schema->arrays);
        ArrP a(t.make()), b(t.make());
        std::vector<Val> v = gen_list(r, *a, o);
        if (a->kind == K_MSG) for (auto &e : v) strip_transient(*a->msg, e);
        a->set(v);
        std::string text, again;
        P q = p;
        std::string what = t.name + " " + show_list(*a, v) + " " + pstr(p);
        c.seen(what, !v.empty()); c.count("arrays");
        if (!ser(*a, (OutChan) r.below(2), text, q)) return c.fail("serialize failed", what + ": " + estr(q.error));
        q = p;
        if (!des(*b, (InChan) r.below(3), text, q)) return c.fail("deserialize failed", what + ": text " + clip(text) + ": " + estr(q.error));
        if (!list_equal(*a, v, b->get())) return c.fail("not preserved", what + ": text " + clip(text) + " gave " + show_list(*b, b->get()));
        q = p;
        if (!ser(*b, OUT_STRING, again, q) || again != text) return c.fail("second text differs", what + ": " + clip(text) + " then " + clip(again));
        return;
    }
    auto &t = c.type();
    const MsgDesc &d = *t.desc;
    ObjP a(t.make()), b(t.make());
    Val v = gen_case(c, d, o);
    if (!hold(c, *a, v)) return;
    std::string what = d.name + " " + show(d, v) + " " + pstr(p);
    c.seen(what, !msg_empty(d, v)); c.count("messages");
    std::string text, again;
    P q = p;
    if (!ser(*a, rout(r), text, q)) return c.fail("serialize failed", what + ": " + estr(q.error));
    if (!msg_equal(d, v, a->get())) return c.fail("serialize changed the message", what);
    q = p;
    if (!des(*b, rin(r), text, q)) return c.fail("deserialize failed", what + ": text " + clip(text) + ": " + estr(q.error));
    Val expect = v; strip_transient(d, expect);
    Val got = b->get();
    if (!msg_equal(d, expect, got)) return c.fail("not preserved", what + ": text " + clip(text) + ": " + diff(d, expect, got));
    if (!any_transient(d, v) && !(*a).eq(*b)) return c.fail("not equal", what + ": text " + clip(text));
    q = p;
    // (a message that only holds transient values is written as an empty object, then read as an absent one)
    if (!ser(*b, rout(r), again, q) || (again != text && !any_transient(d, v))) return c.fail("second text differs", what + ": " + clip(text) + " then " + clip(again));
    c.count("bytes of text", text.size());
}

//
// C02
//
static void mon_c02( Ctx &c )
{
    Rng &r = c.r;
    P p = random_params(r);
    GenOpt o; o.presence = r.pick(std::vector<int>{ 0, 10, 50, 90, 100 }); o.huge = true; o.null_elems = true;
    o.finite = r.chance(85); o.utf8_only = r.chance(70);
    bool array = use_array(c, 15);
    std::string text, what; bool ok, expect; std::string why; bool good = true; Err err;
    JVal j;
    std::function<bool(P&, std::string&)> again;
    ObjP a; ArrP l;
    if (array)
    {
        auto &t = r.pick(c.schema->arrays);
        l.reset(t.make());
        std::vector<Val> v = gen_list(r, *l, o);
        l->set(v);
        what = t.name + " " + show_list(*l, v) + " " + pstr(p);
        c.seen(what, !v.empty()); c.count("arrays");
        expect = true;
        for (auto &e : v) if (!elem_writable(l->kind, l->msg, e, p.ascii)) expect = false;
        P q = p; ok = ser(*l, (OutChan) r.below(2), text, q); err = q.error;
        if (ok && expect)
        {
            if (!json_parse(text, j, why)) good = false;
            else if (j.type != JVal::ARRAY || j.items.size() != v.size()) { good = false; why = "not an array of " + std::to_string(v.size()) + " elements"; }
            else for (size_t i = 0; i < v.size() && good; ++i) { TextCheck tc = { p.nulls, "" }; good = text_says_elem(l->kind, l->msg, v[i], j.items[i], tc); why = tc.why; }
        }
        again = [&]( P &q, std::string &out ) { return ser(*l, OUT_STRING, out, q); };
    }
    else
    {
        auto &t = c.type();
        const MsgDesc &d = *t.desc;
        a.reset(t.make());
        Val v = gen_case(c, d, o);
        if (!hold(c, *a, v)) return;
        what = d.name + " " + show(d, v) + " " + pstr(p);
        c.seen(what, !msg_empty(d, v)); c.count("messages");
        expect = writable(d, v, p.ascii);
        P q = p; ok = ser(*a, rout(r), text, q); err = q.error;
        if (ok && expect)
        {
            TextCheck tc = { p.nulls, "" };
            if (!json_parse(text, j, why)) good = false;
            else { good = text_says(d, v, j, tc); why = tc.why; }
        }
        again = [&]( P &q, std::string &out ) { return ser(*a, OUT_STRING, out, q); };
    }
    if (ok && !expect) return c.fail("wrote what has no text", what + ": text " + clip(text));
    if (!ok && expect) return c.fail("serialize failed", what + ": " + estr(err));
    if (!ok)
    {
        c.count("unwritable messages refused");
        if (!p.null && err.code == 0) c.fail("failure without error code", what);
        return;
    }
    if (!good) return c.fail("text is wrong", what + ": text " + clip(text) + ": " + why);
    if (p.ascii)
    {
        for (unsigned char ch : text) if (ch >= 0x80) return c.fail("text is not ASCII", what + ": text " + clip(text));
        // the same data as without escaping
        P q = p; q.ascii = false; std::string other, t1, t2;
        if (!again(q, other)) return c.fail("serialize failed", what + " without escaping: " + estr(q.error));
        JVal k;
        std::function<std::string(const JVal&)> dump = [&]( const JVal &v ) {
            std::string s = std::to_string(v.type) + ":" + std::to_string(v.text.size()) + ":" + v.text + "{";
            for (auto &m : v.members) s += std::to_string(m.first.size()) + ":" + m.first + "=" + dump(m.second) + ",";
            for (auto &m : v.items) s += dump(m) + ",";
            return s + "}";
        };
        if (!json_parse(other, k, why)) return c.fail("text is wrong", what + " without escaping: text " + clip(other) + ": " + why);
        if (dump(j) != dump(k)) return c.fail("escaping changes the data", what + ": " + clip(text) + " versus " + clip(other));
        c.count("escaped and plain texts compared");
    }
}

//
// C03
//
static Style random_style( Rng &r )
{
    Style s;
    s.escapes = r.pick(std::vector<int>{ 0, 10, 50, 100 });
    s.numbers = r.pick(std::vector<int>{ 0, 50, 100 });
    s.nulls = r.pick(std::vector<int>{ 0, 20, 80 });
    s.null_elems = r.pick(std::vector<int>{ 0, 0, 20 });
    return s;
}

static std::string trailing( Rng &r )
{
    static const char *T[] = { "", "", "", "}", "]", " \n", "x", "{\"a\":1}", ",", "\"", "\"\\", "1", "-", "\xFF", "null", "\"\\ud800", "tru", "/* */" };
    return T[r.below(sizeof(T) / sizeof(*T))];
}

static void mon_c03( Ctx &c )
{
    Rng &r = c.r;
    GenOpt o; o.presence = r.pick(std::vector<int>{ 0, 10, 50, 90, 100 }); o.huge = true;
    Style s = random_style(r);
    P p = random_params(r);
    Tokens toks;
    if (use_array(c, 15))
    {
        auto &t = r.pick(c.schema->arrays);
        ArrP a(t.make());
        std::vector<Val> v = gen_list(r, *a, o);
        if (a->kind == K_MSG) for (auto &e : v) strip_transient(*a->msg, e);
        spell_list(r, a->kind, a->msg, v, s, toks);
        std::string text = layout(r, toks) + trailing(r);
        RefResult ref = ref_read_array(a->kind, a->msg, text);
        if (!ref.ok || !list_equal(*a, ref.val.list, v)) { if (ref.value_unspecified) return; printf("HARNESS oracle disagrees with the writer: %s\n", clip(text).c_str()); exit(3); }
        c.seen(t.name + " " + text, !v.empty()); c.count("arrays");
        if (!des(*a, (InChan) r.below(4), text, p)) return c.fail("valid text rejected", t.name + ": " + clip(text) + ": " + estr(p.error));
        if (!list_equal(*a, a->get(), v)) return c.fail("read wrong", t.name + ": " + clip(text) + " gave " + show_list(*a, a->get()) + " instead of " + show_list(*a, v));
        return;
    }
    auto &t = c.type();
    const MsgDesc &d = *t.desc;
    Val v = gen_case(c, d, o);
    strip_transient(d, v);
    spell_msg(r, d, v, s, toks);
    std::string text = layout(r, toks) + trailing(r);
    RefResult ref = ref_read(d, text);
    if (!ref.ok || (!msg_equal(d, v, ref.val) && !ref.value_unspecified)) { printf("HARNESS oracle disagrees with the writer: %s %s\n", clip(text).c_str(), ref.why.c_str()); exit(3); }
    c.seen(d.name + " " + text, !msg_empty(d, v)); c.count("messages"); c.count("tokens", toks.size());
    ObjP a(t.make());
    if (!des(*a, rin(r), text, p)) return c.fail("valid text rejected", d.name + ": " + clip(text) + ": " + estr(p.error));
    Val got = a->get();
    if (!msg_equal(d, v, got)) return c.fail("read wrong", d.name + ": " + clip(text) + ": " + diff(d, v, got));
}

//
// C04
//
static void mon_c04( Ctx &c )
{
    Rng &r = c.r;
    GenOpt o; o.presence = r.pick(std::vector<int>{ 0, 10, 50, 90 });
    o.max_list = 3;
    Style s = random_style(r);
    auto &t = c.type();
    const MsgDesc &d = *t.desc;
    Val v = gen_msg(r, d, o);
    strip_transient(d, v);
    s.unknown = r.pick(std::vector<int>{ 10, 30, 60 }); s.unknown_depth = r.range(0, 4);
    Tokens toks;
    spell_msg(r, d, v, s, toks);
    P p = random_params(r);
    if (c.index < GIANTS)
    {
        Tokens u = { spell_string(r, unknown_name(r, d), 10), ":" };
        gen_giant_json(r, u);
        if (toks.size() > 2) u.push_back(",");
        toks.insert(toks.begin() + 1, u.begin(), u.end());
        c.count("giant unknown values");
    }
    else if (c.index < 2 * GIANTS)
    {
        // very many unknown members
        Tokens u;
        for (size_t n = r.pick(std::vector<size_t>{ 32768, 65536, 70000 }); n > 0; --n)
        {
            if (!u.empty() || toks.size() > 2) u.push_back(",");
            u.push_back(spell_string(r, unknown_name(r, d), 0)); u.push_back(":"); u.push_back(n % 3 ? "null" : "{}");
        }
        toks.insert(toks.end() - 1, u.begin(), u.end());
        c.count("giant unknown values");
    }
    else if (r.chance(30))
    {
        // a deep value
        int n = r.chance(60) ? r.range(1, 60) : r.range(60, 380);
        Tokens u = { "," , spell_string(r, unknown_name(r, d), 10), ":" };
        if (toks.size() == 2) u.erase(u.begin());
        std::vector<int> kinds;
        for (int i = 0; i < n; ++i)
        {
            bool obj = r.chance(50); kinds.push_back(obj);
            u.push_back(obj ? "{" : "[");
            if (obj) { if (r.chance(20)) { u.push_back("\"p\""); u.push_back(":"); gen_json(r, 1, u); u.push_back(","); } u.push_back("\"k\""); u.push_back(":"); }
            else if (r.chance(20)) { gen_json(r, 1, u); u.push_back(","); }
        }
        if (r.chance(80)) gen_json(r, 1, u); else { u.push_back("{"); u.push_back("}"); }
        for (int i = n; i-- > 0; ) u.push_back(kinds[(size_t) i] ? "}" : "]");
        toks.insert(toks.end() - 1, u.begin(), u.end());
        c.count("deep values"); if (n > 100) c.count("deeper than 100");
    }
    std::string text = layout(r, toks);
    RefResult ref = ref_read(d, text);
    if (!ref.ok || (!msg_equal(d, v, ref.val) && !ref.value_unspecified)) { printf("HARNESS oracle disagrees with the writer: %s\n", clip(text).c_str()); exit(3); }
    c.seen(d.name + " " + text, true); c.count("documents with unknown members");
    ObjP a(t.make());
    InChan ch = rin(r);
    if (!des(*a, ch, text, p)) return c.fail("unknown member makes reading fail", d.name + ": " + clip(text) + ": " + estr(p.error));
    Val got = a->get();
    if (!msg_equal(d, v, got)) return c.fail("unknown member has an effect", d.name + ": " + clip(text) + ": " + diff(d, v, got));
    // now an unknown member with a broken value
    Tokens bad = { spell_string(r, unknown_name(r, d), 10), ":" }, val;
    gen_json(r, 3, val);
    mutate(r, val);
    bad.insert(bad.end(), val.begin(), val.end());
    Tokens doc; Style plain = s; plain.unknown = 0;
    spell_msg(r, d, v, plain, doc);
    bool front = r.chance(50);
    if (front) { if (doc.size() > 2) bad.push_back(","); doc.insert(doc.begin() + 1, bad.begin(), bad.end()); }
    else { if (doc.size() > 2) bad.insert(bad.begin(), ","); doc.insert(doc.end() - 1, bad.begin(), bad.end()); }
    text = layout(r, doc);
    ref = ref_read(d, text);
    if (ref.unspecified) { c.count("unspecified"); return; }
    ObjP b(t.make());
    p = random_params(r);
    bool ok = des(*b, rin(r), text, p);
    c.seen(d.name + " " + text, true);
    c.count(ref.ok ? "still valid after the edit" : "documents with a broken unknown value");
    if (ok && !ref.ok) return c.fail("broken unknown value accepted", d.name + ": " + clip(text) + ": " + ref.why);
    if (!ok && ref.ok) return c.fail("unknown member makes reading fail", d.name + ": " + clip(text) + ": " + estr(p.error));
    if (ok && !ref.value_unspecified && !msg_equal(d, ref.val, b->get())) return c.fail("unknown member has an effect", d.name + ": " + clip(text) + ": " + diff(d, ref.val, b->get()));
}

//
// C05, C06: documents with mistakes
//
static std::string broken_text( Ctx &c, const MsgDesc *d, const Arr *a )
{
    Rng &r = c.r;
    GenOpt o; o.presence = r.pick(std::vector<int>{ 0, 10, 30, 60 }); o.max_list = 3; o.max_str = 8;
    Style s = random_style(r); s.null_elems = r.pick(std::vector<int>{ 0, 20 });
    s.unknown = r.pick(std::vector<int>{ 0, 0, 20 });
    Tokens toks;
    if (d) { Val v = gen_msg(r, *d, o); strip_transient(*d, v); spell_msg(r, *d, v, s, toks); }
    else spell_list(r, a->kind, a->msg, gen_list(r, *a, o), s, toks);
    int n = r.chance(70) ? 1 : r.range(0, 3);
    if (r.chance(15) && d && !d->fields.empty())
    {
        // a value of another type or a number that does not fit in a known member
        auto &f = r.pick(d->fields);
        Tokens val; gen_json(r, 2, val);
        if (toks.size() > 2) val.push_back(",");
        val.insert(val.begin(), { spell_string(r, f.json, 0), ":" });
        toks.insert(toks.begin() + 1, val.begin(), val.end());
        n = 0;
    }
    for (int i = 0; i < n && !toks.empty(); ++i) mutate(r, toks);
    // far from the start: beyond the range of small counters, in lines or in columns
    bool far = c.index % 600 == 5;
    if (far || r.chance(2))
    {
        static const size_t SMALL[] = { 126, 127, 128, 254, 255, 256, 300, 1023, 4095, 4096 }, LARGE[] = { 32766, 32767, 32768, 65534, 65535, 65536, 70000, 131072 };
        size_t k = far ? LARGE[r.below(8)] : SMALL[r.below(10)];
        std::string pad;
        switch (r.below(3))
        {
            case 0: pad.assign(k, '\n'); break;
            case 1: pad.assign(k, ' '); break;
            default: for (size_t i = 0; i < k; ++i) pad += i % 200 == 199 ? '\n' : i % 3 ? ' ' : '\t';
        }
        toks.insert(toks.begin() + (long) r.below(toks.size() + 1), pad);
        c.count(far ? "mistakes beyond 32767 characters" : "mistakes beyond 126 characters");
    }
    std::string text = layout(r, toks);
    if (r.chance(25)) text = mutate_bytes(r, text);
    return text;
}

static bool truncated_variants( Ctx &c ) { return c.r.chance(4); }

template<typename F> static void for_broken( Ctx &c, F check )
{
    Rng &r = c.r;
    if (use_array(c, 15))
    {
        auto &t = r.pick(c.schema->arrays);
        ArrP a(t.make());
        std::string text = broken_text(c, nullptr, a.get());
        RefResult ref = ref_read_array(a->kind, a->msg, text);
        P p = random_params(r, false);
        bool ok = des(*a, (InChan) r.below(4), text, p);
        Val got; got.list = a->get();
        check(t.name, text, ref, ok, p, [&]() { return list_equal(*a, got.list, ref.val.list); }, [&]() { return show_list(*a, got.list) + " versus " + show_list(*a, ref.val.list); });
        return;
    }
    auto &t = c.type();
    const MsgDesc &d = *t.desc;
    auto one = [&]( const std::string &text )
    {
        RefResult ref = ref_read(d, text);
        ObjP a(t.make());
        P p = random_params(r, false);
        bool ok = des(*a, rin(r), text, p);
        Val got = a->get();
        check(d.name, text, ref, ok, p, [&]() { return msg_equal(d, got, ref.val); }, [&]() { return diff(d, ref.val, got); });
    };
    if (truncated_variants(c))
    {
        // every truncation of a valid document
        GenOpt o; o.presence = 40; o.max_list = 2; o.max_str = 5;
        Val v = gen_msg(r, d, o); strip_transient(d, v);
        Tokens toks; spell_msg(r, d, v, random_style(r), toks);
        std::string text = layout(r, toks);
        for (size_t i = 0; i < text.size() && i < 400; ++i) one(text.substr(0, i));
        c.count("documents truncated at every byte");
        return;
    }
    one(broken_text(c, &d, nullptr));
}

static void mon_c05( Ctx &c )
{
    for_broken(c, [&]( const std::string &name, const std::string &text, const RefResult &ref, bool ok, const P &, std::function<bool()> same, std::function<std::string()> how ) {
        if (ref.unspecified) { c.count("unspecified"); return; }
        c.seen(name + " " + text, !ref.ok);
        c.count(ref.ok ? "still valid after the edit" : "malformed: " + ref.why);
        if (ok && !ref.ok) return c.fail("malformed text accepted", name + ": " + clip(text) + ": " + ref.why + " at " + std::to_string(ref.line) + ":" + std::to_string(ref.column));
        if (ok && !ref.value_unspecified && !same()) c.fail("read wrong", name + ": " + clip(text) + ": " + how());
    });
}

static void mon_c06( Ctx &c )
{
    Rng &r = c.r;
    for_broken(c, [&]( const std::string &name, const std::string &text, const RefResult &ref, bool ok, const P &p, std::function<bool()>, std::function<std::string()> ) {
        if (ref.unspecified || ref.ok != ok)
        {
            c.count("not comparable");
            if (!ok && (p.error.code == 0 || p.error.message.empty())) c.fail("failure without error", name + ": " + clip(text) + ": " + estr(p.error));
            return;
        }
        c.seen(name + " " + text, !ok);
        if (ok)
        {
            c.count("successes");
            if (p.error.code != 0 || !p.error.message.empty() || p.error.line != 0 || p.error.column != 0) c.fail("error not cleared", name + ": " + clip(text) + ": " + estr(p.error));
            return;
        }
        c.count("code " + std::to_string(p.error.code) + " reported");
        std::string codes; for (int k : ref.codes) codes += (codes.empty() ? "" : " or ") + std::to_string(k);
        std::string where = " (expected code " + codes + " at " + std::to_string(ref.line) + ":" + std::to_string(ref.column) + ": " + ref.why + ")";
        if (p.error.code == 0) return c.fail("failure without error", name + ": " + clip(text) + ": " + estr(p.error) + where);
        if (p.error.message.empty()) return c.fail("failure without message", name + ": " + clip(text) + ": " + estr(p.error) + where);
        if (p.error.line != ref.line || p.error.column != ref.column) return c.fail("wrong position", name + ": " + clip(text) + ": " + estr(p.error) + where);
        if (!ref.codes.count(p.error.code)) return c.fail("wrong kind of error", name + ": " + clip(text) + ": " + estr(p.error) + where);
        if (ref.line > 1) c.count("errors after the first line");
    });
    // a string with line breaks and other control characters where none is expected: the mistake is where it starts
    auto &ty = c.type();
    std::vector<size_t> others;
    for (size_t i = 0; i < ty.desc->fields.size(); ++i) if (!ty.desc->fields[i].transient && (ty.desc->fields[i].repeated || (ty.desc->fields[i].kind != K_STRING && ty.desc->fields[i].kind != K_BYTES))) others.push_back(i);
    if (!others.empty() && r.chance(30))
    {
        auto &f = ty.desc->fields[r.pick(others)];
        static const char *RAW[] = { "\n", "\r\n", "\t", "\x01", "\n\n", "\x7F", "\n  " };
        std::string pre = layout(r, Tokens{ "{", spell_string(r, f.json, 20), ":" }), str = "\"";
        for (int n = r.range(1, 4); n > 0; --n) { str += RAW[r.below(7)]; str += gen_utf8(r, 3).substr(0, 0) + (r.chance(50) ? "ab" : "\\n"); }
        str += "\"";
        int line = 1, column = 1;
        for (char ch : pre) { if (ch == '\n') { ++line; column = 1; } else ++column; }
        ObjP a(ty.make()); P p = random_params(r, false);
        std::string text = pre + str + layout(r, Tokens{ "}" });
        bool ok = des(*a, rin(r), text, p);
        c.seen(text, true); c.count("strings over several lines");
        if (ok) return c.fail("malformed text accepted", ty.desc->name + ": " + clip(text));
        if (p.error.line != line || p.error.column != column) return c.fail("wrong position", ty.desc->name + ": " + clip(text) + ": " + estr(p.error) + " (expected " + std::to_string(line) + ":" + std::to_string(column) + ")");
        if (p.error.code == 0 || p.error.message.empty()) return c.fail("failure without error", clip(text) + ": " + estr(p.error));
    }
    // a serialization that fails names its error, and the next one clears it; arrays too
    if (use_array(c, 50))
    {
        auto &at = r.pick(c.schema->arrays);
        ArrP l(at.make()); GenOpt g; g.finite = r.chance(70); g.utf8_only = r.chance(70);
        std::vector<Val> v = gen_list(r, *l, g); l->set(v);
        P p = random_params(r, false); std::string out;
        bool expect = true;
        for (auto &e : v) if (!elem_writable(l->kind, l->msg, e, p.ascii)) expect = false;
        bool ok = ser(*l, (OutChan) r.below(2), out, p);
        c.count(ok ? "arrays written" : "arrays not written");
        if (ok && (p.error.code != 0 || !p.error.message.empty() || p.error.line != 0 || p.error.column != 0)) return c.fail("error not cleared", "serializing " + at.name + ": " + estr(p.error));
        if (!ok && !expect && (p.error.code == 0 || p.error.message.empty() || p.error.message == "stale error")) return c.fail("failure without error", "serializing " + at.name + ": " + estr(p.error));
    }
    // serialization clears the error too
    auto &t = c.type();
    ObjP a(t.make());
    GenOpt o; o.utf8_only = true; o.presence = 30;
    if (r.chance(20)) { o.utf8_only = false; o.finite = false; o.presence = 70; }
    Val v = gen_msg(r, *t.desc, o);
    a->set(v);
    P p = random_params(r, false); std::string out;
    if (!writable(*t.desc, v, p.ascii))
    {
        c.count("messages not written");
        if (!ser(*a, rout(r), out, p) && (p.error.code == 0 || p.error.message.empty() || p.error.message == "stale error")) c.fail("failure without error", "serializing " + show(*t.desc, v) + ": " + estr(p.error));
    }
    else if (ser(*a, rout(r), out, p) && (p.error.code != 0 || !p.error.message.empty() || p.error.line != 0 || p.error.column != 0)) c.fail("error not cleared", "serializing " + t.desc->name + ": " + estr(p.error));
}

//
// C08
//
static void mon_c08( Ctx &c )
{
    Rng &r = c.r;
    P p = random_params(r);
    GenOpt o; o.presence = r.pick(std::vector<int>{ 0, 10, 50, 90 }); o.max_list = 4; o.max_str = 10; o.null_elems = true; o.finite = r.chance(95); o.huge = true;
    static const char *PREFIX[] = { "", "", "x", "{\"prefix\":1}", "\n" };
    bool array = use_array(c, 20);
    const MsgDesc *d = nullptr;
    ObjP a; ArrP l; std::string what, text;
    std::function<bool(OutChan, std::string&, P&, ChanInfo&)> write;
    size_t outs;
    if (array)
    {
        auto &t = r.pick(c.schema->arrays);
        l.reset(t.make()); std::vector<Val> v = gen_list(r, *l, o); l->set(v);
        what = t.name + " " + show_list(*l, v) + " " + pstr(p);
        write = [&]( OutChan ch, std::string &out, P &q, ChanInfo &i ) { return l->ser(ch, out, q, i); };
    }
    else
    {
        auto &t = c.type(); d = t.desc;
        a.reset(t.make()); Val v = gen_case(c, *d, o); a->set(v);
        what = d->name + " " + show(*d, v) + " " + pstr(p);
        write = [&]( OutChan ch, std::string &out, P &q, ChanInfo &i ) { return a->ser(ch, out, q, i); };
    }
    c.seen(what, true); c.count(array ? "arrays" : "messages");
    bool first = true, ok0 = false; Err e0;
    static const OutChan MSG_OUT[] = { OUT_STRING, OUT_VECTOR, OUT_STREAM, OUT_USER }, ARR_OUT[] = { OUT_STRING, OUT_VECTOR, OUT_USER };
    outs = array ? 3 : 4;
    for (size_t k = 0; k < outs; ++k)
    {
        OutChan ch = array ? ARR_OUT[k] : MSG_OUT[k];
        std::string prefix = PREFIX[r.below(5)], out = prefix;
        P q = p; ChanInfo info;
        if (ch == OUT_STREAM && r.chance(60)) { info.format = r.below(65536); c.count("streams set up for other things"); }
        bool ok = write(ch, out, q, info);
        c.count("outputs compared");
        if (info.threw) return c.fail("exception", what + ": " + info.what);
        if (info.flags_changed) return c.fail("stream flags changed", what);
        if (out.compare(0, prefix.size(), prefix) != 0) return c.fail("output not appended", what + ": channel " + std::to_string(ch) + ": " + clip(out));
        out.erase(0, prefix.size());
        if (first) { first = false; text = out; ok0 = ok; e0 = q.error; continue; }
        if (ok != ok0 || out != text) return c.fail("outputs differ", what + ": channel " + std::to_string(ch) + ": " + clip(text) + " versus " + clip(out));
        if (!p.null && !(q.error == e0)) return c.fail("output errors differ", what + ": channel " + std::to_string(ch) + ": " + estr(e0) + " versus " + estr(q.error));
    }
    if (!array && ok0)
    {
        // fixed-size buffers
        std::vector<size_t> sizes = { 0, 1, text.size(), text.size() + 1, text.size() + 7, r.below(text.size() + 1), text.size() - 1 };
        for (size_t n : sizes)
        {
            std::unique_ptr<char[]> buf(new char[n]);
            memset(buf.get(), 0x5A, n);
            P q = p;
            bool ok = a->ser_buf(buf.get(), n, q);
            c.count("buffers checked");
            size_t m = std::min(n, text.size());
            if (n >= text.size() && !ok) return c.fail("buffer output failed", what + ": buffer of " + std::to_string(n));
            if (memcmp(buf.get(), text.data(), m) != 0) return c.fail("buffer content", what + ": buffer of " + std::to_string(n) + ": " + clip(std::string(buf.get(), n)));
            for (size_t i = m; i < n; ++i) if (buf[i] != 0x5A) return c.fail("buffer content", what + ": byte " + std::to_string(i) + " after the text was written in a buffer of " + std::to_string(n));
        }
    }
    // inputs
    std::string in = ok0 && r.chance(40) ? text : broken_text(c, d, l.get());
    if (r.chance(20)) in += trailing(r);
    first = true; bool okf = false; Val v0; std::vector<Val> l0; Err ef;
    for (int k = 0; k < IN_COUNT; ++k)
    {
        InChan ch = (InChan) k;
        if (array && ch == IN_STREAM) continue;
        P q; q.error = stale_error(r); ChanInfo info;
        if (ch == IN_STREAM && r.chance(60)) info.format = r.below(65536);
        bool ok; Val v; std::vector<Val> lv;
        if (array) { ArrP b(l->fresh()); ok = b->des(ch, in.data(), in.size(), q, info); lv = b->get(); }
        else { ObjP b(a->fresh()); ok = b->des(ch, in.data(), in.size(), q, info); v = b->get(); }
        c.count("inputs compared");
        if (info.threw) return c.fail("exception", clip(in) + ": " + info.what);
        if (info.flags_changed) return c.fail("stream flags changed", clip(in));
        if (first) { first = false; okf = ok; v0 = v; l0 = lv; ef = q.error; continue; }
        if (ok != okf) return c.fail("inputs differ", "channel " + std::to_string(k) + ": " + clip(in) + (ok ? " accepted" : " rejected: " + estr(q.error)));
        if (array ? !list_equal(*l, lv, l0) : !msg_equal(*d, v, v0)) return c.fail("inputs differ", "channel " + std::to_string(k) + ": " + clip(in) + ": " + (array ? "" : diff(*d, v0, v)));
        if (!(q.error == ef)) return c.fail("input errors differ", "channel " + std::to_string(k) + ": " + clip(in) + ": " + estr(ef) + " versus " + estr(q.error));
    }
}

//
// C09
//
static void mon_c09( Ctx &c )
{
    Rng &r = c.r;
    auto &t = c.type();
    const MsgDesc &d = *t.desc;
    const int N = 3;
    std::vector<ObjP> o; std::vector<Val> m;
    for (int i = 0; i < N; ++i) { o.emplace_back(t.make()); m.push_back(msg_fresh(d)); }
    GenOpt g; g.max_list = 3; g.max_str = 6; g.null_elems = true; g.presence = r.pick(std::vector<int>{ 10, 50, 100 });
    std::string log;
    int steps = r.range(5, 25);
    for (int s = 0; s < steps; ++s)
    {
        size_t i = r.below(N), j = r.below(N);
        size_t f = d.fields.empty() ? 0 : r.below(d.fields.size());
        int op = (int) r.below(d.fields.empty() ? 9 : 17);
        std::string name;
        unsigned how = (unsigned) r.below(12);
        switch (op)
        {
            case 0: { name = "construct copy"; ObjP n(o[j]->copy()); o[i] = std::move(n); m[i] = m[j]; break; }
            case 1: name = "assign"; o[i]->assign(*o[j]); m[i] = m[j]; break;
            case 2: { if (i == j) continue; name = "construct by moving"; ObjP n(o[j]->move()); o[i] = std::move(n); m[i] = m[j]; o[j]->clear(); m[j] = msg_fresh(d); break; }
            case 3: { if (i == j) continue; name = "assign by moving"; o[i]->assign_move(*o[j]); m[i] = m[j]; o[j]->clear(); m[j] = msg_fresh(d); break; }
            case 4: name = "swap"; o[i]->swap(*o[j]); std::swap(m[i], m[j]); break;
            case 5: name = "clear"; o[i]->clear(); m[i] = msg_fresh(d); break;
            case 6: name = "assign itself"; j = i; o[i]->assign(*o[i]); break;
            case 7: { name = "fill"; ObjP n(t.make()); Val v = gen_msg(r, d, g); n->set(v); o[i] = std::move(n); m[i] = v; break; }
            case 8: { name = "replace by new"; ObjP n(t.make()); o[i] = std::move(n); m[i] = msg_fresh(d); break; }
            case 9: case 10: case 11:
            {
                name = "set " + d.fields[f].name + " (" + std::to_string(how) + ")";
                Val v = gen_field(r, d.fields[f], g, true);
                if (r.chance(15)) { // default looking values
                    auto &fd = d.fields[f];
                    if (!fd.repeated && fd.kind != K_MSG) { v = Val(); v.present = fd.kind != K_BYTES; }
                }
                o[i]->set_field(f, v, how); m[i].list[f] = v; break;
            }
            case 12: name = "clear " + d.fields[f].name + " (" + std::to_string(how) + ")"; o[i]->clear_field(f, how); m[i].list[f] = msg_fresh(d).list[f]; break;
            case 13: name = "copy " + d.fields[f].name + " (" + std::to_string(how) + ")"; o[i]->copy_field(f, *o[j], how); m[i].list[f] = m[j].list[f]; break;
            case 14: name = "swap " + d.fields[f].name; if (i == j) continue; o[i]->swap_field(f, *o[j]); std::swap(m[i].list[f], m[j].list[f]); break;
            case 16: if (!m[i].list[f].present && !d.fields[f].repeated && d.fields[f].kind < K_BYTES) continue; name = "alias " + d.fields[f].name + " (" + std::to_string(how) + ")"; o[i]->alias_field(f, how); break;
            case 15: // change in place a copy: must not change the source
            {
                name = "copy and change " + d.fields[f].name;
                ObjP n(o[i]->copy()); Val v = gen_field(r, d.fields[f], g, true);
                n->set_field(f, v, how); break;
            }
        }
        log += std::to_string(i) + "," + std::to_string(j) + " " + name + "; ";
        c.count("operation " + name.substr(0, name.find(' ', name.find(' ') == std::string::npos ? 0 : 0)));
        // observations
        for (int k = 0; k < N; ++k)
        {
            Val v = o[(size_t) k]->get();
            if (!msg_equal(d, m[(size_t) k], v)) return c.fail("contents after " + name.substr(0, name.find(' ')), d.name + " object " + std::to_string(k) + " after: " + log + ": " + diff(d, m[(size_t) k], v));
            if (o[(size_t) k]->empty() != msg_empty(d, m[(size_t) k])) return c.fail("empty", d.name + " object " + std::to_string(k) + " after: " + log + ": empty() is " + (o[(size_t) k]->empty() ? "true" : "false") + " for " + show(d, v));
        }
        for (size_t k = 0; k < d.fields.size(); ++k)
        {
            if (o[i]->field_is_empty(k) != field_empty(d.fields[k], m[i].list[k])) return c.fail("field empty", d.name + " field " + d.fields[k].name + " after: " + log);
            int cmp = o[i]->cmp_field(k, *o[j]);
            if (cmp >= 0)
            {
                bool e = val_equal(d.fields[k], m[i].list[k], m[j].list[k]);
                if (cmp != (e ? 1 : 2)) return c.fail("field comparison", d.name + " field " + d.fields[k].name + " after: " + log + " comparison gives " + std::to_string(cmp));
            }
        }
        for (size_t k = 0; k < d.fields.size(); ++k)
        {
            // with plain values; what an absent field is compared to such a value is left open
            auto &fd = d.fields[k];
            if (fd.repeated || fd.kind >= K_BYTES || !m[i].list[k].present) continue;
            Val v = r.chance(40) ? m[i].list[k] : r.chance(50) && m[j].list[k].present ? m[j].list[k] : gen_field(r, fd, g, true);
            if (!v.present) continue;
            int cmp = o[i]->cmp_plain(k, v, how);
            if (cmp >= 0 && cmp != (val_equal(fd, m[i].list[k], v) ? 1 : 2)) return c.fail("comparison with a plain value", d.name + " field " + fd.name + " after: " + log + " comparison gives " + std::to_string(cmp));
            if (cmp >= 0) c.count("fields compared with plain values");
        }
        for (int k = 0; k < N; ++k)
        {
            bool e = msg_equal(d, m[i], m[(size_t) k]);
            if (o[i]->eq(*o[(size_t) k]) != e || o[i]->equal(*o[(size_t) k]) != e || o[i]->ne(*o[(size_t) k]) == e) return c.fail("comparison", d.name + " objects " + std::to_string(i) + " and " + std::to_string(k) + " after: " + log + ": " + show(d, m[i]) + " and " + show(d, m[(size_t) k]));
        }
        // one field changed makes messages different
        if (!d.fields.empty())
        {
            ObjP n(o[i]->copy()); Val v = gen_field(r, d.fields[f], g, r.chance(70)); Val w = m[i]; w.list[f] = v;
            if (r.chance(50) && w.list[f].present && d.fields[f].kind == K_STRING && !d.fields[f].repeated) { w.list[f].s = m[i].list[f].s; v = w.list[f]; } // differs in presence only
            n->clear_field(f, 0); n->set_field(f, v, how);
            bool e = msg_equal(d, m[i], w);
            if (n->eq(*o[i]) != e || n->ne(*o[i]) == e || o[i]->eq(*n) != e) return c.fail("comparison", d.name + " after: " + log + ": field " + d.fields[f].name + ": " + diff(d, m[i], w));
            if (!e) c.count("unequal pairs compared");
            c.count("pairs compared");
        }
    }
    c.seen(d.name + ": " + log, steps > 0 && !d.fields.empty());
}

//
// C10
//
static void mon_c10( Ctx &c )
{
    Rng &r = c.r;
    auto &t = c.type();
    const MsgDesc &d = *t.desc;
    std::vector<size_t> nums;
    for (size_t i = 0; i < d.fields.size(); ++i) if (d.fields[i].kind <= K_UINT64 && !d.fields[i].transient) nums.push_back(i);
    if (nums.empty()) return;
    for (int k = 0; k < 6; ++k)
    {
        size_t i = r.pick(nums); auto &f = d.fields[i];
        std::string num = gen_numeral(r);
        // near the limits of this very type
        if (r.chance(40))
        {
            GenOpt o; Val v = gen_scalar(r, f.kind, o);
            num = spell_number(r, f.kind, v, 50);
        }
        std::string text = "{" + spell_string(r, f.json, 0) + ":" + (f.repeated ? "[" + num + "," + num + "]" : num) + "}";
        RefResult ref = ref_read(d, text);
        if (ref.unspecified) { c.count("unspecified"); continue; }
        ObjP a(t.make()); P p = random_params(r);
        bool ok = des(*a, rin(r), text, p);
        Val got = a->get();
        c.seen(f.name + " = " + num, true);
        c.count(ref.ok ? "numbers that fit" : "numbers that do not fit");
        std::string what = d.name + "." + f.name + " = " + num;
        if (ok && !ref.ok) return c.fail("number stored that does not fit", what + ": " + show(d, got));
        if (!ok && ref.ok) return c.fail("number rejected that fits", what + ": " + estr(p.error));
        if (ok)
        {
            bool same = msg_equal(d, ref.val, got);
            if (!same && ref.value_unspecified) // two roundings of a float are acceptable
            {
                same = true;
                Val x, alt; number_fit(num, f.kind, x, alt);
                auto near = [&]( const Val &v ) { return v.present && (v.d == x.d || v.d == alt.d); };
                if (f.repeated) for (auto &e : got.list[i].list) same = same && near(e);
                else same = near(got.list[i]);
            }
            if (!same) return c.fail("different number stored", what + ": " + diff(d, ref.val, got));
        }
        // writing: every value is restored
        GenOpt o; Val v = msg_fresh(d); v.list[i] = gen_field(r, f, o, true);
        ObjP b(t.make()), e(t.make()); b->set(v);
        std::string out; P q = random_params(r); P q2 = q;
        if (!ser(*b, rout(r), out, q)) return c.fail("number not written", show(d, v) + ": " + estr(q.error));
        if (!des(*e, rin(r), out, q2)) return c.fail("written number not read", show(d, v) + ": " + clip(out) + ": " + estr(q2.error));
        if (!msg_equal(d, v, e->get())) return c.fail("written number not restored", clip(out) + ": " + diff(d, v, e->get()));
        RefResult back = ref_read(d, out);
        if (!back.ok || (!back.value_unspecified && !msg_equal(d, v, back.val))) return c.fail("different number written", show(d, v) + ": " + clip(out));
        c.count("values written and read");
    }
}

//
// C11. Enumerates all characters (by case index), byte pairs and surrogate units; the rest at random.
//
static const FieldDesc *string_field( Ctx &c, const Schema::Type *&t, size_t &idx )
{
    for (int k = 0; k < 20; ++k)
    {
        t = &c.type();
        std::vector<size_t> f;
        for (size_t i = 0; i < t->desc->fields.size(); ++i) if (t->desc->fields[i].kind == K_STRING && !t->desc->fields[i].transient) f.push_back(i);
        if (f.empty()) continue;
        idx = c.r.pick(f);
        return &t->desc->fields[idx];
    }
    return nullptr;
}

static bool string_written( Ctx &c, const Schema::Type &t, size_t idx, const std::string &s )
{
    Rng &r = c.r;
    const MsgDesc &d = *t.desc; auto &f = d.fields[idx];
    Val v = msg_fresh(d);
    Val e; e.present = true; e.s = s;
    if (f.repeated) v.list[idx].list.push_back(e); else v.list[idx] = e;
    ObjP a(t.make()); a->set(v);
    bool valid = valid_utf8(s);
    for (int ascii = 0; ascii < 2; ++ascii)
    {
        P p; p.ascii = ascii; std::string out;
        bool ok = ser(*a, rout(r), out, p);
        std::string what = std::string(ascii ? "escaped " : "plain ") + clip(s);
        if (ascii && !valid)
        {
            c.count("ill-formed strings refused");
            if (ok) { c.fail("ill-formed UTF-8 escaped", what + ": " + clip(out)); return false; }
            if (p.error.code == 0) { c.fail("failure without error code", what); return false; }
            continue;
        }
        if (!ok) { c.fail("string not written", what + ": " + estr(p.error)); return false; }
        JVal j; std::string why;
        TextCheck tc = { false, "" };
        if (!json_parse(out, j, why)) { c.fail("text is wrong", what + ": " + clip(out) + ": " + why); return false; }
        if (!text_says(d, v, j, tc)) { c.fail("string changed", what + ": " + clip(out) + ": " + tc.why); return false; }
        if (ascii) for (unsigned char ch : out) if (ch >= 0x80) { c.fail("text is not ASCII", what + ": " + clip(out)); return false; }
        ObjP b(t.make()); P q;
        if (!des(*b, rin(r), out, q)) { c.fail("written string not read", what + ": " + clip(out) + ": " + estr(q.error)); return false; }
        if (!msg_equal(d, v, b->get())) { c.fail("string not restored", what + ": " + clip(out) + ": " + diff(d, v, b->get())); return false; }
    }
    return true;
}

static void mon_c11( Ctx &c )
{
    Rng &r = c.r;
    const Schema::Type *t; size_t idx;
    const FieldDesc *f = string_field(c, t, idx);
    if (!f) return;
    const MsgDesc &d = *t->desc;
    uint64_t n = c.index;
    // 1. characters: 256 per case, all of them in 4352 cases
    {
        std::string s; uint32_t first = (uint32_t) ((n % 4352) * 256); uint64_t count = 0;
        std::string esc = "\"";
        for (uint32_t cp = first; cp < first + 256; ++cp)
        {
            if (cp >= 0xD800 && cp <= 0xDFFF) continue;
            s += utf8(cp); ++count;
            char tmp[16];
            if (cp < 0x10000) snprintf(tmp, sizeof(tmp), r.chance(50) ? "\\u%04x" : "\\u%04X", cp);
            else snprintf(tmp, sizeof(tmp), "\\u%04x\\u%04X", 0xD800 + ((cp - 0x10000) >> 10), 0xDC00 + ((cp - 0x10000) & 0x3FF));
            esc += tmp;
        }
        esc += "\"";
        c.count("characters written and read", count);
        c.seen("characters from " + std::to_string(first), count > 0);
        if (!string_written(c, *t, idx, s)) return;
        // reading escapes
        std::string text = "{" + spell_string(r, f->json, 0) + ":" + (f->repeated ? "[" + esc + "]" : esc) + "}";
        ObjP a(t->make()); P p;
        Val v = msg_fresh(d); Val e; e.present = true; e.s = s;
        if (f->repeated) v.list[idx].list.push_back(e); else v.list[idx] = e;
        if (!des(*a, rin(r), text, p)) return c.fail("escapes rejected", clip(text) + ": " + estr(p.error));
        if (!msg_equal(d, v, a->get())) return c.fail("escapes read wrong", clip(text) + ": " + diff(d, v, a->get()));
        c.count("escapes read", count);
    }
    // 2. single UTF-16 units and pairs that are not pairs
    for (int k = 0; k < 24; ++k)
    {
        char tmp[32]; uint32_t a = 0xD800 + (uint32_t) r.below(0x800), b = r.chance(50) ? 0xD800 + (uint32_t) r.below(0x800) : (uint32_t) r.below(0x10000);
        std::string esc = "\"";
        if (r.chance(40))
        {
            // runs of three to five: halves of pairs around something that leaves one of them pending
            int m = r.range(3, 5);
            for (int q = 0; q < m; ++q)
            {
                switch (r.below(7))
                {
                    case 0: case 1: snprintf(tmp, sizeof(tmp), "\\u%04x", 0xD800 + (uint32_t) r.below(0x400)); break;
                    case 2: case 3: snprintf(tmp, sizeof(tmp), "\\u%04X", 0xDC00 + (uint32_t) r.below(0x400)); break;
                    case 4: snprintf(tmp, sizeof(tmp), "\\u%04x\\u%04x", 0xD800 + (uint32_t) r.below(0x400), 0xDC00 + (uint32_t) r.below(0x400)); break;
                    case 5: snprintf(tmp, sizeof(tmp), "\\u%04x", r.chance(50) ? (uint32_t) r.below(0xD800) : 0xE000 + (uint32_t) r.below(0x2000)); break;
                    default: snprintf(tmp, sizeof(tmp), "%s", r.chance(50) ? "\\n" : r.chance(50) ? "k" : "\xC3\xA9"); break;
                }
                esc += tmp;
            }
            tmp[0] = 0;
        }
        else switch (r.below(4))
        {
            case 0: snprintf(tmp, sizeof(tmp), "\\u%04x", a); break;
            case 1: snprintf(tmp, sizeof(tmp), "\\u%04x\\u%04x", a, b); break;
            case 2: snprintf(tmp, sizeof(tmp), "\\u%04x%s", a, r.chance(50) ? "x" : "\\n"); break;
            default: snprintf(tmp, sizeof(tmp), "%s\\u%04x\\u%04x", r.chance(50) ? "a" : "", b, a); break;
        }
        esc += tmp; if (r.chance(30)) esc += "z"; esc += "\"";
        std::string text = "{" + spell_string(r, f->json, 0) + ":" + (f->repeated ? "[" + esc + "]" : esc) + "}";
        RefResult ref = ref_read(d, text);
        ObjP o(t->make()); P p;
        bool ok = des(*o, rin(r), text, p);
        c.seen(text, true); c.count(ref.ok ? "surrogate pairs read" : "lone surrogates read");
        if (ok != ref.ok) return c.fail(ok ? "lone surrogate accepted" : "escapes rejected", clip(text) + (ok ? "" : ": " + estr(p.error)));
        if (ok && !msg_equal(d, ref.val, o->get())) return c.fail("escapes read wrong", clip(text) + ": " + diff(d, ref.val, o->get()));
    }
    // escapes with something else in the place of a digit or of the letter
    for (int k = 0; k < 24; ++k)
    {
        static const char NEAR[] = "gG`@/:;+-.xX fF09aAlLuUhHpPzZ\"\\'";
        char tmp[32]; std::string esc = "\"";
        if (r.chance(20)) { static const char L[] = "acdeghijklmopqsvwxyzABFNRTUVX0123456789'`?(){}[]<>|!#$%&*+,-.:;=@^_~ "; esc += "\\"; esc += r.chance(70) ? L[r.below(sizeof(L) - 1)] : (char) r.range(32, 255); }
        else
        {
            snprintf(tmp, sizeof(tmp), "\\u%04x", (uint32_t) r.below(0x10000));
            std::string x = tmp;
            if (r.chance(40)) { snprintf(tmp, sizeof(tmp), "\\u%04x\\u%04x", 0xD800 + (uint32_t) r.below(0x400), 0xDC00 + (uint32_t) r.below(0x400)); x = tmp; }
            char bad = r.chance(70) ? NEAR[r.below(sizeof(NEAR) - 1)] : (char) r.range(32, 255);
            x[x.size() - 1 - r.below(r.chance(70) ? 4 : x.size() - 1)] = bad;
            if (r.chance(20)) x.resize(x.size() - r.below(4));
            esc += x;
        }
        if (r.chance(30)) esc += "z";
        esc += "\"";
        std::string text = "{" + spell_string(r, f->json, 0) + ":" + (f->repeated ? "[" + esc + "]" : esc) + "}";
        RefResult ref = ref_read(d, text);
        if (ref.unspecified) continue;
        ObjP o(t->make()); P p;
        bool ok = des(*o, rin(r), text, p);
        c.seen(text, true); c.count(ref.ok ? "odd escapes read" : "wrong escapes read");
        if (ok != ref.ok) return c.fail(ok ? "wrong escape accepted" : "escapes rejected", clip(text) + (ok ? "" : ": " + estr(p.error)));
        if (ok && !ref.value_unspecified && !msg_equal(d, ref.val, o->get())) return c.fail("escapes read wrong", clip(text) + ": " + diff(d, ref.val, o->get()));
    }
    // strings beyond the range of 16-bit counters, and characters that cross every such limit
    if (c.index % 64 < 2)
    {
        static const size_t SIZES[] = { 4095, 16383, 32766, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131071 };
        size_t n = SIZES[(c.index / 64 + c.index % 64 * 5) % (sizeof(SIZES) / sizeof(*SIZES))];
        std::string s;
        static const char *UNITS[] = { "a", "\n", "\xC3\xA9", "\xE4\xB8\xAD", "\xF0\x9F\x98\x80", "\x80", "\x01", "\"" };
        const char *unit = UNITS[r.below(8)]; bool mixed = r.chance(50);
        s.append(r.below(4), 'p');
        while (s.size() < n) s += mixed ? UNITS[r.below(8)] : unit;
        c.count("giant strings");
        c.seen("giant " + std::to_string(n) + unit, true);
        if (!string_written(c, *t, idx, s)) return;
    }
    // 3. byte pairs (all of them in 4096 cases of 16), and random ill-formed strings
    for (int k = 0; k < 16; ++k)
    {
        uint32_t pair = (uint32_t) ((n * 16 + (uint64_t) k) % 65536);
        std::string s; s += (char) (pair >> 8); s += (char) pair;
        static const char *AROUND[] = { "", "a", "\xC3\xA9" };
        s = AROUND[r.below(3)] + s + AROUND[r.below(3)];
        c.count("byte pairs");
        if (!string_written(c, *t, idx, s)) return;
    }
    for (int k = 0; k < 12; ++k)
    {
        std::string s;
        if (r.chance(50)) s = gen_bytes(r, 12);
        else
        {
            // three and four byte sequences around the limits
            static const unsigned char LEAD[] = { 0xE0, 0xE1, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFB, 0xFC, 0xFF, 0xC0, 0xC1, 0xC2, 0xDF, 0x80, 0xBF };
            static const unsigned char TAIL[] = { 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0x00, 0x41, 0x22, 0xFF };
            s += (char) LEAD[r.below(sizeof(LEAD))];
            int m = r.range(0, 4);
            for (int q = 0; q < m; ++q) s += (char) TAIL[r.below(sizeof(TAIL))];
        }
        c.seen(s, true); c.count(valid_utf8(s) ? "well-formed strings" : "ill-formed strings");
        if (!string_written(c, *t, idx, s)) return;
    }
}

//
// C12
//
static void mon_c12( Ctx &c )
{
    Rng &r = c.r;
    const Schema::Type *t = nullptr; std::vector<size_t> fs;
    for (int k = 0; k < 20 && fs.empty(); ++k)
    {
        t = &c.type();
        for (size_t i = 0; i < t->desc->fields.size(); ++i) if (t->desc->fields[i].kind == K_BYTES && !t->desc->fields[i].transient) fs.push_back(i);
    }
    if (fs.empty()) return;
    const MsgDesc &d = *t->desc;
    for (int k = 0; k < 4; ++k)
    {
        size_t idx = r.pick(fs); auto &f = d.fields[idx];
        // all lengths in turn
        size_t len = r.chance(50) ? c.index % 260 : r.below(20);
        if (r.chance(1)) len = 4000 + r.below(3);
        if (k == 0 && c.index % 64 == 0)
        {
            static const size_t SIZES[] = { 32766, 32767, 32768, 49150, 49151, 49152, 65534, 65535, 65536, 65537, 98303, 98304, 131071 };
            len = SIZES[c.index / 64 % (sizeof(SIZES) / sizeof(*SIZES))] + r.below(3);
            c.count("giant values");
        }
        Val v = msg_fresh(d);
        auto bytes = [&]( size_t n ) { Val e; e.present = true; int mode = (int) r.below(4); for (size_t i = 0; i < n; ++i) e.s += (char) (mode == 0 ? 0 : mode == 1 ? 0xFF : mode == 2 ? (int) (i * 37 + c.index) : (int) r.below(256)); return e; };
        if (f.repeated) { int n = r.range(1, 4); for (int i = 0; i < n; ++i) v.list[idx].list.push_back(bytes(i == 0 ? len : r.below(8))); }
        else { v.list[idx] = bytes(len); }
        ObjP a(t->make()); a->set(v);
        std::string out; P p = random_params(r); P q = p;
        std::string what = f.name + " of " + std::to_string(len) + " bytes: " + show(d, v).substr(0, 800);
        c.seen(what, len > 0); c.count("values written");
        if (!ser(*a, rout(r), out, q)) return c.fail("bytes not written", what + ": " + estr(q.error));
        JVal j; std::string why; TextCheck tc = { p.nulls && !p.null, "" };
        if (!json_parse(out, j, why)) return c.fail("text is wrong", what + ": " + clip(out) + ": " + why);
        if (!text_says(d, v, j, tc)) return c.fail("bytes written wrong", what + ": " + clip(out) + ": " + tc.why);
        ObjP b(t->make()); q = p;
        if (!des(*b, rin(r), out, q)) return c.fail("written bytes not read", clip(out) + ": " + estr(q.error));
        if (!msg_equal(d, v, b->get())) return c.fail("bytes not restored", clip(out) + ": " + diff(d, v, b->get()));
        // other spellings and corruptions
        std::string enc = b64_encode(bytes(r.below(10)).s);
        if (r.chance(80))
        {
            static const char FOREIGN[] = "-_ .=\n\t,*%\x80\xFF\0@[`{:/+";
            switch (r.below(9))
            {
                case 0: enc += '='; break;
                case 1: if (!enc.empty()) enc.pop_back(); break;
                case 2: if (!enc.empty()) enc[r.below(enc.size())] = FOREIGN[r.below(sizeof(FOREIGN) - 1)]; break;
                case 3: enc.insert(r.below(enc.size() + 1), 1, FOREIGN[r.below(sizeof(FOREIGN) - 1)]); break;
                case 4: enc.insert(r.below(enc.size() + 1), 1, '='); break;
                case 5: enc = b64_encode(bytes(1).s) + b64_encode(bytes(r.below(5)).s); break;     // padding in the middle
                case 6: if (enc.size() >= 4) enc[enc.size() - 2] = '='; break;
                case 7: enc = std::string(r.below(6), '='); break;
                case 8: while (!enc.empty() && enc.back() == '=') enc.pop_back(); break;           // without padding
            }
        }
        std::string s = spell_string(r, enc, r.chance(30) ? 30 : 0);
        std::string text = "{" + spell_string(r, f.json, 0) + ":" + (f.repeated ? "[" + s + "]" : s) + "}";
        RefResult ref = ref_read(d, text);
        if (ref.unspecified) { c.count("unspecified"); continue; }
        ObjP e(t->make()); P pe;
        bool ok = des(*e, rin(r), text, pe);
        c.seen(text, true); c.count(ref.ok ? "valid base64 read" : "invalid base64 read");
        if (ok != ref.ok) return c.fail(ok ? "invalid base64 accepted" : "valid base64 rejected", clip(text) + (ok ? ": " + show(d, e->get()) : ": " + estr(pe.error)));
        if (ok && !msg_equal(d, ref.val, e->get())) return c.fail("base64 read wrong", clip(text) + ": " + diff(d, ref.val, e->get()));
    }
}

//
// C13
//
static void mon_c13( Ctx &c )
{
    Rng &r = c.r;
    auto &t = c.type();
    const MsgDesc &d = *t.desc;
    if (d.fields.empty()) return;
    GenOpt o; o.presence = r.pick(std::vector<int>{ 30, 100 }); o.max_list = 2; o.max_str = 4; o.utf8_only = true;
    Val v = gen_msg(r, d, o); strip_transient(d, v);
    ObjP a(t.make()); a->set(v);
    P p = random_params(r); P q = p; std::string out;
    c.seen(d.name + " " + show(d, v) + pstr(p), !msg_empty(d, v));
    if (!ser(*a, rout(r), out, q)) return c.fail("serialize failed", show(d, v) + ": " + estr(q.error));
    JVal j; std::string why; TextCheck tc = { p.nulls && !p.null, "" };
    if (!json_parse(out, j, why)) return c.fail("text is wrong", clip(out) + ": " + why);
    if (!text_says(d, v, j, tc)) return c.fail("names are wrong", clip(out) + ": " + tc.why);
    if (p.ascii) for (unsigned char ch : out) if (ch >= 0x80) return c.fail("text is not ASCII", clip(out));
    c.count("members written", j.members.size());
    // reading: each member under its exact name, however the name is spelled
    Style s = random_style(r); s.escapes = r.pick(std::vector<int>{ 0, 50, 100 });
    Tokens toks; spell_msg(r, d, v, s, toks);
    std::string text = layout(r, toks);
    ObjP b(t.make()); q = p;
    if (!des(*b, rin(r), text, q)) return c.fail("names rejected", clip(text) + ": " + estr(q.error));
    if (!msg_equal(d, v, b->get())) return c.fail("names not recognised", clip(text) + ": " + diff(d, v, b->get()));
    // reading under any other name leaves the message empty
    size_t i = r.below(d.fields.size()); auto &f = d.fields[i];
    if (f.transient) return;
    Val one = msg_fresh(d); one.list[i] = gen_field(r, f, o, true);
    Tokens tk; Style plain; plain.order = 0; plain.nulls = 0; plain.empties = false; plain.null_elems = 0; plain.numbers = 0; plain.escapes = 0;
    spell_msg(r, d, one, plain, tk);
    if (tk.size() < 4) return;
    std::vector<std::string> others;
    for (int k = 0; k < 4; ++k) others.push_back(unknown_name(r, d));
    for (auto &g : d.fields) { if (d.find(g.name) < 0) others.push_back(g.name); }
    for (int k = 1; k <= 3; ++k) { std::string n = std::to_string(r.range(0, 70)); if (d.find(n) < 0) others.push_back(n); }
    for (auto &n : others)
    {
        tk[1] = spell_string(r, n, r.chance(30) ? 50 : 0);
        text = layout(r, tk);
        ObjP e(t.make()); P pe;
        c.count("other names read");
        if (!des(*e, rin(r), text, pe)) return c.fail("unknown name rejected", clip(text) + ": " + estr(pe.error));
        if (!msg_empty(d, e->get())) return c.fail("other name recognised", "name " + quote(n) + " in " + clip(text) + ": " + show(d, e->get()));
    }
}

//
// C14: schema 'X' and its twin 'X_obf' (same messages, obfuscated)
//
static void mon_c14( Ctx &c )
{
    Rng &r = c.r;
    const Schema *twin = nullptr;
    for (auto s : schemas()) if (s->name == c.schema->name + "_obf") twin = s;
    if (!twin) return;
    size_t ti = r.below(c.schema->types.size());
    auto &t = c.schema->types[ti];
    const MsgDesc &d = *t.desc;
    size_t ui = 0;      // by name, because the order may differ
    while (ui < twin->types.size() && twin->types[ui].desc->name != d.name) ++ui;
    if (ui == twin->types.size()) return;
    auto &u = twin->types[ui];
    GenOpt o; o.presence = r.pick(std::vector<int>{ 0, 30, 100 }); o.max_list = 3; o.max_str = 6; o.finite = r.chance(95);
    Val v = gen_msg(r, d, o);
    ObjP a(t.make()), b(u.make()); a->set(v); b->set(v);
    P p = random_params(r); P pa = p, pb = p; std::string x, y;
    bool oka = ser(*a, rout(r), x, pa), okb = ser(*b, rout(r), y, pb);
    std::string what = d.name + " " + show(d, v) + " " + pstr(p);
    c.seen(what, !msg_empty(d, v)); c.count("messages compared");
    if (oka != okb || x != y) return c.fail("texts differ", what + ": " + clip(x) + " versus " + clip(y));
    if (!p.null && !(pa.error == pb.error)) return c.fail("errors differ", what + ": " + estr(pa.error) + " versus " + estr(pb.error));
    std::string text = r.chance(50) && oka ? x : broken_text(c, &d, nullptr);
    if (r.chance(40))
    {
        Tokens toks; Style s = random_style(r); s.unknown = 40; Val w = v; strip_transient(d, w); GenOpt g; g.presence = 60; g.max_list = 2; w = gen_msg(r, d, g); strip_transient(d, w);
        spell_msg(r, d, w, s, toks); text = layout(r, toks);
    }
    ObjP e(t.make()), f(u.make()); pa = p; pb = p;
    InChan ch = rin(r);
    oka = des(*e, ch, text, pa); okb = des(*f, ch, text, pb);
    c.count(oka ? "texts read" : "texts rejected");
    if (oka != okb) return c.fail("results differ", clip(text) + (oka ? " only read without obfuscation: " + estr(pb.error) : " only read with obfuscation"));
    if (!p.null && !(pa.error == pb.error)) return c.fail("errors differ", clip(text) + ": " + estr(pa.error) + " versus " + estr(pb.error));
    if (!msg_equal(d, e->get(), f->get())) return c.fail("messages differ", clip(text) + ": " + diff(d, e->get(), f->get()));
}

//
// C15
//
static void fill_transient( Rng &r, const MsgDesc &d, Val &v, const GenOpt &o )
{
    for (size_t i = 0; i < d.fields.size(); ++i)
        if (d.fields[i].transient) v.list[i] = gen_field(r, d.fields[i], o, r.chance(80));
}

static void mon_c15( Ctx &c )
{
    Rng &r = c.r;
    auto &t = c.type();
    const MsgDesc &d = *t.desc;
    GenOpt o; o.presence = r.pick(std::vector<int>{ 0, 50, 100 }); o.max_list = 3; o.max_str = 6; 
    P p = random_params(r); o.utf8_only = p.ascii;
    Val v = gen_msg(r, d, o); fill_transient(r, d, v, o);
    if (r.chance(15)) for (auto &f : d.fields) if (f.transient && is_float(f.kind) && !f.repeated) { v.list[(size_t) (&f - &d.fields[0])].present = true; v.list[(size_t) (&f - &d.fields[0])].d = INFINITY; } // never written
    ObjP a(t.make()); if (!hold(c, *a, v)) return;
    std::string out; P q = p;
    size_t ntrans = 0; for (auto &f : d.fields) ntrans += f.transient;
    std::string what = d.name + " " + show(d, v) + " " + pstr(p);
    c.seen(what, ntrans > 0 && any_transient(d, v));
    if (!ser(*a, rout(r), out, q)) return c.fail("serialize failed", what + ": " + estr(q.error));
    JVal j; std::string why; TextCheck tc = { p.nulls && !p.null, "" };
    if (!json_parse(out, j, why)) return c.fail("text is wrong", what + ": " + clip(out) + ": " + why);
    if (!text_says(d, v, j, tc)) return c.fail("text is wrong", what + ": " + clip(out) + ": " + tc.why);
    c.count("texts without transient fields");
    // reading: members with the names of transient fields are skipped, whatever their values
    Val w = gen_msg(r, d, o); strip_transient(d, w);
    Style s = random_style(r); s.nulls = 0; s.unknown = 0;
    Tokens toks; spell_msg(r, d, w, s, toks);
    for (auto &f : d.fields)
    {
        if (!f.transient || !r.chance(70) || d.find(f.json) >= 0) continue;
        Tokens m;
        m.push_back(spell_string(r, f.json, 10)); m.push_back(":");
        if (r.chance(60)) // a value that would be right for the field
        {
            MsgDesc one; one.fields.push_back(f); one.fields[0].transient = false; Val x; x.list.push_back(gen_field(r, f, o, true));
            Tokens tk; Style pl; pl.empties = false; spell_msg(r, one, x, pl, tk);
            if (tk.size() > 4) m.assign(tk.begin() + 1, tk.end() - 1);
            else gen_json(r, 2, m);
        }
        else gen_json(r, 2, m);
        bool front = r.chance(50);
        if (toks.size() > 2) { if (front) m.push_back(","); else m.insert(m.begin(), ","); }
        toks.insert(front ? toks.begin() + 1 : toks.end() - 1, m.begin(), m.end());
        c.count("transient members in texts");
    }
    std::string text = layout(r, toks);
    ObjP b(t.make()); Val before = msg_fresh(d); fill_transient(r, d, before, o); b->set(before);
    q = p;
    if (!des(*b, rin(r), text, q)) return c.fail("deserialize failed", d.name + ": " + clip(text) + ": " + estr(q.error));
    Val expect = w; for (size_t i = 0; i < d.fields.size(); ++i) if (d.fields[i].transient) expect.list[i] = before.list[i];
    if (!msg_equal(d, expect, b->get())) return c.fail("transient field touched", d.name + ": " + clip(text) + ": " + diff(d, expect, b->get()));
    // they take part in everything else
    for (size_t i = 0; i < d.fields.size(); ++i)
    {
        if (!d.fields[i].transient) continue;
        Val x = msg_fresh(d); x.list[i] = gen_field(r, d.fields[i], o, true);
        bool e = field_empty(d.fields[i], x.list[i]);
        ObjP m(t.make()), fresh(t.make()); m->set(x);
        if (m->empty() != e) return c.fail("emptiness", d.name + ": " + show(d, x));
        if (m->eq(*fresh) != e || m->ne(*fresh) == e) return c.fail("comparison", d.name + ": " + show(d, x) + " versus empty");
        ObjP n(m->copy()); if (!msg_equal(d, x, n->get())) return c.fail("copy", d.name + ": " + show(d, x));
        ObjP k(t.make()); k->assign(*m); if (!msg_equal(d, x, k->get())) return c.fail("assignment", d.name + ": " + show(d, x));
        fresh->swap(*m);
        if (!msg_equal(d, x, fresh->get()) || !msg_empty(d, m->get())) return c.fail("swap", d.name + ": " + show(d, x));
        n->clear(); if (!msg_empty(d, n->get()) || !n->empty()) return c.fail("clear", d.name + ": " + show(d, x));
        c.count("transient fields compared, copied, swapped and cleared");
    }
}

//
// C16
//
struct Punct : std::numpunct<char>
{
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\3"; }
    std::string do_truename() const override { return "wahr"; }
    std::string do_falsename() const override { return "falsch"; }
};

static std::vector<std::string> &locale_names() { static std::vector<std::string> v; return v; }

struct LocaleState
{
    std::string all; locale_t thread; std::string cpp; char point; char thread_point;
    bool operator==( const LocaleState &o ) const { return all == o.all && thread == o.thread && cpp == o.cpp && point == o.point && thread_point == o.thread_point; }
};
static LocaleState locale_state()
{
    LocaleState s;
    s.all = setlocale(LC_ALL, nullptr); s.thread = uselocale((locale_t) 0); s.cpp = std::locale().name(); s.point = localeconv()->decimal_point[0];
    char tmp[16]; snprintf(tmp, sizeof(tmp), "%.1f", 0.5); s.thread_point = tmp[1];
    if (std::has_facet<std::numpunct<char>>(std::locale())) s.cpp += std::use_facet<std::numpunct<char>>(std::locale()).decimal_point();
    return s;
}

static void mon_c16( Ctx &c )
{
    Rng &r = c.r;
    auto &t = c.type();
    const MsgDesc &d = *t.desc;
    GenOpt o; o.presence = r.pick(std::vector<int>{ 50, 100 }); o.max_list = 4; o.max_str = 6; o.utf8_only = r.chance(50);
    Val v = gen_msg(r, d, o);
    ObjP a(t.make()); a->set(v);
    P p = random_params(r);
    // expectations without any locale
    P pe = p; std::string expect; OutChan oc = rout(r); bool okw = ser(*a, oc, expect, pe);
    Val w = gen_msg(r, d, o); strip_transient(d, w);
    std::string text; { Tokens toks; spell_msg(r, d, w, random_style(r), toks); text = layout(r, toks); }
    if (r.chance(30)) text = broken_text(c, &d, nullptr);
    if (r.chance(10)) { std::string s2 = text; for (auto &ch : s2) if (ch == '.') { ch = ','; break; } text = s2; }
    InChan ic = rin(r);
    ObjP b(t.make()); P pb = p; bool okr = des(*b, ic, text, pb); Val rv = b->get();
    c.seen(d.name + " " + show(d, v), !msg_empty(d, v));
    // now under a locale
    static const std::vector<std::string> none;
    auto &names = locale_names();
    int how = (int) r.below(names.empty() ? 2 : 6);
    std::locale old_cpp; locale_t lt = (locale_t) 0;
    std::string name = names.empty() ? "" : r.pick(names), label;
    switch (how)
    {
        case 0: label = "C++ global locale with custom punctuation"; old_cpp = std::locale::global(std::locale(std::locale::classic(), new Punct)); break;
        case 1: label = "classic"; old_cpp = std::locale(); break;
        case 2: label = "setlocale " + name; if (!setlocale(LC_ALL, name.c_str())) { printf("HARNESS cannot set locale %s\n", name.c_str()); exit(3); } break;
        case 3: label = "uselocale " + name; lt = newlocale(LC_ALL_MASK, name.c_str(), (locale_t) 0); if (!lt) { printf("HARNESS cannot make locale %s\n", name.c_str()); exit(3); } uselocale(lt); break;
        case 4: label = "C++ global locale " + name; old_cpp = std::locale::global(std::locale(name.c_str())); break;
        case 5: label = "uselocale and setlocale " + name; setlocale(LC_ALL, r.pick(names).c_str()); lt = newlocale(LC_NUMERIC_MASK, name.c_str(), (locale_t) 0); uselocale(lt); break;
    }
    c.count(label);
    LocaleState before = locale_state();
    P q = p; std::string out; bool okw2 = ser(*a, oc, out, q);
    LocaleState mid = locale_state();
    ObjP e(t.make()); P qe = p; bool okr2 = des(*e, ic, text, qe);
    LocaleState after = locale_state();
    // back to the C locale before anything else is computed
    if (lt) { uselocale(LC_GLOBAL_LOCALE); freelocale(lt); }
    if (how == 0 || how == 4) std::locale::global(std::locale::classic());
    setlocale(LC_ALL, "C");
    if (!(before == mid)) return c.fail("serialize changes the locale", label + ": " + before.all + " " + before.cpp + before.thread_point + " became " + mid.all + " " + mid.cpp + mid.thread_point);
    if (!(before == after)) return c.fail("deserialize changes the locale", label + ": " + before.all + " " + before.cpp + before.thread_point + " became " + after.all + " " + after.cpp + after.thread_point);
    if (okw != okw2 || out != expect) return c.fail("text depends on the locale", label + ": " + clip(expect) + " versus " + clip(out));
    if (okr != okr2) return c.fail("reading depends on the locale", label + ": " + clip(text) + (okr2 ? "" : ": " + estr(qe.error)));
    if (!p.null && !(pb.error == qe.error)) return c.fail("errors depend on the locale", label + ": " + clip(text) + ": " + estr(pb.error) + " versus " + estr(qe.error));
    if (!msg_equal(d, rv, e->get())) return c.fail("values depend on the locale", label + ": " + clip(text) + ": " + diff(d, rv, e->get()));
}

//
// C07: hostile text in exactly sized memory. Sanitizers and the resource limits of the process decide.
//
static std::string rep( const std::string &s, size_t n ) { std::string o; o.reserve(s.size() * n); while (n-- > 0) o += s; return o; }

static std::string some_value( Rng &r )
{
    static const char *V[] = { "1", "-1", "0.5e3", "\"s\"", "true", "null", "{}", "[]", "\"\\ud83d\\ude00\"", "\"AAAA\"", "[1]", "{\"a\":[]}" };
    return V[r.below(sizeof(V) / sizeof(*V))];
}

// text around 'field' that makes its value the interesting part
static std::string as_member( Rng &r, const MsgDesc &d, const std::string &value )
{
    std::string name = "unknown name";
    if (!d.fields.empty() && r.chance(70)) { auto &f = r.pick(d.fields); name = f.json; if (r.chance(30)) return "{" + spell_string(r, name, 0) + ":[" + some_value(r) + "," + value + "," + some_value(r) + "]}"; }
    std::string t = "{" + spell_string(r, name, 0) + ":" + value;
    if (r.chance(50)) t += "," + spell_string(r, name, 0) + ":" + value;
    if (r.chance(80)) t += "}";
    return t;
}

static std::string nested( Rng &r, size_t depth )
{
    static const char *O[] = { "[", "{\"a\":", "[0,", "[[],{\"\":", "[{\"b\":0,\"c\":" }, *C[] = { "]", "}", "]", "}]", "}]" };
    int i = (int) r.below(5);
    std::string t = rep(O[i], depth);
    switch (r.below(4))
    {
        case 0: return t;
        case 1: return t + some_value(r) + rep(C[i], r.below(depth + 1));
        case 2: return t + some_value(r) + rep(C[i], depth) + (r.chance(50) ? C[i] : "");
        default: return t + some_value(r) + rep(C[(i + 1) % 5], depth);
    }
}

static std::string hostile( Ctx &c, const MsgDesc &d, std::string &family )
{
    Rng &r = c.r;
    size_t big = c.thorough ? 3000000 : 400000;
    int k = (int) r.below(1000);
    if (k < 6)
    {
        family = "deep nesting";
        std::string v = nested(r, r.pick(std::vector<size_t>{ 510, 511, 512, 513, 514, 5000, big / 4 }));
        return r.chance(20) ? v : as_member(r, d, v);
    }
    if (k < 10)
    {
        static const char *S[] = { "x", "\\n", "\\u00e9", "\\ud83d\\ude00", "\xC3\xA9", "\xFF", "\\\\", "\\\"", "\\ud800" };
        family = "long strings";
        std::string v = "\"" + rep(S[r.below(9)], big / 6) + (r.chance(80) ? "\"" : "");
        return r.chance(30) ? "{" + v + ":" + some_value(r) + "}" : as_member(r, d, v);
    }
    if (k < 14)
    {
        static const char *S[] = { "0", "9", "1e", "-", ".", "1.", "00", "+", "E9" };
        family = "long numbers";
        std::string n = std::string(r.chance(50) ? "-" : "") + (r.chance(50) ? "1" : r.chance(50) ? "0." : "1e") + rep(S[r.below(9)], big / 8);
        return as_member(r, d, n + (r.chance(30) ? "e-" + rep("9", r.below(400)) : ""));
    }
    if (k < 18)
    {
        static const char *S[] = { " ", "\n", "\t", "\r\n", "\r" };
        family = "long whitespace";
        std::string w = rep(S[r.below(5)], big);
        return w + "{" + (r.chance(50) ? w : "") + "\"a\"" + w + ":" + (r.chance(50) ? some_value(r) + "}" : "");
    }
    if (k < 22)
    {
        family = "long lists and objects";
        std::string v = some_value(r);
        return r.chance(50) ? as_member(r, d, "[" + rep(v + ",", big / 16) + v + (r.chance(80) ? "]" : "")) : "{" + rep("\"a\":" + v + ",", big / 16) + "\"a\":" + v + "}";
    }
    if (k < 300)
    {
        family = "random tokens";
        static const char *T[] = { "{", "}", "[", "]", ":", ",", "\"", "\\", "\\u", "\\ud83d", "\\ude00", "-", "0", "1", ".", "e", "E", "+", "true", "false", "null", "t", " ", "\n", "\t", "\r", "/", "\x01", "\x7F",
            "\x80", "\xC3", "\xFF", "=", "==", "AAAA", "A", "Infinity", "NaN", "0x", "99999999999999999999", "1e999", "4294967296", "-1", "\"\"", "{}", "[]" };
        std::string t;
        if (r.chance(60)) t = "{";
        for (int n = (int) r.below(r.chance(10) ? 200 : 24); n > 0; --n)
        {
            if (r.chance(15) && !d.fields.empty()) t += spell_string(r, r.pick(d.fields).json, 0) + (r.chance(80) ? ":" : "");
            else if (r.chance(4)) t += std::string(1, '\0');
            else t += T[r.below(sizeof(T) / sizeof(*T))];
        }
        return t;
    }
    if (k < 400)
    {
        family = "random bytes";
        std::string t;
        for (int n = (int) r.below(64); n > 0; --n) t += (char) r.below(256);
        return t;
    }
    if (k < 600)
    {
        family = "one value in a member";
        std::string t = gen_bytes(r, 24);
        switch (r.below(4))
        {
            case 0: return as_member(r, d, "\"" + t + "\"");
            case 1: return as_member(r, d, gen_numeral(r));
            case 2: return as_member(r, d, spell_string(r, b64_encode(t), 10));
            default: return as_member(r, d, mutate_bytes(r, gen_numeral(r)));
        }
    }
    family = "edited documents";
    std::string t = broken_text(c, &d, nullptr);
    for (int n = (int) r.below(6); n > 0; --n) t = mutate_bytes(r, t);
    if (r.chance(20)) t.resize(r.below(t.size() + 1));
    return t;
}

static void mon_c07( Ctx &c )
{
    Rng &r = c.r;
    auto &t = c.type();
    std::vector<std::string> texts;
    std::string family;
    if (c.index < 256)
    {
        family = "all texts of up to two bytes, and all bytes in key places";
        std::string b(1, (char) c.index);
        texts.push_back(b);
        if (c.index == 0) texts.push_back("");
        for (int j = 0; j < 256; ++j) texts.push_back(b + (char) j);
        static const char *PRE[] = { "{", "{\"", "{\"a", "{\"a\"", "{\"a\":", "{\"a\":\"", "{\"a\":\"\\", "{\"a\":\"\\u", "{\"a\":\"\\u00", "{\"a\":\"\\ud800", "{\"a\":\"\\ud800\\", "{\"a\":1", "{\"a\":-", "{\"a\":1e", "{\"a\":t", "{\"a\":[", "{\"a\":[1,", "{\"a\":{", "{}", "[", "[1", "[\"" };
        for (auto p : PRE) { texts.push_back(p + b); texts.push_back(p + b + "\":1}"); }
        for (auto &f : t.desc->fields)
        {
            std::string n = "{" + spell_string(r, f.json, 0) + ":";
            texts.push_back(n + b); texts.push_back(n + "\"" + b + "\"}"); texts.push_back(n + "\"AAA" + b + "\"}"); texts.push_back(n + "\"" + b + "AA=\"}"); texts.push_back(n + "[" + b + "]}"); texts.push_back(n + "1" + b + "}");
        }
    }
    else texts.push_back(hostile(c, *t.desc, family));
    for (auto &text : texts)
    {
        c.seen((text.size() > 4096 ? std::to_string(text.size()) + text.substr(0, 4096) : text), !text.empty());
        c.count(family);
        InChan ch = rin(r);
        P p = random_params(r);
        ChanInfo info;
        bool ok;
        if (use_array(c, 20))
        {
            ArrP a(r.pick(c.schema->arrays).make());
            ch = (InChan) r.below(4);
            ok = a->des(ch, text.data(), text.size(), p, info);
            auto got = a->get();
            if (ok) { std::string out; P q; ChanInfo i; a->ser(OUT_STRING, out, q, i); }
        }
        else
        {
            ObjP o(t.make());
            ok = o->des(ch, text.data(), text.size(), p, info);
            // the result can be used whatever it is
            Val got = o->get();
            { std::string out; P q; ChanInfo i; o->ser(OUT_STRING, out, q, i); }
            ObjP copy(o->copy());
            if (!copy->eq(*o)) c.count("unequal to its copy");
            o->clear();
        }
        c.count(ok ? "reads that succeed" : "reads that fail");
        if (info.threw) return c.fail("exception", t.desc->name + ": " + clip(text) + " throws " + info.what);
        if (info.nexts > 2 * text.size() + 64) return c.fail("unbounded work", t.desc->name + ": " + clip(text) + ": " + std::to_string(info.nexts) + " steps over " + std::to_string(text.size()) + " bytes");
        if (info.peeks > 16 * text.size() + 256) return c.fail("unbounded work", t.desc->name + ": " + clip(text) + ": " + std::to_string(info.peeks) + " looks at " + std::to_string(text.size()) + " bytes");
    }
}

// a document for the corpus of the fuzzer
std::string corpus_text( Rng &r, const Schema &s, const Schema::Type &t )
{
    static Stats st;
    Ctx c(st, r.next()); c.mon = "corpus"; c.schema = &s; c.thorough = false; c.seed = c.index = 0;
    if (r.chance(50)) return broken_text(c, t.desc, nullptr);
    if (r.chance(40)) { std::string f; std::string h = hostile(c, *t.desc, f); if (h.size() < 2000) return h; }
    GenOpt o; o.max_str = 12; o.max_list = 3;
    Val v = gen_msg(r, *t.desc, o);
    strip_transient(*t.desc, v);
    Tokens toks; spell_msg(r, *t.desc, v, random_style(r), toks);
    return layout(r, toks);
}

static const MonEntry MONITORS[] = {
    { "C01", mon_c01 }, { "C02", mon_c02 }, { "C03", mon_c03 }, { "C04", mon_c04 }, { "C05", mon_c05 }, { "C06", mon_c06 }, { "C07", mon_c07 }, { "C08", mon_c08 }, { "C09", mon_c09 },
    { "C10", mon_c10 }, { "C11", mon_c11 }, { "C12", mon_c12 }, { "C13", mon_c13 }, { "C14", mon_c14 }, { "C15", mon_c15 }, { "C16", mon_c16 },
};

static char *state_map;
extern "C" void note_state( const char *text ) { if (state_map) { strncpy(state_map, text, 250); state_map[250] = 0; } }

// The very first use of every type under a locale; nothing of it may be felt later, under the "C" locale, where the monitors run
static bool first_use( const std::string &start, const std::vector<const Schema*> &use, uint64_t key )
{
    struct One { const Schema::Type *t; ObjP o; std::string text; };
    std::vector<One> all;
    Rng r(key);
    for (auto s : use) for (auto &t : s->types)
    {
        GenOpt o; o.presence = 100; o.max_list = 3; o.max_str = 6; o.utf8_only = true;
        Val v = gen_msg(r, *t.desc, o), w = gen_msg(r, *t.desc, o); strip_transient(*t.desc, w);
        One x; x.t = &t; x.o = ObjP(t.make()); x.o->set(v);
        Tokens toks; spell_msg(r, *t.desc, w, random_style(r), toks); x.text = layout(r, toks);
        all.push_back(std::move(x));
    }
    char how = start[0]; std::string name = start.substr(1); locale_t lt = (locale_t) 0;
    if (how == 's') { if (!setlocale(LC_ALL, name.c_str())) return false; }
    else if (how == 'u') { lt = newlocale(LC_ALL_MASK, name.c_str(), (locale_t) 0); if (!lt) return false; uselocale(lt); }
    else if (how == 'g') std::locale::global(std::locale(name.c_str()));
    else std::locale::global(std::locale(std::locale::classic(), new Punct));
    bool read_first = r.chance(50);
    for (auto &x : all)
    {
        P p = random_params(r), q = p; std::string text; ObjP b(x.t->make());
        if (read_first) des(*b, rin(r), x.text, q);
        ser(*x.o, rout(r), text, p);
        if (!read_first) des(*b, rin(r), x.text, q);
    }
    if (lt) { uselocale(LC_GLOBAL_LOCALE); freelocale(lt); }
    std::locale::global(std::locale::classic());
    return setlocale(LC_ALL, "C") != nullptr;
}

#ifndef NO_MAIN
int main( int argc, char **argv )
{
    std::string mon, only, start; uint64_t seed = 1, first = 0, cases = 100, step = 1; bool thorough = false;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i]; auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--mon") mon = val();
        else if (a == "--schema") only = val();
        else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--first") first = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--step") step = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--cases") cases = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--thorough") thorough = true;
        else if (a == "--locale") locale_names().push_back(val());
        else if (a == "--start-locale") start = val();
        else if (a == "--state")
        {
            int fd = open(argv[++i], O_RDWR | O_CREAT, 0644);
            if (fd >= 0 && ftruncate(fd, 256) == 0) { void *m = mmap(nullptr, 256, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (m != MAP_FAILED) state_map = (char*) m; close(fd); }
        }
    }
    Monitor fn = nullptr;
    for (auto &m : MONITORS) if (mon == m.name) fn = m.fn;
    if (!fn) { fprintf(stderr, "unknown monitor\n"); return 3; }
    // schemas in a fixed order
    std::sort(schemas().begin(), schemas().end(), []( const Schema *a, const Schema *b ) { return a->name < b->name; });
    std::vector<const Schema*> use;
    for (auto s : schemas()) if (!s->types.empty() && (only.empty() || s->name == only) && (mon != "C14" || s->name.find("_obf") == std::string::npos)) use.push_back(s);
    if (use.empty()) { fprintf(stderr, "no schema\n"); return 3; }
    Stats st;
    if (!start.empty() && !first_use(start, use, mix(seed, first))) { printf("HARNESS cannot set locale %s\n", start.c_str()); return 3; }
    // case numbers go from 'first' in steps, over all schemas in turn
    for (uint64_t k = 0; k < cases && st.violations < 3; ++k)
    {
        uint64_t n = first + k * step;
        for (auto s : use)
        {
            Ctx c(st, mix(mix(mix(seed, hash_str(mon)), hash_str(s->name)), n));
            c.mon = mon; c.schema = s; c.seed = seed; c.index = n; c.thorough = thorough;
            if (state_map) { std::string t = "--mon " + mon + " --schema " + s->name + " --seed " + std::to_string(seed) + " --first " + std::to_string(n) + " --cases 1"; note_state(t.c_str()); }
            fn(c);
        }
    }
    printf("STATS {\"evals\":%llu,\"violations\":%llu,\"counters\":{", (unsigned long long) st.evals, (unsigned long long) st.violations);
    bool f = true;
    for (auto &k : st.counters) { printf("%s%s:%llu", f ? "" : ",", json_str(k.first).c_str(), (unsigned long long) k.second); f = false; }
    printf("},\"samples\":[");
    f = true;
    for (auto &s : st.samples) { printf("%s%s", f ? "" : ",", json_str(s).c_str()); f = false; }
    printf("],\"distinct\":[");
    f = true;
    // hashes, so that parallel processes can be added up without counting a case twice
    for (auto h : st.distinct) { printf("%s%llu", f ? "" : ",", (unsigned long long) (h & 0xFFFFFFFFFFFFULL)); f = false; }
    printf("]}\n");
    fflush(stdout);
    return st.violations ? 1 : 0;
}
#endif
