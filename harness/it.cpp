// Executes command scripts on the digit integer types of hamsham/BigNum.
// Registers 1..h are digit objects, h+1..2h built-in integers of the
// underlying type.
#include "rt.h"
#include "bignum/bignum.h"
#include <cstdlib>
#include <sstream>
#include <iomanip>

namespace vp {

template <typename U, BN_UINT64 ID>
struct IntDriver {
    typedef BNIntType<U, ID> D;
    const Script& sc; const TypeInfo& ti;
    int h;
    std::vector<D> d; std::vector<U> n;
    std::vector<u64> seen;
    std::string ev;
    IntDriver(const Script& s, const TypeInfo& t) : sc(s), ti(t), h(s.nregs / 2), d(h), n(h), seen(2 * h, 0) {}

    static u64 num(const std::string& s) { return std::strtoull(s.c_str(), nullptr, 10); }
    u64 look(int i) const { return i < h ? (u64)d[i].num : (u64)n[i - h]; }
    bool isd(int i) const { return i < h; }
    int reg(const std::string& s) const { return std::atoi(s.c_str()) - 1; }

    void kv(const char* k, const std::string& j) { ev += std::string(",\"") + k + "\":" + j; }
    void kb(const char* k, bool b) { kv(k, b ? "true" : "false"); }
    void open(const char* op) { ev = std::string("{\"op\":\"") + op + "\""; }
    std::string word(u64 v) { return jdigit(v, ti); }
    void close() {
        std::string ch;
        for (int i = 0; i < 2 * h; ++i) if (look(i) != seen[i]) {
            ch += (ch.empty() ? "[" : ",[") + std::to_string(i + 1) + "," + word(look(i)) + "]";
            seen[i] = look(i);
        }
        ev += ",\"ch\":[" + ch + "]}";
        out::raw(ev);
    }

    template <class A, class B> static u64 arith(const std::string& o, const A& a, const B& b) {
        if (o == "+") return (U)(a + b);
        if (o == "-") return (U)(a - b);
        if (o == "*") return (U)(a * b);
        if (o == "/") return (U)(a / b);
        if (o == "%") return (U)(a % b);
        if (o == "&") return (U)(a & b);
        if (o == "|") return (U)(a | b);
        if (o == "^") return (U)(a ^ b);
        if (o == "<<") return (U)(a << b);
        if (o == ">>") return (U)(a >> b);
        bad(o); return 0;
    }
    template <class A, class B> static bool assign(const std::string& o, A& a, const B& b) {
        if (o == "+") return &(a += b) == &a;
        if (o == "-") return &(a -= b) == &a;
        if (o == "*") return &(a *= b) == &a;
        if (o == "/") return &(a /= b) == &a;
        if (o == "%") return &(a %= b) == &a;
        if (o == "&") return &(a &= b) == &a;
        if (o == "|") return &(a |= b) == &a;
        if (o == "^") return &(a ^= b) == &a;
        if (o == "<<") return &(a <<= b) == &a;
        if (o == ">>") return &(a >>= b) == &a;
        bad(o); return false;
    }
    template <class A, class B> static bool test(const std::string& o, const A& a, const B& b) {
        if (o == "==") return a == b;
        if (o == "!=") return a != b;
        if (o == "<") return a < b;
        if (o == "<=") return a <= b;
        if (o == ">") return a > b;
        if (o == ">=") return a >= b;
        bad(o); return false;
    }
    static void bad(const std::string& s) { std::fprintf(stderr, "bad command %s\n", s.c_str()); std::_Exit(3); }
    static bool is_arith(const std::string& o) { return o.size() == 1 ? o != "<" && o != ">" : o == "<<" || o == ">>"; }

    void exec(const Cmd& c) {
        const std::string& w = c[0];
        if (w == "set") {
            int i = reg(c[1]);
            if (isd(i)) d[i].num = (U)num(c[2]); else n[i - h] = (U)num(c[2]);
            open("set"); close();
        }
        else if (w == "plain" || w == "test") {
            int a = reg(c[2]), b = reg(c[3]);
            const bool t = w == "test";
            u64 r = 0; bool q = false;
            if (isd(a) && isd(b)) { if (t) q = test(c[1], d[a], d[b]); else r = arith(c[1], d[a], d[b]); }
            else if (isd(a)) { if (t) q = test(c[1], d[a], n[b - h]); else r = arith(c[1], d[a], n[b - h]); }
            else if (isd(b)) { if (t) q = test(c[1], n[a - h], d[b]); else r = arith(c[1], n[a - h], d[b]); }
            else bad("built-in operands");
            open(w.c_str()); kv("o", jstr(c[1])); kv("a", c[2]); kv("b", c[3]);
            if (t) kb("res", q); else kv("res", word(r));
            close();
        }
        else if (w == "asg") {
            int a = reg(c[2]), b = reg(c[3]);
            bool self = false;
            if (isd(a) && isd(b)) self = assign(c[1], d[a], d[b]);
            else if (isd(a)) self = assign(c[1], d[a], n[b - h]);
            else if (isd(b)) self = assign(c[1], n[a - h], d[b]);
            else bad("built-in operands");
            open("asg"); kv("o", jstr(c[1])); kv("a", c[2]); kv("b", c[3]); kb("self", self); close();
        }
        else if (w == "own") {                     // own FORM op a: the digit together with the word inside it
            const std::string& o = c[2];
            D& x = d[reg(c[3])];
            bool self = false, q = false; u64 r = 0;
            if (c[1] == "asg-dn") self = assign(o, x, x.num);
            else if (c[1] == "asg-nd") self = assign(o, x.num, x);
            else if (c[1] == "plain-dn") r = arith(o, x, x.num);
            else if (c[1] == "plain-nd") r = arith(o, x.num, x);
            else if (c[1] == "test-dn") q = test(o, x, x.num);
            else if (c[1] == "test-nd") q = test(o, x.num, x);
            else bad(c[1]);
            const std::string ev = c[1].substr(0, c[1].find('-'));
            open(ev.c_str()); kv("o", jstr(o)); kv("a", c[3]); kv("b", c[3]);
            if (ev == "asg") kb("self", self); else if (ev == "test") kb("res", q); else kv("res", word(r));
            close();
        }
        else if (w == "un") {
            const D& a = d[reg(c[2])];
            u64 r = 0;
            if (c[1] == "!") r = (U)!a; else if (c[1] == "+") r = (U)+a;
            else if (c[1] == "-") r = (U)-a; else if (c[1] == "~") r = (U)~a; else bad(c[1]);
            open("un"); kv("o", jstr(c[1])); kv("a", c[2]); kv("res", word(r)); close();
        }
        else if (w == "step") {                    // step ++|-- pre|post a
            D& a = d[reg(c[3])];
            bool self = false; u64 r = 0;
            if (c[2] == "pre") { D& q = c[1] == "++" ? ++a : --a; self = &q == &a; r = (U)q; }
            else { const D q = c[1] == "++" ? a++ : a--; r = (U)q; }
            open("step"); kv("o", jstr(c[1])); kb("post", c[2] == "post"); kv("a", c[3]); kv("res", word(r)); kb("self", self); close();
        }
        else if (w == "store") {                   // store how a b
            int a = reg(c[2]), b = reg(c[3]);
            const std::string& how = c[1];
            bool self = true;
            if (isd(a) && isd(b)) {
                if (how == "copy") self = &(d[a] = (const D&)d[b]) == &d[a];
                else if (how == "move") { D t(d[b]); self = &(d[a] = std::move(t)) == &d[a]; }
                else if (how == "cctor") { D t((const D&)d[b]); d[a].num = t.num; }
                else { D s(d[b]); D t(std::move(s)); d[a].num = t.num; }
            }
            else if (isd(a)) {
                if (how == "copy") self = &(d[a] = (const U&)n[b - h]) == &d[a];
                else if (how == "move") { U t = n[b - h]; self = &(d[a] = std::move(t)) == &d[a]; }
                else if (how == "cctor") { D t((const U&)n[b - h]); d[a].num = t.num; }
                else { U s = n[b - h]; D t(std::move(s)); d[a].num = t.num; }
            }
            else if (isd(b)) n[a - h] = d[b];      // conversion
            else bad("built-in operands");
            open("store"); kv("a", c[2]); kv("b", c[3]); kb("self", self); close();
        }
        else if (w == "clear") { D t; d[reg(c[1])].num = t.num; open("clear"); kv("a", c[1]); close(); }
        else if (w == "write") {
            std::ostringstream os;
            bool self = &(os << (const D&)d[reg(c[1])]) == &os;
            open("write"); kv("a", c[1]); kv("text", jcodes(os.str())); kb("self", self && os.good()); close();
        }
        else if (w == "writes") {                  // two digits among other things
            std::ostringstream os;
            os << '[' << (const D&)d[reg(c[1])] << ' ' << 255 << ' ' << (const D&)d[reg(c[2])]
               << ' ' << 1.5 << ' ' << true << std::setw(5) << -7 << ']';
            open("writes"); kv("a", c[1]); kv("b", c[2]); kv("text", jcodes(os.str())); kb("self", os.good()); close();
        }
        else if (w == "reads") {                   // reads a b "v1 v2 255"
            std::string t;
            for (std::size_t i = 3; i < c.size(); ++i) t += (char)(unsigned char)num(c[i]);
            std::istringstream is(t + " 255");
            int rest = 0;
            is >> d[reg(c[1])] >> d[reg(c[2])] >> rest;
            open("reads"); kv("a", c[1]); kv("b", c[2]); kv("text", jcodes(t)); kv("rest", std::to_string(rest)); kb("self", !is.fail()); close();
        }
        else if (w == "read") {                    // read a code code ...
            std::string t;
            for (std::size_t i = 2; i < c.size(); ++i) t += (char)(unsigned char)num(c[i]);
            std::istringstream is(t);
            bool self = &(is >> d[reg(c[1])]) == &is;
            open("read"); kv("a", c[1]); kv("text", jcodes(t)); kb("self", self); kb("ok", !is.fail()); kb("hex", false); close();
        }
        else if (w == "readh") {                   // in hexadecimal
            std::string t;
            for (std::size_t i = 2; i < c.size(); ++i) t += (char)(unsigned char)num(c[i]);
            std::istringstream is(t);
            is >> std::hex;
            bool self = &(is >> d[reg(c[1])]) == &is && (is.flags() & std::ios::basefield) == std::ios::hex;
            open("read"); kv("a", c[1]); kv("text", jcodes(t)); kb("self", self); kb("ok", !is.fail()); kb("hex", true); close();
        }
        else if (w == "nread") {                   // from a stream that failed before
            std::istringstream is("5 6 7");
            is.setstate(c[2] == "bad" ? std::ios::badbit : c[2] == "eof" ? std::ios::eofbit : std::ios::failbit);
            bool self = &(is >> d[reg(c[1])]) == &is;
            open("nread"); kb("self", self); kb("ok", !is.fail()); close();
        }
        else if (w == "writeh") {                  // in hexadecimal, in a field of ten
            std::ostringstream os;
            os << std::hex << std::setfill('*') << std::setw(10) << (const D&)d[reg(c[1])];
            os << '|' << 255 << '|' << std::setw(4) << 7;
            open("writeh"); kv("a", c[1]); kv("text", jcodes(os.str())); kb("self", os.good()); close();
        }
        else if (w == "row") row(c);
        else if (w == "urow") urow(c);
        else bad(w);
    }

    // row FORM OP x lo n: FORM in dd dn nd, '=' appended for assigning
    void row(const Cmd& c) {
        const std::string form = c[1], &o = c[2];
        const bool asg = form.size() == 3;
        const U x = (U)num(c[3]);
        const u64 lo = num(c[4]), cnt = num(c[5]);
        bool kept = true, self = true;
        std::string r = "[";
        for (u64 i = 0; i < cnt; ++i) {
            const U y = (U)(lo + i);
            D a(x), b(y);
            U p = x, q = y;
            u64 v = 0;
            if (asg) {
                if (form == "dd=") { self = assign(o, a, b) && self; v = a.num; kept = kept && b.num == y; }
                else if (form == "dn=") { self = assign(o, a, q) && self; v = a.num; kept = kept && q == y; }
                else { self = assign(o, p, b) && self; v = p; kept = kept && b.num == y; }
            }
            else {
                if (is_arith(o)) v = form == "dd" ? arith(o, a, b) : form == "dn" ? arith(o, a, q) : arith(o, p, b);
                else v = form == "dd" ? test(o, a, b) : form == "dn" ? test(o, a, q) : test(o, p, b);
                kept = kept && a.num == x && b.num == y && p == x && q == y;
            }
            if (i) r += ',';
            r += std::to_string(v);
        }
        open("row"); kv("o", jstr(o)); kv("form", jstr(form)); kv("x", std::to_string((u64)x)); kv("lo", std::to_string(lo));
        kv("res", r + "]"); kb("kept", kept); kb("self", self); close();
    }
    void urow(const Cmd& c) {
        std::string o = c[1];
        const bool stored = c.size() > 2;
        bool kept = true, self = true;
        std::string r = "[";
        for (unsigned x = 0; x < 256; ++x) {
            D a((U)x);
            u64 v = 0;
            if (o == "!") v = (U)!a; else if (o == "u+") v = (U)+a; else if (o == "u-") v = (U)-a; else if (o == "~") v = (U)~a;
            else if (o == "++x") { D& q = ++a; self = self && &q == &a; v = (U)q; }
            else if (o == "--x") { D& q = --a; self = self && &q == &a; v = (U)q; }
            else if (o == "x++") { D q = a++; v = (U)q; }
            else if (o == "x--") { D q = a--; v = (U)q; }
            else bad(o);
            if (stored) v = a.num;
            else if (o[0] == '!' || o[0] == 'u' || o[0] == '~') kept = kept && a.num == (U)x;
            if (x) r += ',';
            r += std::to_string(v);
        }
        open("urow"); kv("o", jstr(o + (stored ? " stored" : ""))); kv("res", r + "]"); kb("kept", kept); kb("self", self); close();
    }

    static void run(const Script& s, const TypeInfo& t) {
        out::begin(s, t);
        IntDriver dr(s, t);
        for (const Cmd& c : s.cmds) {
            std::string nt; for (const std::string& x : c) { nt += x; nt += ' '; if (nt.size() > 200) break; }
            out::note(nt);
            op_timer(true);
            dr.exec(c);
            op_timer(false);
        }
    }
    static Snap none(u64, const std::vector<u64>&) { return Snap(); }
};

#define INT(NAME, U, ID) \
    static struct Reg_##NAME { Reg_##NAME() { \
        register_type(TypeDriver{TypeInfo{#NAME, 256, sizeof(U), 0}, &IntDriver<U, ID>::run, &IntDriver<U, ID>::none}); } } reg_##NAME
#if PART == 0
INT(u8, BN_UINT8, 255);
INT(u8_2, BN_UINT8, 2);
INT(u8_0, BN_UINT8, 0);
#elif PART == 1
INT(u16, BN_UINT16, 65535);
INT(u16_2, BN_UINT16, 2);
INT(u16_8, BN_UINT16, 8);
#elif PART == 2
INT(u32, BN_UINT32, 4294967295ULL);
INT(u32_8, BN_UINT32, 8);
INT(u32_10, BN_UINT32, 10);
INT(u32_16, BN_UINT32, 16);
#else
INT(u64_10, BN_UINT64, 10);
INT(u64_16, BN_UINT64, 16);
INT(u64_0, BN_UINT64, 0);
#endif

}
