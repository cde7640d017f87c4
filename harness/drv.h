// Executes command scripts on one number type of hamsham/BigNum, through its
// public interface only, and logs every call with all numbers it changed.
#pragma once
#include "rt.h"
#include "bignum/bignum.h"
#include <cstdlib>
#include <cstring>
#include <new>
#include <sstream>
#include <iomanip>
#include <stdexcept>

namespace vp {

template <class Num>
struct Driver {
    typedef typename Num::value_t digit_t;

    const Script& sc;
    const TypeInfo& ti;
    std::vector<Num*> pool;                       // registers, 0-based
    std::vector<Snap> seen;                       // as last logged
    std::vector<char> stale;                      // moved from: not looked at
    std::string ev;                               // event being written
    bool log;

    Driver(const Script& s, const TypeInfo& t, bool l) : sc(s), ti(t), log(l) {}

    // -- numbers and snapshots ---------------------------------------------------
    static Num* fresh() { void* p = std::malloc(sizeof(Num)); mem::Track t; return new (p) Num(); }
    static void dispose(Num* n) { n->~Num(); std::free((void*)n); }
    static u64 val(const digit_t& d) { return static_cast<u64>(d); }
    static Snap look(const Num& n) {
        Snap s; s.desc = (int)n.descriptor;
        s.dig.reserve(n.numData.size());
        for (const digit_t& d : n.numData) s.dig.push_back(val(d));
        return s;
    }
    static void force(Num& n, int desc, const std::vector<u64>& dig) {
        typename Num::container_type c;
        c.reserve(dig.size());
        for (u64 d : dig) c.push_back(digit_t(d));
        n.numData.swap(c);
        n.descriptor = (bn_desc_t)desc;
    }
    void put_back(const std::vector<Snap>& all) {
        for (std::size_t i = 0; i < pool.size(); ++i) force(*pool[i], all[i].desc, all[i].dig);
    }
    std::vector<Snap> look_all() const {
        std::vector<Snap> v;
        for (Num* n : pool) v.push_back(look(*n));
        return v;
    }
    int reg(const std::string& s) const { return std::atoi(s.c_str()) - 1; }
    static u64 num(const std::string& s) { return std::strtoull(s.c_str(), nullptr, 10); }

    // -- events --------------------------------------------------------------------
    void kv(const char* k, const std::string& json) { ev += std::string(",\"") + k + "\":" + json; }
    void kv(const char* k, long v) { kv(k, std::to_string(v)); }
    void open(const char* op) { ev = std::string("{\"op\":\"") + op + "\""; }
    bool held = false;                            // events are kept back
    std::string last_x;                           // what the last call threw
    void close() {
        if (held) return;
        std::string ch;
        for (std::size_t i = 0; i < pool.size(); ++i) {
            Snap now = look(*pool[i]);
            if (now == seen[i]) continue;
            ch += (ch.empty() ? "[" : ",[") + std::to_string(i + 1) + ",\"" + descname(now.desc) + "\"," + jlimbs(now.dig, ti) + "]";
            seen[i] = now;
        }
        ev += ",\"ch\":[" + ch + "]}";
        if (log) emit(ev);
    }

    // run f with the library's allocations tracked; what it threw, or ""
    template <class F> std::string guard(F f) {
        std::string x;
        op_timer(true);
        mem::tracked = true;
        try { f(); }
        catch (bn_error_t e) { mem::tracked = false; x = e == BN_ERROR ? "bn_error" : "bn_other"; }
        catch (const std::bad_alloc&) { mem::tracked = false; x = "bad_alloc"; }
        catch (const BNUnderflow&) { mem::tracked = false; x = "underflow"; }
        catch (const BNNaN&) { mem::tracked = false; x = "bnnan"; }
        catch (const std::exception&) { mem::tracked = false; x = "exception"; }
        catch (...) { mem::tracked = false; x = "other"; }
        mem::tracked = false;
        op_timer(false);
        return last_x = x;
    }

    // -- calls that can be made to run out of memory --------------------------------
    // bas OP t a b | cmpd OP a b | copy t a | cctor t a | sto OP t a b
    void call(const Cmd& c, std::size_t at, std::string& x) {
        const std::string& w = c[at];
        if (w == "bin") {                          // new number := a OP b
            Num *a = pool[reg(c[at + 3])], *b = pool[reg(c[at + 4])];
            void* p = std::malloc(sizeof(Num));
            char o = c[at + 1][0];
            x = guard([&] {
                switch (o) {
                    case '+': new (p) Num(*a + *b); break;
                    case '-': new (p) Num(*a - *b); break;
                    case '*': new (p) Num(*a * *b); break;
                    case '/': new (p) Num(*a / *b); break;
                }
            });
            replace(reg(c[at + 2]), p, x);
        }
        else if (w == "sto") {                     // t = a OP b
            Num *t = pool[reg(c[at + 2])], *a = pool[reg(c[at + 3])], *b = pool[reg(c[at + 4])];
            char o = c[at + 1][0];
            x = guard([&] {
                switch (o) {
                    case '+': *t = *a + *b; break;
                    case '-': *t = *a - *b; break;
                    case '*': *t = *a * *b; break;
                    case '/': *t = *a / *b; break;
                }
            });
        }
        else if (w == "cmpd") {                    // a OP= b
            Num *a = pool[reg(c[at + 2])], *b = pool[reg(c[at + 3])];
            char o = c[at + 1][0];
            Num* r = nullptr;
            x = guard([&] {
                switch (o) {
                    case '+': r = &(*a += *b); break;
                    case '-': r = &(*a -= *b); break;
                    case '*': r = &(*a *= *b); break;
                    case '/': r = &(*a /= *b); break;
                }
            });
            if (x.empty() && r != a) x = "returned something else";
        }
        else if (w == "copy") {
            Num *t = pool[reg(c[at + 1])], *a = pool[reg(c[at + 2])];
            Num* r = nullptr;
            x = guard([&] { r = &(*t = *(const Num*)a); });
            if (x.empty() && r != t) x = "returned something else";
        }
        else if (w == "cctor") {
            const Num* a = pool[reg(c[at + 2])];
            void* p = std::malloc(sizeof(Num));
            x = guard([&] { new (p) Num(*a); });
            replace(reg(c[at + 1]), p, x);
        }
        else { std::fprintf(stderr, "bad command %s\n", w.c_str()); std::_Exit(3); }
    }
    void replace(int t, void* p, const std::string& x) {
        if (!x.empty()) { std::free(p); return; }
        Num* old = pool[t];
        pool[t] = (Num*)p;
        dispose(old);
    }
    void describe(const Cmd& c, std::size_t at, const std::string& x) {
        const std::string& w = c[at];
        if (w == "bin" || w == "sto") { open("bin"); kv("o", jstr(c[at + 1])); kv("r", c[at + 2]); kv("a", c[at + 3]); kv("b", c[at + 4]); }
        else if (w == "cmpd") { open("cmpd"); kv("o", jstr(c[at + 1])); kv("a", c[at + 2]); kv("b", c[at + 3]); }
        else { open("copy"); kv("r", c[at + 1]); kv("a", c[at + 2]); }
        kv("x", jstr(x));
        close();
    }

    // -- expressions with temporaries and with the references operators return --------
    Snap mid;
    template <class N> N&& tap(N&& t) {            // what a subexpression gave
        const bool on = mem::tracked;
        mem::tracked = false;
        mid = look(t);
        mem::tracked = on;
        return std::forward<N>(t);
    }
    // expr left|right|chain O1 O2 t a b c
    //   left: t = (a O1 b) O2 c    right: t = a O1 (b O2 c)    chain: (t O1= a) O2= b
    //   leftnew, rightnew: a new number t    temps: t = Num(a) O1 Num(b)
    void expr(const Cmd& c) {
        const std::string& f = c[1];
        const char o1 = c[2][0], o2 = c[3][0];
        Num& t = *pool[reg(c[4])];
        const Num &a = *pool[reg(c[5])], &b = *pool[reg(c[6])], &d = *pool[reg(c[7])];
        std::string x;
        mid = Snap(); mid.desc = 0;
        const bool fresh_one = f == "leftnew" || f == "rightnew";
        void* p = fresh_one ? std::malloc(sizeof(Num)) : nullptr;
#define LEFT(P, Q)  if (o1 == *#P && o2 == *#Q) { if (p) new (p) Num(tap(a P b) Q d); else t = tap(a P b) Q d; }
#define RIGHT(P, Q) if (o1 == *#P && o2 == *#Q) { if (p) new (p) Num(a P tap(b Q d)); else t = a P tap(b Q d); }
#define CHAIN(P, Q) if (o1 == *#P && o2 == *#Q) { r = &(tap(t P##= a) Q##= b); }
#define TEMPS(P, Q) if (o1 == *#P && o2 == *#Q) { t = Num(a) P Num(b); }
#define EACH2(M, P) M(P, +) M(P, -) M(P, *) M(P, /)
#define EACH(M) { EACH2(M, +) EACH2(M, -) EACH2(M, *) EACH2(M, /) }
        const Num* r = &t;
        if (f == "left" || f == "leftnew") x = guard([&] EACH(LEFT));
        else if (f == "right" || f == "rightnew") x = guard([&] EACH(RIGHT));
        else if (f == "chain") x = guard([&] EACH(CHAIN));
        else x = guard([&] EACH(TEMPS));
#undef LEFT
#undef RIGHT
#undef CHAIN
#undef TEMPS
#undef EACH
#undef EACH2
        if (x.empty() && r != &t) x = "returned something else";
        if (fresh_one) replace(reg(c[4]), p, x);
        if (f == "temps") { open("bin"); kv("o", jstr(c[2])); kv("r", c[4]); kv("a", c[5]); kv("b", c[6]); kv("x", jstr(x)); close(); return; }
        open("expr"); kv("f", jstr(fresh_one ? f.substr(0, f.size() - 3) : f)); kv("o1", jstr(c[2])); kv("o2", jstr(c[3]));
        kv("r", c[4]); kv("a", c[5]); kv("b", c[6]); kv("c", c[7]);
        kv("mid", "[\"" + descname(mid.desc) + "\"," + jlimbs(mid.dig, ti) + "]"); kv("x", jstr(x)); close();
    }

    // results a caller gets from numbers holding x and y, the first of them
    // stored in `at`
    std::string results(Num* at, const Snap& x, const Snap& y) {
        std::string r = "[", e;
        Num *p = fresh(), *q = fresh();
        force(*p, x.desc, x.dig); force(*q, y.desc, y.dig);
        auto add = [&](const Num& n) {
            Snap s = look(n);
            r += (r.size() > 1 ? ",[\"" : "[\"") + descname(s.desc) + "\"," + jlimbs(s.dig, ti) + "]";
        };
        e += guard([&] { *at = *p; });
        add(*at);
        e += guard([&] { *at += *q; });
        add(*at);
        e += guard([&] { *at -= *p; });
        add(*at);
        Num* t = fresh();
        e += guard([&] { *t = *p * *q; }); add(*t);
        e += guard([&] { *t = *p / *q; }); add(*t);
        e += guard([&] { *t = *q - *p; }); add(*t);
        e += guard([&] { *t = *q + *q; }); add(*t);
        dispose(t); dispose(p); dispose(q);
        return r + ",[\"" + e + "\",[]]]";
    }

    // every allocation of one call fails in turn
    void fail_each(const Cmd& c, std::size_t at, int verify_every) {
        const std::vector<Snap> before = look_all();
        long k = 1, step = 1;
        std::size_t digits = 0;
        for (const Snap& s : before) digits += s.dig.size();
        if (digits <= 10) verify_every = 1;
        const std::string& w = c[at];
        const bool simple = w == "cmpd" || w == "bin" || w == "sto" || w == "copy" || w == "cctor";
        const bool compound = w == "cmpd" || (w == "expr" && c[at + 1] == "chain");
        const std::string& target = w == "expr" ? c[at + 4] : w == "cmpd" || w == "bin" || w == "sto" ? c[at + 2] : c[at + 1];
        const std::size_t other = compound ? (reg(target) + 1) % pool.size() : 0;
        const std::size_t third = (other + 1) % pool.size();
        Num* n = fresh();
        const std::string usual = results(n, before[other], before[third]);
        dispose(n);
        for (int round = 0; round < 400; ++round) {
            mem::failed = false;
            mem::fail_at = k;
            std::string x;
            if (simple) call(c, at, x);
            else {
                held = true;
                exec(Cmd(c.begin() + at, c.end()));
                held = false;
                x = last_x;
            }
            mem::fail_at = 0;
            if (!mem::failed) { if (simple) describe(c, at, x); else close(); return; }
            open("fail");
            kv("kind", jstr(compound ? "compound" : "other"));
            if (compound) kv("a", target);
            kv("x", jstr(x));
            kv("n", k);
            close();
            if (round % verify_every == 0) {
                // numbers stay usable: what is computed now is what was
                // computed before, also in the number left infinite
                const std::size_t victim = reg(target);
                const std::string now = results(pool[victim], before[other], before[third]);
                open("usable"); kv("a", (long)victim + 1); kv("then", usual); kv("now", now); close();
            }
            put_back(before);
            open("set"); close();
            k += step;
            if (round >= 30) step = 1 + round / 10;
        }
    }

    void single(const Cmd& c) {
        std::string x;
        call(c, 0, x);
        describe(c, 0, x);
    }

    void bools(const char* k, std::initializer_list<bool> v) {
        std::string r = "[";
        for (bool b : v) { if (r.size() > 1) r += ','; r += b ? "true" : "false"; }
        kv(k, r + "]");
    }
    static long lines(const std::string& s) { long n = 0; for (char c : s) n += c == '\n'; if (!s.empty() && s.back() != '\n') ++n; return n; }

    virtual ~Driver() {}
    virtual void emit(const std::string& e) { out::raw(e); }

    virtual void exec(const Cmd& c) {
        const std::string& w = c[0];
        std::string x;
        if (w == "set") {                          // set r desc n d1..dn (least significant first)
            std::vector<u64> d;
            for (std::size_t i = 0; i < num(c[3]); ++i) d.push_back(num(c[4 + i]));
            force(*pool[reg(c[1])], descval(c[2]), d);
            open("set"); close();
        }
        else if (w == "setr") {                    // set r desc seed count pattern: long random numbers
            std::vector<u64> d;
            u64 s = num(c[3]) * 0x9E3779B97F4A7C15ULL + 1;
            const u64 n = num(c[4]), m = ti.base - 1;
            const std::string& pat = c[5];
            for (u64 i = 0; i < n; ++i) {
                s ^= s << 13; s ^= s >> 7; s ^= s << 17;
                u64 v = (s >> 11) % ti.base;
                if (pat == "max") v = m;
                else if (pat == "near") v = m - (s >> 20) % (m < 3 ? 1 : 2);
                else if (pat == "zeros") v = i + 1 == n ? 1 : 0;
                else if (pat == "mix") { unsigned q = (s >> 50) % 4; if (q == 0) v = 0; if (q == 1) v = m; }
                d.push_back(v);
            }
            if (n && !d.back()) d.back() = 1;
            force(*pool[reg(c[1])], descval(c[2]), d);
            open("set"); close();
        }
        else if (w == "bin" || w == "sto" || w == "cmpd" || w == "copy" || w == "cctor") single(c);
        else if (w == "fenum") fail_each(c, 1, 5);
        else if (w == "move" || w == "mctor") {    // t := move(a)
            Num *t = pool[reg(c[1])], *a = pool[reg(c[2])];
            long n0 = mem::allocs;
            if (w == "move") x = guard([&] { *t = std::move(*a); });
            else {
                void* p = std::malloc(sizeof(Num));
                x = guard([&] { new (p) Num(std::move(*a)); });
                replace(reg(c[1]), p, x);
            }
            n0 = mem::allocs - n0;
            open("move"); kv("r", c[1]); kv("a", c[2]); kv("allocs", n0); kv("x", jstr(x)); close();
        }
        else if (w == "swap") {                    // swap t a, as std::swap does: a move and two move assignments
            Num *t = pool[reg(c[1])], *a = pool[reg(c[2])];
            long n0 = mem::allocs;
            x = guard([&] { std::swap(*t, *a); });
            n0 = mem::allocs - n0;
            open("swap"); kv("r", c[1]); kv("a", c[2]); kv("allocs", n0); kv("x", jstr(x)); close();
        }
        else if (w == "expr") expr(c);
        else if (w == "cmp") {
            const Num &a = *pool[reg(c[1])], &b = *pool[reg(c[2])];
            bool r[6] = {};
            x = guard([&] { r[0] = a == b; r[1] = a != b; r[2] = a < b; r[3] = a <= b; r[4] = a > b; r[5] = a >= b; });
            open("cmp"); kv("a", c[1]); kv("b", c[2]);
            bools("res", {r[0], r[1], r[2], r[3], r[4], r[5]});
            kv("x", jstr(x)); close();
        }
        else if (w == "print") {
            const Num& a = *pool[reg(c[1])];
            std::ostringstream os;
            bool good = false;
            if (c.size() > 2) {                    // settings that say nothing about plain digits
                typedef std::ios_base f;
                static const f::fmtflags some[] = {f::boolalpha, f::skipws, f::uppercase, f::showpoint, f::unitbuf, f::left, f::scientific, f::showbase};
                for (int i = 0; i < 8; ++i) if (num(c[2]) >> i & 1) os.setf(some[i]);
                os.fill('*');
                os.precision(3);
            }
            const std::ios_base::fmtflags flags = os.flags();
            const char fill = os.fill();
            const std::streamsize precision = os.precision();
            x = guard([&] { good = &(os << a) == &os; });
            if (x.empty() && !good) x = "returned something else";
            if (x.empty() && (os.flags() != flags || os.fill() != fill || os.precision() != precision || os.width())) x = "changed the stream's formatting";
            open("print"); kv("a", c[1]); kv("text", jcodes(os.str())); kv("x", jstr(x)); close();
        }
        else if (w == "prints") {                  // two numbers among other things on one stream
            const Num &a = *pool[reg(c[1])], &b = *pool[reg(c[2])];
            std::ostringstream os;
            x = guard([&] { os << '[' << a << ' ' << 255 << ' ' << b << ' ' << 1.5 << ' ' << true << std::setw(5) << -7 << ']' << b; });
            if (x.empty() && !os.good()) x = "stream failed";
            open("prints"); kv("a", c[1]); kv("b", c[2]); kv("text", jcodes(os.str())); kv("x", jstr(x)); close();
        }
        else if (w == "ctor") {                    // ctor r desc n d1..dn (most significant first)
            void* p = std::malloc(sizeof(Num));
            std::vector<digit_t> d;
            std::string l = "[";
            for (std::size_t i = 0; i < num(c[3]); ++i) {
                u64 v = num(c[4 + i]);
                d.push_back(digit_t(v));
                l += (i ? "," : "") + jdigit(v, ti);
            }
            bn_desc_t k = (bn_desc_t)descval(c[2]);
            x = guard([&] { construct(p, k, d); });
            replace(reg(c[1]), p, x);
            open("ctor"); kv("r", c[1]); kv("k", jstr(c[2])); kv("list", l + "]"); kv("x", jstr(x)); close();
        }
        else if (w == "dctor") {
            void* p = std::malloc(sizeof(Num));
            x = guard([&] { new (p) Num(); });
            replace(reg(c[1]), p, x);
            open("clear"); kv("a", c[1]); kv("x", jstr(x)); close();
        }
        else if (w == "resize") {                  // resize r n [d]
            const std::size_t n = num(c[2]);
            Num& a = *pool[reg(c[1])];
            u64 d = c.size() > 3 ? num(c[3]) : 0;
            x = guard([&] { if (c.size() > 3) a.resize(n, digit_t(d)); else a.resize(n); });
            edit("resize", c[1], (long)n, d, x);
        }
        else if (w == "pushf" || w == "pushb") {
            Num& a = *pool[reg(c[1])];
            u64 d = num(c[2]);
            x = guard([&] { if (w == "pushf") a.push_front(digit_t(d)); else a.push_back(digit_t(d)); });
            edit(w.c_str(), c[1], 0, d, x);
        }
        else if (w == "popf" || w == "popb") {
            Num& a = *pool[reg(c[1])];
            if (a.numData.empty()) return;
            x = guard([&] { if (w == "popf") a.pop_front(); else a.pop_back(); });
            edit(w.c_str(), c[1], 0, 0, x);
        }
        else if (w == "pushat") {                  // position taken modulo size+1
            Num& a = *pool[reg(c[1])];
            const std::size_t pos = num(c[2]) % (a.numData.size() + 1);
            u64 d = num(c[3]);
            x = guard([&] { a.push(digit_t(d), pos); });
            edit("pushat", c[1], (long)pos, d, x);
        }
        else if (w == "popat") {
            Num& a = *pool[reg(c[1])];
            if (a.numData.empty()) return;
            const std::size_t pos = num(c[2]) % a.numData.size();
            x = guard([&] { a.pop(pos); });
            edit("popat", c[1], (long)pos, 0, x);
        }
        else if (w == "clear") {
            Num& a = *pool[reg(c[1])];
            x = guard([&] { a.clear(); });
            open("clear"); kv("a", c[1]); kv("x", jstr(x)); close();
        }
        else if (w == "setk") {
            Num& a = *pool[reg(c[1])];
            bn_desc_t k = (bn_desc_t)descval(c[2]);
            x = guard([&] { a.setDescriptor(k); });
            open("setk"); kv("a", c[1]); kv("k", jstr(c[2])); kv("x", jstr(x)); close();
        }
        else if (w == "query") {
            const Num& a = *pool[reg(c[1])];
            bool r[5] = {}; long n = -1; bool same = false; int d = -1;
            x = guard([&] {
                r[0] = a.isPositive(); r[1] = a.isNegative(); r[2] = a.isInfinite(); r[3] = a.isNan();
                r[4] = Num::isComputable(a.getDescriptor());
                n = (long)a.size();
                same = &a.getData() == &a.numData;
                d = (int)a.getDescriptor();
            });
            if (x.empty() && !same) x = "getData is something else";
            open("query"); kv("a", c[1]); bools("res", {r[0], r[1], r[2], r[3], r[4]});
            kv("size", n); kv("k", jstr(descname(d))); kv("x", jstr(x)); close();
        }
        else if (w == "idx" || w == "idxc" || w == "idxw") {   // pos "+n": relative to the size
            Num& a = *pool[reg(c[1])];
            std::size_t pos = c[2][0] == '+' ? a.numData.size() + num(c[2].substr(1))
                            : c[2][0] == '-' ? (a.numData.size() ? num(c[2].substr(1)) % a.numData.size() : 0)
                            : num(c[2]);
            u64 d = w == "idxw" ? num(c[3]) : 0, got = 0;
            capture_begin();
            if (w == "idx") x = guard([&] { got = val(a[pos]); });
            else if (w == "idxc") x = guard([&] { got = val(((const Num&)a)[pos]); });
            else x = guard([&] { digit_t& r = a[pos]; r = digit_t(d); got = val(r); });
            Captured s = capture_end();
            open("idx"); kv("a", c[1]); kv("pos", (long)(pos > (1u << 30) ? (1u << 30) : pos));
            kv("w", w == "idxw" ? jdigit(d, ti) : std::string("[]"));
            kv("got", jdigit(got, ti));
            kv("x", jstr(x)); kv("out", lines(s.o)); kv("err", lines(s.e)); close();
        }
        else if (w == "peek") {                    // one digit, if there is any
            const Num& a = *pool[reg(c[1])];
            const std::size_t n = a.numData.size();
            u64 got = 0;
            if (n) x = guard([&] { got = val(a[num(c[2]) % n]); });
            open("peek"); kv("a", c[1]); kv("got", jdigit(got, ti)); kv("x", jstr(x)); close();
        }
        else if (w == "beyond") {                  // a digit that is not there; beyond a k [write]
            const u64 at = (u64)pool[reg(c[1])]->numData.size() + num(c[2]);
            if (c.size() > 3) { Num& a = *pool[reg(c[1])]; x = guard([&] { a[at] = digit_t(1); }); }
            else { const Num& a = *pool[reg(c[1])]; x = guard([&] { (void)val(a[at]); }); }
            open("beyond"); kv("a", c[1]); kv("x", jstr(x)); close();
        }
        else if (w == "complain") {                // a failed check whose report nobody reads; complain alert|warning|error
            const bn_error_t type = c[1] == "alert" ? (bn_error_t)0 : c[1] == "warning" ? (bn_error_t)1 : (bn_error_t)2;
            x = guard([&] { bn_runtime_assert(false, type, c[1].c_str()); });
            open("complain"); kv("sev", jstr(c[1])); kv("x", jstr(x)); close();
        }
        else if (w == "diag") diag(c);
        // numbers taken apart and rebuilt (C16); only finite ones can be
        else if ((w == "apart" || w == "rebuild" || w == "round") && look(*pool[reg(c[1])]).desc > 1) return;
        else if (w == "apart") {                   // apart a BASE: digits of |a| by repeated division
            apart(c);
        }
        else if (w == "rebuild") {                 // rebuild a TYPE: a's digits, multiplied together in TYPE
            const Num& a = *pool[reg(c[1])];
            const TypeDriver* o = find_type(c[2]);
            Snap s = look(a);
            std::vector<u64> msf(s.dig.rbegin(), s.dig.rend());
            Snap r;
            x = guard([&] { mem::tracked = false; r = o->horner(ti.base, msf); });
            open("xeq"); kv("a", c[1]); kv("k", jstr(s.desc == 1 && !zero(r.dig) ? "neg" : "pos")); kv("C", o->info.B);
            kv("s", jlimbs(r.dig, o->info)); kv("x", jstr(x)); close();
        }
        else if (w == "round") {                   // round a t TYPE: through TYPE's base and back into t
            round_trip(c);
        }
        else if (w == "same") { open("same"); kv("a", c[1]); kv("b", c[2]); close(); }
        else { std::fprintf(stderr, "bad command %s\n", w.c_str()); std::_Exit(3); }
    }

    static bool zero(const std::vector<u64>& d) { for (u64 x : d) if (x) return false; return true; }

    void edit(const char* op, const std::string& r, long pos, u64 d, const std::string& x) {
        open(op); kv("a", r); kv("pos", pos); kv("dig", jdigit(d, ti)); kv("x", jstr(x)); close();
    }

    static void construct(void* p, bn_desc_t k, const std::vector<digit_t>& d) {
        // a braced list has a fixed length
        switch (d.size()) {
            case 0: new (p) Num(k, {}); break;
            case 1: new (p) Num(k, {d[0]}); break;
            case 2: new (p) Num(k, {d[0], d[1]}); break;
            case 3: new (p) Num(k, {d[0], d[1], d[2]}); break;
            case 4: new (p) Num(k, {d[0], d[1], d[2], d[3]}); break;
            case 5: new (p) Num(k, {d[0], d[1], d[2], d[3], d[4]}); break;
            case 6: new (p) Num(k, {d[0], d[1], d[2], d[3], d[4], d[5]}); break;
            case 7: new (p) Num(k, {d[0], d[1], d[2], d[3], d[4], d[5], d[6]}); break;
            case 8: new (p) Num(k, {d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]}); break;
            case 12: new (p) Num(k, {d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8], d[9], d[10], d[11]}); break;
            case 20: new (p) Num(k, {d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8], d[9],
                                     d[10], d[11], d[12], d[13], d[14], d[15], d[16], d[17], d[18], d[19]}); break;
            default: std::fprintf(stderr, "list length %u\n", (unsigned)d.size()); std::_Exit(3);
        }
    }

    void diag(const Cmd& c) {                      // diag severity condition [macro | text K]
        const std::string& sev = c[1];
        const bool cond = c[2] == "1";
        std::string text = "marker-7391";
        if (c.size() > 4 && c[3] == "text") {
            if (c[4] == "percent") text = "marker %s %d %n 100%";
            else if (c[4] == "long") text = std::string(5000, 'm') + "end";
            else if (c[4] == "empty") text = "";
            else if (c[4] == "quote") text = "\"quoted\" \\ \t marker";
        }
        const int type = sev == "alert" ? 0 : sev == "warning" ? 1 : sev == "error" ? 2 : 3;   // 3: only in a debug build
#ifdef BN_DEBUG
        const char* const debug = "debug";
#else
        const char* const debug = "off";
#endif
        std::string x;
        long evals = 1;
        capture_begin();
        if (c.size() > 3 && c[3] == "macro") {
            evals = 0;
            const bool yes = c[0] == "diag";
            bool astray = false;
            text = "marker_7391";
            auto marker_7391 = [&] { ++evals; return cond; };
            x = guard([&] {
                const std::string shape = c.size() > 4 ? c[4] : "";
#define SHAPES(CHECK) \
                if (shape == "or") CHECK(marker_7391() || !yes); \
                else if (shape == "and") CHECK(yes && marker_7391()); \
                else if (shape == "choice") CHECK(yes ? marker_7391() : yes); \
                else if (shape == "else") { if (yes) CHECK(marker_7391()); else astray = true; } \
                else if (shape == "loop") for (int i = 0; i < 1; ++i) CHECK(marker_7391()); \
                else CHECK(marker_7391())
                if (type == 0) { SHAPES(BN_ALERT); }
                else if (type == 1) { SHAPES(BN_WARN); }
                else if (type == 2) { SHAPES(BN_ASSERT); }
                else { SHAPES(BN_DEBUG_ASSERT); }
#undef SHAPES
            });
            if (x.empty() && astray) x = "the else branch ran";
        }
        else x = guard([&] { bn_runtime_assert(cond, (bn_error_t)type, text.c_str()); });
        Captured s = capture_end();
        const std::string& where = type == 0 ? s.o : s.e;
        const bool msg = !where.empty() && where.find(text) != std::string::npos;
        open("diag"); kv("sev", jstr(type == 3 ? debug : sev)); kv("cond", cond ? "true" : "false"); kv("evals", evals); kv("x", jstr(x));
        kv("out", lines(s.o)); kv("err", lines(s.e)); kv("msg", msg ? "true" : "false"); close();
    }

    // u64 -> number, by pushing digits
    static Num make(u64 v, u64 base) {
        Num n;
        while (v) { n.push_back(digit_t(v % base)); v /= base; }
        return n;
    }
    static u64 small(const Num& n, u64 base) {
        u64 v = 0;
        for (std::size_t i = n.size(); i--;) v = v * base + val(n.getData()[i]);
        return v;
    }
    // digits of |a| in base C, least significant first: d = n - (n/C)*C
    std::vector<u64> peel(const Num& a, u64 C) {
        std::vector<u64> r;
        Num n = a;
        n.setDescriptor(BN_POS);
        const Num base = make(C, ti.base), zero_ = Num();
        while (n > zero_) {
            Num q = n / base;
            Num d = n - q * base;
            r.push_back(small(d, ti.base));
            n = q;
            if (r.size() > 100000) throw std::runtime_error("endless");
        }
        return r;
    }
    void apart(const Cmd& c) {
        const Num& a = *pool[reg(c[1])];
        const TypeDriver* o = find_type(c[2]);
        std::vector<u64> r;
        std::string x = guard([&] { mem::tracked = false; r = peel(a, o->info.base); });
        open("xeq"); kv("a", c[1]); kv("k", jstr(a.descriptor == BN_NEG && !zero(r) ? "neg" : "pos")); kv("C", o->info.B);
        kv("s", jlimbs(r, o->info)); kv("x", jstr(x)); close();
    }
    void round_trip(const Cmd& c) {
        const Num& a = *pool[reg(c[1])];
        Num& t = *pool[reg(c[2])];
        const TypeDriver* o = find_type(c[3]);
        std::string x = guard([&] {
            mem::tracked = false;
            std::vector<u64> r = peel(a, o->info.base);
            const Num base = make(o->info.base, ti.base);
            Num acc;
            for (std::size_t i = r.size(); i--;) acc = (acc * base) + make(r[i], ti.base);
            if (a.isNegative()) acc = Num() - acc;
            t = acc;
        });
        open("claim"); kv("a", c[1]); kv("r", c[2]); kv("x", jstr(x)); close();
    }
    static Snap horner(u64 base, const std::vector<u64>& digits) {
        const u64 own = type_base();
        const Num b = make(base, own);
        Num acc;
        for (u64 d : digits) { acc *= b; acc += make(d, own); }
        return look(acc);
    }
    static u64& type_base() { static u64 b = 0; return b; }

    void all() {
        seen.clear(); pool.clear();
        for (int i = 0; i < sc.nregs; ++i) { pool.push_back(fresh()); seen.push_back(Snap()); seen.back().desc = 0; }
        for (const Cmd& c : sc.cmds) {
            if (c[0] == "end") continue;
            if (log) { std::string n; for (const std::string& s : c) { n += s; n += ' '; if (n.size() > 200) break; } out::note(n); }
            exec(c);
        }
        for (Num* n : pool) dispose(n);
        pool.clear();
    }

    static void run(const Script& s, const TypeInfo& t) { run_as<Driver>(s, t); }
    template <class D> static void run_as(const Script& s, const TypeInfo& t) {
        type_base() = t.base;
        out::begin(s, t);
        const long live0 = mem::live;
        D d(s, t, true);
        d.all();
        long left = mem::live - live0;
        // memory kept once (a cache) is not a leak; memory lost on each run is
        for (int again = 0; again < 2 && left > 0; ++again) {
            const long l0 = mem::live;
            D e(s, t, false);
            e.all();
            left = mem::live - l0;
        }
        if (!s.cmds.empty() && s.cmds.back()[0] == "end") {
            d.seen.clear();
            d.open("end"); d.kv("live", left); d.ev += ",\"ch\":[]}";
            out::raw(d.ev);
        }
    }
};

}
#ifndef DRIVER
#define DRIVER Driver
#endif
#define DRIVE(NAME, NUM, B, K, BASE) \
    namespace vp { static struct Reg_##NAME { Reg_##NAME() { \
        Driver<NUM>::type_base() = (BASE); \
        register_type(TypeDriver{TypeInfo{#NAME, B, K, BASE}, &DRIVER<NUM>::run, &Driver<NUM>::horner}); } } reg_##NAME; } struct vp_end
