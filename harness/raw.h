// Drives the stand-alone magnitude routines on the digits of pool members.
#pragma once
#define DRIVER RawDriver
#include "drv.h"

namespace vp {

template <class N> struct LimitsOf;
template <class L, class C> struct LimitsOf<Bignum<L, C>> { typedef L type; };

template <class Num>
struct RawDriver : Driver<Num> {
    typedef Driver<Num> Base;
    typedef typename LimitsOf<Num>::type limits_t;
    typedef typename Num::container_type container_t;
    using Base::pool; using Base::reg; using Base::guard; using Base::open; using Base::kv; using Base::close;
    RawDriver(const Script& s, const TypeInfo& t, bool l) : Base(s, t, l) {}

    // compare magnitudes without the code under test
    static int order(const container_t& a, const container_t& b) {
        for (std::size_t i = a.size() > b.size() ? a.size() : b.size(); i--;) {
            u64 x = i < a.size() ? Base::val(a[i]) : 0, y = i < b.size() ? Base::val(b[i]) : 0;
            if (x != y) return x < y ? -1 : 1;
        }
        return 0;
    }

    void exec(const Cmd& c) override {
        if (c[0] == "raw") {                       // raw FN t a b : t's digits := FN(a's, b's)
            const std::string& fn = c[1];
            container_t &t = pool[reg(c[2])]->numData, &a = pool[reg(c[3])]->numData;
            const container_t& b = pool[reg(c[4])]->numData;
            // the documented preconditions
            if (fn == "sub" && order(a, b) < 0) return;
            if (fn == "div" && order(b, container_t()) == 0) return;
            std::string x;
            if (fn == "mulfft" || fn == "mulnaive") {
                container_t r;
                x = guard([&] {
                    r = fn == "mulfft" ? mul_strassen<limits_t, container_t>(a, b) : mul_naive<limits_t, container_t>(a, b);
                });
                t = r;
            }
            else {
                // in place when t = a; otherwise on a copy, which may share nothing
                container_t r;
                container_t* o = &t == &a ? &a : &(r = a);
                x = guard([&] {
                    if (fn == "add") abs_val_add<limits_t, container_t>(*o, b);
                    else if (fn == "sub" || fn == "subdebug") abs_val_sub<limits_t, container_t>(*o, b);
                    else if (fn == "div") abs_val_div<limits_t, container_t>(*o, b);
                    else { std::fprintf(stderr, "bad routine %s\n", fn.c_str()); std::_Exit(3); }
                });
                if (o == &r) t = r;
            }
            open("raw"); kv("fn", jstr(fn)); kv("r", c[2]); kv("a", c[3]); kv("b", c[4]); kv("x", jstr(x)); close();
        }
        else if (c[0] == "rawcmp") {
            const container_t &a = pool[reg(c[1])]->numData, &b = pool[reg(c[2])]->numData;
            bool r[5] = {};
            std::string x = guard([&] {
                r[0] = abs_val_is_eq<container_t>(a, b);
                r[1] = abs_val_is_gt<container_t>(a, b);
                r[2] = abs_val_is_ge<container_t>(a, b);
                r[3] = abs_val_is_lt<container_t>(a, b);
                r[4] = abs_val_is_le<container_t>(a, b);
            });
            open("rawcmp"); kv("a", c[1]); kv("b", c[2]);
            this->bools("res", {r[0], r[1], r[2], r[3], r[4]});
            kv("x", jstr(x)); close();
        }
        else Base::exec(c);
    }
    static void run(const Script& s, const TypeInfo& t) { Base::template run_as<RawDriver>(s, t); }
};

}
