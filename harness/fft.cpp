// Executes command scripts on the Fourier helpers of hamsham/BigNum.
// types: f64, f32 (floating type of the tables).  Commands:
//   put n re im ..   pack CONT na a.. nb b..   packr CONT na nb seed pattern
//   fft | back | inv | fback | conv | coef | pow W n n n ..
#include "rt.h"
#include "bignum/bignum.h"
#include "bignum/fourier.h"
#include <cmath>
#include <cstdlib>
#include <stdexcept>

namespace vp {

static u64 num(const std::string& s) { return std::strtoull(s.c_str(), nullptr, 10); }

template <class F>
struct FftDriver {
    typedef cmplx_list_t<F> Table;
    Table tab;
    std::string ev;
    void open(const char* op) { ev = std::string("{\"op\":\"") + op + "\""; }
    void kv(const char* k, const std::string& j) { ev += std::string(",\"") + k + "\":" + j; }
    void close() { ev += "}"; out::raw(ev); }
    static const long BAD = 1L << 30;

    static std::string obs(double v) {            // nearest integer and distance
        if (!(std::fabs(v) < 1e9)) return "[" + std::to_string(BAD) + ",0]";
        double n = std::floor(v + 0.5);
        return "[" + std::to_string((long)n) + "," + std::to_string((long)std::floor((v - n) * 1048576 + .5)) + "]";
    }
    static std::string fixed(double v) {
        v *= 4096;
        if (!(std::fabs(v) < 1e9)) return std::to_string(BAD);
        return std::to_string((long)std::floor(v + .5));
    }
    static std::string all_obs(const Table& t) {
        std::string r = "[";
        for (auto& z : t) r += (r.size() > 1 ? ",[" : "[") + obs(z.real()) + "," + obs(z.imag()) + "]";
        return r + "]";
    }
    void bins(const Table& t, double scale) {
        const std::size_t n = t.size();
        kv("n", std::to_string(n));
        std::string q = "[", a = "[";
        for (int k = 0; k < 4; ++k) {
            std::size_t i = n * k / 4;
            std::complex<double> z(0, 0);
            if (i < n && i * 4 == n * k) z = {t[i].real() * scale, t[i].imag() * scale};
            q += (k ? ",[" : "[") + obs(z.real()) + "," + obs(z.imag()) + "]";
        }
        if (n <= 64) for (auto& z : t) a += (a.size() > 1 ? ",[" : "[") + fixed(z.real() * scale) + "," + fixed(z.imag() * scale) + "]";
        kv("q", q + "]"); kv("all", a + "]");
    }
    static std::string list(const std::vector<u64>& v) {
        std::string r = "[";
        for (u64 x : v) r += (r.size() > 1 ? "," : "") + std::to_string(x);
        return r + "]";
    }
    template <class D> void pack(const std::vector<u64>& a, const std::vector<u64>& b) {
        std::vector<D> x, y;
        for (u64 v : a) x.push_back(D(v));
        for (u64 v : b) y.push_back(D(v));
        tab = create_fft_table<std::vector<D>, F>(x, y);
        open("pack"); kv("a", list(a)); kv("b", list(b)); kv("obs", all_obs(tab)); close();
    }
    void pack_as(const std::string& c, const std::vector<u64>& a, const std::vector<u64>& b) {
        if (c == "b2") pack<bignum_base2::value_t>(a, b);
        else if (c == "b10") pack<bignum_base10::value_t>(a, b);
        else if (c == "b16") pack<bignum_base16::value_t>(a, b);
        else if (c == "lowp") pack<bignum_lowp::value_t>(a, b);
        else if (c == "medp") pack<bignum_medp::value_t>(a, b);
        else if (c == "highp") pack<bignum_highp::value_t>(a, b);
        else if (c == "uint") pack<unsigned>(a, b);
        else if (c == "uchar") pack<unsigned char>(a, b);
        else if (c == "double") pack<double>(a, b);
        else { std::fprintf(stderr, "container %s\n", c.c_str()); std::_Exit(3); }
    }
    template <class U> void pow(const Cmd& c, int w) {
        TypeInfo t{"", 256, (unsigned)w, 0};
        std::string r = "[";
        for (std::size_t i = 2; i < c.size(); ++i) {
            U n = (U)num(c[i]);
            U p = nextPow2<U>(n);
            bool is = isPow2<U>(n);
            r += (i > 2 ? ",[" : "[") + jdigit((u64)n, t) + "," + jdigit((u64)p, t) + "," + (is ? "true" : "false") + "]";
        }
        open("rows"); kv("rows", r + "]"); close();
    }
    void exec(const Cmd& c) {
        const std::string& w = c[0];
        if (w == "put") {
            tab.clear();
            std::string s = "[";
            for (std::size_t i = 0; i < num(c[1]); ++i) {
                long re = std::atol(c[2 + 2 * i].c_str()), im = std::atol(c[3 + 2 * i].c_str());
                tab.push_back(std::complex<F>((F)re, (F)im));
                s += (i ? ",[" : "[") + std::to_string(re) + "," + std::to_string(im) + "]";
            }
            open("put"); kv("s", s + "]"); close();
        }
        else if (w == "pack") {
            std::vector<u64> a, b;
            std::size_t n = num(c[2]);
            for (std::size_t i = 0; i < n; ++i) a.push_back(num(c[3 + i]));
            for (std::size_t i = 0; i < num(c[3 + n]); ++i) b.push_back(num(c[4 + n + i]));
            pack_as(c[1], a, b);
        }
        else if (w == "packr") {                   // packr CONT na nb seed max [all]
            u64 s = num(c[4]) * 0x9E3779B97F4A7C15ULL + 1, m = num(c[5]);
            std::vector<u64> v[2];
            for (int k = 0; k < 2; ++k) for (u64 i = 0; i < num(c[2 + k]); ++i) {
                s ^= s << 13; s ^= s >> 7; s ^= s << 17;
                unsigned q = (s >> 50) % 4;
                v[k].push_back(q == 0 || c.size() > 6 ? m : q == 1 ? 0 : (s >> 11) % (m + 1));
            }
            pack_as(c[1], v[0], v[1]);
        }
        else if (w == "fft") { fft_complex<F>(tab); open("fft"); bins(tab, 1); close(); }
        else if (w == "back") { ifft_complex<F>(tab); open("back"); kv("obs", all_obs(tab)); close(); }
        else if (w == "inv") { ifft_complex<F>(tab); open("inv"); bins(tab, (double)tab.size()); close(); }
        else if (w == "fback") { fft_complex<F>(tab); open("fback"); kv("obs", all_obs(tab)); close(); }
        else if (w == "conv") { convolute_fft<F>(tab); open("conv"); kv("n", std::to_string(tab.size())); close(); }
        else if (w == "coef") {
            ifft_complex<F>(tab);
            TypeInfo t{"", 256, 6, 0};
            std::string r = "[";
            for (auto& z : tab) {
                double x = std::floor((double)z.real() + 0.5);
                if (r.size() > 1) r += ",";
                r += x >= 0 && x < 281474976710656.0 ? jdigit((u64)x, t) : std::string("[-1]");
            }
            open("coef"); kv("coef", r + "]"); close();
        }
        else if (w == "pow") {
            if (c[1] == "8") pow<std::uint8_t>(c, 1);
            else if (c[1] == "16") pow<std::uint16_t>(c, 2);
            else if (c[1] == "32") pow<std::uint32_t>(c, 4);
            else if (c[1] == "64") pow<std::uint64_t>(c, 8);
            else if (c[1] == "size") pow<std::size_t>(c, 8);
            else if (c[1] == "int") pow<int>(c, 4);
            else if (c[1] == "long") pow<long>(c, 8);
        }
        else { std::fprintf(stderr, "bad command %s\n", w.c_str()); std::_Exit(3); }
    }
    static void run(const Script& s, const TypeInfo& t) {
        out::begin(s, t);
        FftDriver d;
        for (const Cmd& c : s.cmds) {
            std::string n; for (const std::string& x : c) { n += x; n += ' '; if (n.size() > 100) break; }
            out::note(n);
            op_timer(true);
            d.exec(c);
            op_timer(false);
        }
    }
};
static struct Reg { Reg() {
    register_type(TypeDriver{TypeInfo{"f64", 2, 1, 2}, &FftDriver<double>::run, nullptr});
    register_type(TypeDriver{TypeInfo{"f32", 2, 1, 2}, &FftDriver<float>::run, nullptr});
} } reg;

}
