#include "rt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <new>
#include <sstream>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>

namespace vp {

// ---- memory ------------------------------------------------------------------
namespace mem {
    thread_local bool tracked = false;
    long live = 0, allocs = 0, fail_at = 0;
    bool failed = false;
    static long bytes = 0;
    static const long CAP = 1500L * 1000 * 1000;
}
#ifndef PLAIN_MEMORY
struct Head { u64 magic; u64 size; };            // 16 bytes keep the alignment
static const u64 LIB = 0x11bb11bb11bb11bbULL, OTHER = 0x22aa22aa22aa22aaULL;
static void stop_now(const char* why);
static void* obtain(std::size_t n) {
    bool lib = mem::tracked;
    if (lib) {
        __atomic_add_fetch(&mem::allocs, 1, __ATOMIC_RELAXED);
        if (mem::fail_at > 0 && --mem::fail_at == 0) { mem::failed = true; throw std::bad_alloc(); }
        if (mem::bytes + (long)n > mem::CAP || n > (std::size_t)mem::CAP) stop_now("memory");
        __atomic_add_fetch(&mem::live, 1, __ATOMIC_RELAXED);
        __atomic_add_fetch(&mem::bytes, (long)n, __ATOMIC_RELAXED);
    }
    Head* h = (Head*)std::malloc(n + sizeof(Head));
    if (!h) std::abort();
    h->magic = lib ? LIB : OTHER;
    h->size = n;
    return h + 1;
}
static void release(void* p) {
    if (!p) return;
    Head* h = (Head*)p - 1;
    if (h->magic == LIB) {
        __atomic_sub_fetch(&mem::live, 1, __ATOMIC_RELAXED);
        __atomic_sub_fetch(&mem::bytes, (long)h->size, __ATOMIC_RELAXED);
    }
    else if (h->magic != OTHER) std::abort();
    h->magic = 0;
    std::free(h);
}
}
void* operator new(std::size_t n) { return vp::obtain(n); }
void* operator new[](std::size_t n) { return vp::obtain(n); }
void operator delete(void* p) noexcept { vp::release(p); }
void operator delete[](void* p) noexcept { vp::release(p); }
void operator delete(void* p, std::size_t) noexcept { vp::release(p); }
void operator delete[](void* p, std::size_t) noexcept { vp::release(p); }
namespace vp {
#endif

// ---- names -------------------------------------------------------------------
const char* const DESC[] = {"pos", "neg", "nan", "+inf", "-inf"};
std::string descname(int d) { return d >= 0 && d < 5 ? DESC[d] : "bad"; }
int descval(const std::string& s) {
    for (int i = 0; i < 5; ++i) if (s == DESC[i]) return i;
    std::fprintf(stderr, "bad descriptor %s\n", s.c_str());
    std::_Exit(3);
}
std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) r += '?';
        else r += c;
    }
    return r + "\"";
}
std::string jcodes(const std::string& s) {
    std::string r = "[";
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (i) r += ',';
        r += std::to_string((unsigned)(unsigned char)s[i]);
    }
    return r + "]";
}
static void limbs_of(u64 d, const TypeInfo& t, std::string& r) {
    for (unsigned j = 0; j < t.k; ++j) {
        u64 l;
        if (j + 1 < t.k) { l = d % t.B; d /= t.B; }
        else l = d;                              // an illegal digit shows here
        if (l > (1u << 30)) l = 1u << 30;        // TLC's integers are 32 bits
        if (r.back() != '[') r += ',';
        r += std::to_string(l);
    }
}
std::string jlimbs(const std::vector<u64>& v, const TypeInfo& t) {
    std::string r = "[";
    for (u64 d : v) limbs_of(d, t, r);
    return r + "]";
}
std::string jdigit(u64 d, const TypeInfo& t) { std::string r = "["; limbs_of(d, t, r); return r + "]"; }

// ---- registry ----------------------------------------------------------------
static std::vector<TypeDriver>& types() { static std::vector<TypeDriver> v; return v; }
void register_type(const TypeDriver& t) { types().push_back(t); }
const TypeDriver* find_type(const std::string& n) {
    for (auto& t : types()) if (n == t.info.name) return &t;
    return nullptr;
}

// ---- output through memory shared with the parent, which survives a crash ------
struct Shared {
    volatile long current;       // script being run
    volatile long len;           // bytes of its trace so far
    volatile long why;           // 1: memory
    char note[256];
    char buf[1];
};
static const std::size_t SHM = 256u * 1024 * 1024;
static Shared* shm;
static bool first_event;
static bool is_active = false;
static int out_fd = -1;

static void stop_now(const char*) { shm->why = 1; std::_Exit(7); }

static void put(const std::string& s) {
    if ((std::size_t)shm->len + s.size() + sizeof(Shared) + 4096 > SHM) stop_now("trace");
    std::memcpy(shm->buf + shm->len, s.data(), s.size());
    shm->len = shm->len + (long)s.size();
}
static std::string header(const Script& s, const TypeInfo& t) {
    return "{\"id\":" + jstr(s.id) + ",\"t\":" + jstr(t.name) + ",\"B\":" + std::to_string(t.B) +
           ",\"k\":" + std::to_string(t.k) + ",\"n\":" + std::to_string(s.nregs) + ",\"ev\":[";
}
namespace out {
    void begin(const Script& s, const TypeInfo& t) { shm->len = 0; first_event = true; put(header(s, t)); is_active = true; }
    void raw(const std::string& e) {
        if (!first_event) put(",\n");
        first_event = false;
        put(e);
    }
    void note(const std::string& w) { std::snprintf(shm->note, sizeof shm->note, "%s", w.c_str()); }
    bool active() { return is_active; }
    static void write_all(const char* p, long n) {
        while (n > 0) { ssize_t k = write(out_fd, p, n); if (k <= 0) std::_Exit(4); p += k; n -= k; }
    }
    static void flush_line(const char* tail) {
        // events are separated by ",\n" in memory; the file has one line per trace
        for (long i = 0; i < shm->len; ++i) if (shm->buf[i] == '\n') shm->buf[i] = ' ';
        write_all(shm->buf, shm->len);
        write_all(tail, (long)std::strlen(tail));
    }
    void finish() { flush_line("]}\n"); shm->len = 0; is_active = false; }
}

// ---- standard stream capture ----------------------------------------------------
static int save1 = -1, save2 = -1, cap1 = -1, cap2 = -1;
void capture_begin() {
    std::cout.flush(); std::cerr.flush(); std::fflush(stdout); std::fflush(stderr);
    if (cap1 < 0) { cap1 = memfd_create("o", 0); cap2 = memfd_create("e", 0); save1 = dup(1); save2 = dup(2); }
    if (ftruncate(cap1, 0) || ftruncate(cap2, 0)) std::_Exit(4);
    lseek(cap1, 0, SEEK_SET); lseek(cap2, 0, SEEK_SET);
    dup2(cap1, 1); dup2(cap2, 2);
}
static std::string slurp(int fd) {
    std::string r; char b[4096]; ssize_t k;
    lseek(fd, 0, SEEK_SET);
    while ((k = read(fd, b, sizeof b)) > 0) r.append(b, k);
    return r;
}
Captured capture_end() {
    std::cout.flush(); std::cerr.flush(); std::fflush(stdout); std::fflush(stderr);
    dup2(save1, 1); dup2(save2, 2);
    std::cout.clear(); std::cerr.clear();
    return Captured{slurp(cap1), slurp(cap2)};
}

static long op_seconds = 20, limit_s = 20;
#ifdef PLAIN_MEMORY
static const bool one_each = true;               // nothing warmed up by earlier scripts
#else
static const bool one_each = false;
#endif
bool op_timer_off = false;
void op_timer(bool on) {
    if (op_timer_off) return;
    struct itimerval t;
    std::memset(&t, 0, sizeof t);
    if (on) t.it_value.tv_sec = limit_s;
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
}

// ---- main -----------------------------------------------------------------------
static std::vector<Script> read_scripts(const char* path) {
    std::vector<Script> v;
    std::ifstream f(path);
    std::string line;
    while (std::getline(f, line)) {
        std::istringstream is(line);
        Cmd c; std::string w;
        while (is >> w) c.push_back(w);
        if (c.empty()) continue;
        if (c[0] == "T") { Script s; s.id = c[1]; s.type = c[2]; s.nregs = std::atoi(c[3].c_str()); v.push_back(s); }
        else v.back().cmds.push_back(c);
    }
    return v;
}

static void run_one(const Script& s) {
    const TypeDriver* t = find_type(s.type);
    if (!t) { std::fprintf(stderr, "unknown type %s\n", s.type.c_str()); std::_Exit(3); }
    limit_s = s.id.compare(0, 5, "vlong") ? op_seconds : 10 * op_seconds;   // an honest quadratic algorithm is not a hang
    t->run(s, t->info);
    out::finish();
}

}

using namespace vp;

// usage: driver SCRIPT OUT [op-seconds]
int main(int argc, char** argv) {
    if (argc < 3) return 3;
    if (argc > 3) op_seconds = std::atol(argv[3]);
    std::vector<Script> scripts = read_scripts(argv[1]);
    FILE* o = std::fopen(argv[2], "w");
    if (!o) return 3;
    out_fd = fileno(o);
    shm = (Shared*)mmap(nullptr, SHM, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (shm == MAP_FAILED) return 3;
    long next = 0;
    int bad = 0;
    while (next < (long)scripts.size()) {
        shm->current = next; shm->len = 0; shm->why = 0; shm->note[0] = 0;
        pid_t p = fork();
        if (p == 0) {
            const long stop = one_each ? next + 1 : (long)scripts.size();
            for (long i = next; i < stop; ++i) {
                shm->current = i;
                run_one(scripts[i]);
            }
            std::_Exit(0);
        }
        if (p < 0) return 3;
        int st = 0;
        waitpid(p, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { next = shm->current + 1; continue; }
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 3 || WEXITSTATUS(st) == 4)) return WEXITSTATUS(st);
        // abnormal end: the trace ends with an event no action accepts
        long i = shm->current;
        const char* kind = shm->why == 1 ? "memory"
                         : (WIFSIGNALED(st) && WTERMSIG(st) == SIGVTALRM) ? "hang" : "crash";
        if (shm->len == 0) { const TypeDriver* t = find_type(scripts[i].type); out::begin(scripts[i], t->info); }
        std::string e = std::string(shm->buf[shm->len - 1] == '[' ? "" : ",") + "{\"op\":\"" + kind + "\",\"during\":" + jstr(shm->note) + ",\"ch\":[]}]}\n";
        out::flush_line(e.c_str());
        next = i + 1;
        if (++bad >= 5) break;
    }
    std::fclose(o);
    return 0;
}
