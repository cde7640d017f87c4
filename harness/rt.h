// Driver runtime: command scripts in, execution traces (ndjson) out.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>

namespace vp {

typedef std::uint64_t u64;
typedef std::vector<std::string> Cmd;

struct Script {                  // one trace to drive
    std::string id, type;
    int nregs;
    std::vector<Cmd> cmds;
};

// what a number looks like from outside
struct Snap {
    int desc;
    std::vector<u64> dig;        // least significant first
    bool operator==(const Snap& o) const { return desc == o.desc && dig == o.dig; }
};

struct TypeInfo {                // digit base = B^k
    const char* name;
    unsigned B, k;
    u64 base;                    // 0 stands for 2^64 (unused)
};

struct TypeDriver {
    TypeInfo info;
    void (*run)(const Script&, const TypeInfo&);
    // value of `digits` (base `base`, most significant first) computed inside
    // this number type by repeated multiply-and-add
    Snap (*horner)(u64 base, const std::vector<u64>& digits);
};

void register_type(const TypeDriver&);
const TypeDriver* find_type(const std::string&);

// ---- memory accounting -----------------------------------------------------
namespace mem {
    // allocations made while `tracked` is on belong to the library
    extern thread_local bool tracked;
    extern long live;            // library blocks alive
    extern long allocs;          // library allocations so far
    extern long fail_at;         // >0: the fail_at-th allocation from now throws
    extern bool failed;          // an allocation did fail
    struct Track {
        Track() { tracked = true; }
        ~Track() { tracked = false; }
    };
}

// ---- event output ----------------------------------------------------------
namespace out {
    void begin(const Script&, const TypeInfo&);
    void raw(const std::string& json);          // one event
    void note(const std::string& what);         // what is about to run
    void finish();
    bool active();
}

// what was written to the process's standard streams during a call
struct Captured { std::string o, e; };
void capture_begin();
Captured capture_end();

void op_timer(bool on);                          // per-operation CPU limit

std::string jstr(const std::string&);
std::string jcodes(const std::string&);          // text as a list of codes
std::string jlimbs(const std::vector<u64>&, const TypeInfo&);
std::string jdigit(u64, const TypeInfo&);
extern const char* const DESC[];                  // names of descriptors
std::string descname(int);
int descval(const std::string&);

}
