#include <atomic>
namespace vp { std::atomic<int> race_reports(0); }
extern "C" void __tsan_on_report(void*) { vp::race_reports.fetch_add(1, std::memory_order_relaxed); }
