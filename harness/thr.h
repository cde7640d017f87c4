// Several threads working at once: each has its own numbers, all read the
// first ones.  Commands: "shared N" (the first N registers), "schedule i j .."
// (whose turn it is, call by call; without it the threads run freely),
// "at I command.." (thread I's next call; set commands come first and are
// executed before the threads start for the shared registers).
#pragma once
#define DRIVER ThrDriver
#include "drv.h"
#include <atomic>
#include <thread>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

namespace vp {

extern bool op_timer_off;
extern std::atomic<int> race_reports;

template <class Num>
struct ThrDriver : Driver<Num> {
    typedef Driver<Num> Base;
    std::vector<std::pair<long, std::string>> got;   // (ticket, event)
    std::atomic<long>* ticket;
    std::vector<Cmd> prog;
    ThrDriver(const Script& s, const TypeInfo& t, bool l) : Base(s, t, l), ticket(nullptr) {}
    void emit(const std::string& e) override {
        got.emplace_back(ticket ? ticket->fetch_add(1, std::memory_order_relaxed) : 0, e);
    }

    struct Team {                                  // one script's threads
        const Script& sc; const TypeInfo& ti;
        int nshared, nthreads;
        std::vector<int> schedule;
        std::vector<Num*> shared;
        std::vector<ThrDriver*> th;
        Team(const Script& s, const TypeInfo& t) : sc(s), ti(t), nshared(0), nthreads(0) {
            for (const Cmd& c : s.cmds) {
                if (c[0] == "shared") nshared = std::atoi(c[1].c_str());
                else if (c[0] == "schedule") for (std::size_t i = 1; i < c.size(); ++i) schedule.push_back(std::atoi(c[i].c_str()) - 1);
                else if (c[0] == "at") { int i = std::atoi(c[1].c_str()); if (i > nthreads) nthreads = i; }
            }
            for (int i = 0; i < nshared; ++i) shared.push_back(Base::fresh());
            ThrDriver maker(s, t, false);
            maker.pool = shared; maker.seen.resize(nshared);
            for (const Cmd& c : s.cmds) if (c[0] == "set" || c[0] == "setr") maker.exec(c);
            for (int i = 0; i < nthreads; ++i) {
                ThrDriver* d = new ThrDriver(s, t, true);
                d->pool = shared;
                for (int k = nshared; k < s.nregs; ++k) d->pool.push_back(Base::fresh());
                d->seen.resize(s.nregs);
                for (Snap& z : d->seen) z.desc = 0;
                for (int k = 0; k < nshared; ++k) d->seen[k] = Base::look(*shared[k]);
                th.push_back(d);
            }
            for (const Cmd& c : s.cmds) if (c[0] == "at") th[std::atoi(c[1].c_str()) - 1]->prog.push_back(Cmd(c.begin() + 2, c.end()));
        }
    };

    static std::string quoted(const std::string& e) { return e; }

    // what a thread gets when the others do nothing, from a process of its own
    static std::vector<std::vector<std::string>> alone(const Script& s, const TypeInfo& t) {
        std::vector<std::vector<std::string>> r;
        int n = 0;
        for (const Cmd& c : s.cmds) if (c[0] == "at") { int i = std::atoi(c[1].c_str()); if (i > n) n = i; }
        for (int i = 0; i < n; ++i) {
            int fd = memfd_create("alone", 0);
            pid_t p = fork();
            if (p == 0) {
                Team team(s, t);
                std::string all;
                for (const Cmd& c : team.th[i]->prog) team.th[i]->exec(c);
                for (auto& g : team.th[i]->got) all += g.second + "\n";
                const char* q = all.data(); std::size_t left = all.size();
                while (left) { ssize_t k = write(fd, q, left); if (k <= 0) _exit(4); q += k; left -= (std::size_t)k; }
                _exit(0);
            }
            int st = 0;
            waitpid(p, &st, 0);
            if (!WIFEXITED(st) || WEXITSTATUS(st)) { if (WIFSIGNALED(st)) raise(WTERMSIG(st)); std::_Exit(9); }
            std::string all; char b[65536]; ssize_t k;
            lseek(fd, 0, SEEK_SET);
            while ((k = read(fd, b, sizeof b)) > 0) all.append(b, (std::size_t)k);
            close_fd(fd);
            std::vector<std::string> ev;
            std::size_t at = 0;
            while (at < all.size()) { std::size_t e = all.find('\n', at); ev.push_back(all.substr(at, e - at)); at = e + 1; }
            r.push_back(ev);
        }
        return r;
    }
    static void close_fd(int fd);

    static std::string numbers(const std::vector<Num*>& v, const TypeInfo& t) {
        std::string r = "[";
        for (Num* n : v) {
            Snap s = Base::look(*n);
            r += (r.size() > 1 ? ",[\"" : "[\"") + descname(s.desc) + "\"," + jlimbs(s.dig, t) + "]";
        }
        return r + "]";
    }

    static void run(const Script& s, const TypeInfo& t) {
        op_timer_off = false;
        op_timer(true);                            // processor time of this process
        op_timer_off = true;
        out::begin(s, t);
        out::note("threads");
        const int null = ::open("/dev/null", O_WRONLY);   // complaints about digits that are not there
        dup2(null, 1); dup2(null, 2);
        close_fd(null);
        std::vector<std::vector<std::string>> solo = alone(s, t);
        race_reports = 0;
        Team team(s, t);
        out::raw("{\"op\":\"start\",\"threads\":" + std::to_string(team.nthreads) + ",\"shared\":" + numbers(team.shared, t) + "}");
        std::atomic<long> ticket(0);
        std::atomic<int> ready(0);
        std::atomic<std::size_t> turn(0);
        std::vector<std::thread> ts;
        for (int i = 0; i < team.nthreads; ++i) {
            ThrDriver* d = team.th[i];
            d->ticket = &ticket;
            ts.emplace_back([&, d, i] {
                ready.fetch_add(1, std::memory_order_relaxed);
                while (ready.load(std::memory_order_relaxed) < team.nthreads) std::this_thread::yield();
                for (const Cmd& c : d->prog) {
                    if (!team.schedule.empty()) {
                        std::size_t k;
                        while ((k = turn.load()) < team.schedule.size() && team.schedule[k] != i) std::this_thread::yield();
                        d->exec(c);
                        turn.fetch_add(1);
                    }
                    else d->exec(c);
                }
            });
        }
        for (std::thread& x : ts) x.join();
        struct E { long at; int th; std::size_t n; };
        std::vector<E> order;
        for (int i = 0; i < team.nthreads; ++i)
            for (std::size_t k = 0; k < team.th[i]->got.size(); ++k) order.push_back(E{team.th[i]->got[k].first, i, k});
        for (std::size_t a = 1; a < order.size(); ++a)
            for (std::size_t b = a; b && order[b].at < order[b - 1].at; --b) std::swap(order[b], order[b - 1]);
        for (const E& e : order) {
            const std::string& mine = team.th[e.th]->got[e.n].second;
            out::raw("{\"op\":\"step\",\"th\":" + std::to_string(e.th + 1) + ",\"n\":" + std::to_string(e.n + 1) + ",\"got\":" + mine +
                     ",\"alone\":" + (e.n < solo[e.th].size() ? solo[e.th][e.n] : std::string("{\"op\":\"none\"}")) + "}");
        }
        if (race_reports) out::raw("{\"op\":\"race\"}");
        std::string done = "[";
        for (int i = 0; i < team.nthreads; ++i) done += (i ? "," : "") + std::to_string(solo[i].size());
        out::raw("{\"op\":\"stop\",\"done\":" + done + "],\"shared\":" + numbers(team.shared, t) + "}");
    }
};
template <class Num> void ThrDriver<Num>::close_fd(int fd) { ::close(fd); }

}
