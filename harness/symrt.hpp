// Symbolic runtime: the real templates of /repo are compiled natively with symbolic scalar types.
// Every operation on a symbolic value appends a node to a term DAG that is streamed to the driver
// (lib/driver.py); every C++ branch on a symbolic comparison asks the driver, which explores all
// feasible outcomes with an SMT solver.  In replay mode variables are constants read from a file and
// everything below executes natively, without any driver or solver.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include <unistd.h>
#include <sys/time.h>
#include <sys/wait.h>

namespace symrt {

struct Runtime {
    bool replay = false;
    bool div_checked = false;    // a division by zero on the replayed input is itself the violation
    int in_fd = 3, out_fd = 4;
    std::string buf;
    uint32_t next = 1;
    std::unordered_map<std::string, uint32_t> cons;
    std::map<std::string, std::string> values;   // replay: variable -> value
    int failed = 0;
    std::string casename;

    void put(const std::string &s) {
        buf += s;
        buf += '\n';
        if (buf.size() > (1u << 16)) flush();
    }
    void flush() {
        const char *p = buf.data();
        size_t n = buf.size();
        while (n) {
            ssize_t k = ::write(out_fd, p, n);
            if (k <= 0) _exit(97);
            p += k;
            n -= (size_t)k;
        }
        buf.clear();
    }
    uint32_t node(const std::string &desc) {
        auto it = cons.find(desc);
        if (it != cons.end()) return it->second;
        uint32_t id = next++;
        cons.emplace(desc, id);
        put("N " + std::to_string(id) + " " + desc);
        return id;
    }
};
inline Runtime &rt() {
    static Runtime r;
    return r;
}
inline std::string S(uint32_t x) { return std::to_string(x); }
inline uint32_t node1(const char *op, uint32_t a) { return rt().node(std::string(op) + " " + S(a)); }
inline uint32_t node2(const char *op, uint32_t a, uint32_t b) {
    return rt().node(std::string(op) + " " + S(a) + " " + S(b));
}
inline uint32_t node3(const char *op, uint32_t a, uint32_t b, uint32_t c) {
    return rt().node(std::string(op) + " " + S(a) + " " + S(b) + " " + S(c));
}
inline void fatal(const std::string &m) {
    if (rt().replay) {
        std::printf("REPLAY-ERROR %s\n", m.c_str());
        std::fflush(stdout);
        _exit(3);
    }
    rt().put("X " + m);
    rt().flush();
    _exit(96);
}
// ask the driver which way to go
inline bool branch(uint32_t cond) {
    if (rt().replay) fatal("symbolic branch during replay");
    rt().put("B " + S(cond));
    rt().flush();
    char c = 0;
    ssize_t k = ::read(rt().in_fd, &c, 1);
    if (k != 1) _exit(95);
    if (c == '0') return false;
    if (c == '1') return true;
    _exit(0);    // driver abandons this path
}

// A boolean term.  `v` is the value when the term is concrete (id == 0).
struct Bool {
    uint32_t id = 0;
    bool v = false;
    Bool() = default;
    Bool(bool b) : v(b) {}
    static Bool of(uint32_t id) {
        Bool b;
        b.id = id;
        return b;
    }
    uint32_t term() const { return id ? id : rt().node(v ? "true" : "false"); }
};
inline Bool operator&(const Bool &a, const Bool &b) {
    if (!a.id) return a.v ? b : a;
    if (!b.id) return b.v ? a : b;
    return Bool::of(node2("and", a.id, b.id));
}
inline Bool operator|(const Bool &a, const Bool &b) {
    if (!a.id) return a.v ? a : b;
    if (!b.id) return b.v ? b : a;
    return Bool::of(node2("or", a.id, b.id));
}
inline Bool operator!(const Bool &a) {
    if (!a.id) return Bool(!a.v);
    return Bool::of(node1("not", a.id));
}
inline Bool implies(const Bool &a, const Bool &b) { return !a | b; }
inline bool decide(const Bool &b) { return b.id ? branch(b.id) : b.v; }

inline void check(const Bool &b, const std::string &label) {
    if (rt().replay) {
        if (b.id) fatal("symbolic assertion during replay: " + label);
        if (!b.v) {
            std::printf("REPLAY-FAIL %s\n", label.c_str());
            std::fflush(stdout);
            rt().failed++;
        }
        return;
    }
    if (!b.id && b.v) {
        rt().put("T " + label);    // concretely true on this path
        return;
    }
    rt().put("A " + S(b.term()) + " " + label);
}
inline void check(bool b, const std::string &label) { check(Bool(b), label); }
inline void assume(const Bool &b) {
    if (rt().replay) {
        if (b.id) fatal("symbolic assumption during replay");
        if (!b.v) {
            std::printf("REPLAY-ASSUMPTION-FALSE\n");
            std::fflush(stdout);
            _exit(4);
        }
        return;
    }
    if (!b.id) {
        if (!b.v) {
            rt().put("K");
            rt().put("E");
            rt().flush();
            _exit(0);
        }
        return;
    }
    rt().put("H " + S(b.id));
}
inline void reach(const std::string &label) {
    if (!rt().replay) rt().put("W " + label);
}
inline void note(const std::string &s) {
    if (!rt().replay) rt().put("# " + s);
}

struct CaseEntry {
    std::string name;
    std::string opts;    // free-form "key=value key=value" consumed by the driver
    std::function<void()> fn;
};
inline std::vector<CaseEntry> &cases() {
    static std::vector<CaseEntry> c;
    return c;
}
struct Reg {
    Reg(const std::string &n, const std::string &o, std::function<void()> f) { cases().push_back({n, o, f}); }
};
inline void add_case(const std::string &n, const std::string &o, std::function<void()> f) {
    cases().push_back({n, o, f});
}

inline void run_case(const CaseEntry &c) {
    rt().casename = c.name;
    try {
        c.fn();
    } catch (const char *m) {
        check(Bool(false), std::string("unexpected exception: ") + m);
    } catch (const std::exception &e) {
        check(Bool(false), std::string("unexpected exception: ") + e.what());
    } catch (...) {
        check(Bool(false), "unexpected exception");
    }
}

// The driver sends 'R' to run one path (in a forked child, so statics stay pristine), 'Q' to quit.
inline int run_main(int argc, char **argv) {
    if (argc >= 2 && std::string(argv[1]) == "list") {
        for (auto &c : cases()) std::printf("%s\t%s\n", c.name.c_str(), c.opts.c_str());
        return 0;
    }
    if (argc >= 4 && std::string(argv[1]) == "replay") {
        rt().replay = true;
        FILE *f = std::fopen(argv[3], "r");
        if (!f) return 5;
        static char k[4096], v[1 << 16];
        while (std::fscanf(f, "%4095s %65535s", k, v) == 2) rt().values[k] = v;
        std::fclose(f);
        for (auto &c : cases())
            if (c.name == argv[2]) {
                rt().div_checked = c.opts.find("div=check") != std::string::npos;
                run_case(c);
                std::printf("%s\n", rt().failed ? "REPLAY-VIOLATION" : "REPLAY-OK");
                std::fflush(stdout);
                return rt().failed ? 1 : 0;
            }
        return 6;
    }
    if (argc < 5 || std::string(argv[1]) != "run") return 2;
    rt().in_fd = std::atoi(argv[3]);
    rt().out_fd = std::atoi(argv[4]);
    for (auto &c : cases())
        if (c.name == argv[2]) {
            for (;;) {
                char cmd = 0;
                if (::read(rt().in_fd, &cmd, 1) != 1 || cmd == 'Q') return 0;
                pid_t pid = fork();
                if (pid == 0) {
                    alarm(900);
                    itimerval cpu = {{0, 0}, {100, 0}};    // a loop that never asks the driver
                    setitimer(ITIMER_PROF, &cpu, nullptr);
                    struct itimerval tv = {{0, 0}, {60, 0}};    // processor time of one path
                    setitimer(ITIMER_PROF, &tv, nullptr);
                    run_case(c);
                    rt().put("E");
                    rt().flush();
                    _exit(0);
                }
                int st = 0;
                waitpid(pid, &st, 0);
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                    std::string m = "Z " + std::to_string(WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st)) + "\n";
                    if (::write(rt().out_fd, m.data(), m.size()) < 0) return 7;
                } else {
                    if (::write(rt().out_fd, "D\n", 2) < 0) return 7;
                }
            }
        }
    return 6;
}
}    // namespace symrt
