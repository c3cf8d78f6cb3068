// Common part of the drivers: reads scenarios (text, one operation per line), executes each of them in a child process,
// and records events (one JSON object per line). A crash, a hang or an exit of the child is recorded as an event of the
// scenario which was running, and the next scenarios are executed by a new child.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
#endif

namespace drv {

using Line = std::vector<std::string>;
struct Scenario {
    int id = 0;
    std::vector<Line> lines;
};

inline int outFd = 1;
inline int current = 0;

// "-" : nothing ; otherwise comma separated groups, a group being hexadecimal digits, or two hexadecimal digits '*' count
inline std::string bytes(std::string_view t) {
    std::string r;
    auto hex = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    while (!t.empty() && t != "-") {
        auto group = t.substr(0, t.find(','));
        t.remove_prefix(std::min(t.size(), group.size() + 1));
        if (auto star = group.find('*'); star != group.npos)
            r.append(std::stoul(std::string(group.substr(star + 1))), static_cast<char>(hex(group[0]) * 16 + hex(group[1])));
        else
            for (std::size_t i = 0; i + 1 < group.size(); i += 2) r.push_back(static_cast<char>(hex(group[i]) * 16 + hex(group[i + 1])));
    }
    return r;
}

// One event. Written when the object dies
class Ev {
    std::string s;

public:
    explicit Ev(std::string_view op) : s("{\"s\":" + std::to_string(current) + ",\"o\":\"" + std::string(op) + "\"") {}
    Ev(const Ev&) = delete;
    ~Ev() {
        s += "}\n";
        std::size_t done = 0;
        while (done < s.size()) {
            auto n = ::write(outFd, s.data() + done, s.size() - done);
            if (n <= 0) _exit(99);
            done += static_cast<std::size_t>(n);
        }
    }
    static std::string rle(std::string_view d) {
        std::string r = "[";
        for (std::size_t i = 0; i < d.size();) {
            auto j = i;
            while (j < d.size() && d[j] == d[i]) ++j;
            if (i) r += ',';
            r += "[" + std::to_string(static_cast<unsigned char>(d[i])) + "," + std::to_string(j - i) + "]";
            i = j;
        }
        return r + "]";
    }
    static std::string arr(std::string_view d) {
        std::string r = "[";
        for (std::size_t i = 0; i < d.size(); ++i) {
            if (i) r += ',';
            r += std::to_string(static_cast<unsigned char>(d[i]));
        }
        return r + "]";
    }
    Ev& raw(std::string_view key, std::string_view json) {
        s += ",\"" + std::string(key) + "\":" + std::string(json);
        return *this;
    }
    Ev& num(std::string_view key, long long v) { return raw(key, std::to_string(v)); }
    Ev& flag(std::string_view key, bool v) { return raw(key, v ? "true" : "false"); }
    Ev& word(std::string_view key, std::string_view v) { return raw(key, "\"" + std::string(v) + "\""); } // needs no escape
    Ev& text(std::string_view key, std::string_view v) { return raw(key, arr(v)); }                       // byte string
    Ev& runs(std::string_view key, std::string_view v) { return raw(key, rle(v)); }                       // encoded byte string
};

inline std::size_t biggestAllocation = 0;
inline long long allocatedBytes() {
#if defined(__SANITIZE_ADDRESS__)
    return static_cast<long long>(__sanitizer_get_current_allocated_bytes());
#else
    return 0;
#endif
}
#if defined(__SANITIZE_ADDRESS__)
inline void onMalloc(const volatile void*, std::size_t n) {
    if (n > biggestAllocation) biggestAllocation = n;
}
inline void onFree(const volatile void*) {}
#endif

inline std::vector<Scenario> load(const char* path) {
    std::vector<Scenario> all;
    std::ifstream in(path);
    std::string text;
    while (std::getline(in, text)) {
        std::istringstream words(text);
        Line line;
        for (std::string w; words >> w;) line.push_back(w);
        if (line.empty()) continue;
        if (line[0] == "S") {
            all.emplace_back();
            all.back().id = std::stoi(line[1]);
        }
        else
            all.back().lines.push_back(std::move(line));
    }
    return all;
}

// usage : driver <scenarios> <events>
inline int run(int argc, char** argv, const std::function<void(const Scenario&)>& execute, unsigned secondsPerScenario = 20) {
    if (argc < 3) return 2;
    auto scenarios = load(argv[1]);
    outFd = ::open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0644);
    if (outFd < 0) return 2;
    auto next = static_cast<volatile std::size_t*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    *next = 0;
    unsigned hangs = 0;
    while (*next < scenarios.size()) {
        if (hangs >= 3) { // the others are not executed
            current = scenarios[*next].id;
            Ev("skipped");
            *next = *next + 1;
            continue;
        }
        auto pid = fork();
        if (pid < 0) return 2;
        if (pid == 0) {
            std::cout.rdbuf(nullptr);
            std::clog.rdbuf(nullptr);
            std::cerr.rdbuf(nullptr);
#if defined(__SANITIZE_ADDRESS__)
            __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
#endif
            for (; *next < scenarios.size(); *next = *next + 1) {
                alarm(secondsPerScenario);
                current = scenarios[*next].id;
                try {
                    execute(scenarios[*next]);
                }
                catch (const std::exception& e) {
                    Ev("escape").text("what", e.what());
                }
                catch (...) {
                    Ev("escape").text("what", "unknown");
                }
            }
            _exit(0);
        }
        int status = 0;
        waitpid(pid, &status, 0);
        if (*next >= scenarios.size()) break;
        current = scenarios[*next].id;
        if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM) {
            Ev("hang");
            ++hangs;
        }
        else
            Ev("crash").num("status", status);
        *next = *next + 1;
    }
    return 0;
}

} // namespace drv
