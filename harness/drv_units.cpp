// Drives the logging facility and the hexadecimal dumps (tooling/*.hpp).
#include "driver.hpp"
#include <iomanip>
#include <memory>
#include <tooling/HexDump.hpp>
#include <tooling/Logger.hpp>

using namespace webfront;
using drv::Ev;

namespace {

std::string text(std::string_view t) { return "{\"k\":\"t\",\"t\":" + Ev::arr(t) + "}"; }
std::string number(long long n) { return "{\"k\":\"i\",\"n\":" + std::to_string(n) + "}"; }
std::string boolean(bool b) { return std::string("{\"k\":\"b\",\"v\":") + (b ? "true}" : "false}"); }

#define WITH_LEVEL(level, ...)                                                                                                                                 \
    do {                                                                                                                                                       \
        constexpr auto line = __LINE__;                                                                                                                        \
        Ev("log").num("l", level).raw("p", "[" + pieces + "]").text("file", "drv_units.cpp").num("at", line);                                                  \
        if (level == 1) log::error(__VA_ARGS__);                                                                                                               \
        if (level == 2) log::warn(__VA_ARGS__);                                                                                                                \
        if (level == 3) log::info(__VA_ARGS__);                                                                                                                \
        if (level == 4) (void)log::debug(__VA_ARGS__);                                                                                                              \
    } while (false)

// the format "<a>{}<b>{}<c>..." with arguments
void message(int level, const std::string& kind, const std::vector<std::string>& t, long long n, bool b) {
    std::string pieces, f;
    auto put = [&](std::string p) { pieces += (pieces.empty() ? "" : ",") + p; };
    auto lit = [&](std::size_t i) {
        put(text(t[i]));
        for (char c : t[i]) f += c == '{' ? std::string("{{") : c == '}' ? std::string("}}") : std::string(1, c);
    };
    auto arg = [&](std::string p) { f += "{}", put(p); };
    if (kind == "0") { // no argument: the text itself
        put(text(t[0]));
        WITH_LEVEL(level, t[0]);
    }
    else if (kind == "i") {
        lit(0), arg(number(n)), lit(1);
        WITH_LEVEL(level, f, n);
    }
    else if (kind == "s") {
        lit(0), arg(text(t[1])), lit(2);
        WITH_LEVEL(level, f, t[1]);
    }
    else if (kind == "si") {
        lit(0), arg(text(t[1])), lit(2), arg(number(n));
        WITH_LEVEL(level, f, std::string_view(t[1]), static_cast<int>(n));
    }
    else if (kind == "bss") {
        arg(boolean(b)), lit(0), arg(text(t[1])), arg(text(t[2]));
        WITH_LEVEL(level, f, b, t[1].c_str(), std::string(t[2]));
    }
    else
        std::abort();
}

void logging(const drv::Scenario& s) {
    std::vector<std::size_t> ids(21);
    auto sink = [](int k) { return [k](std::string_view t) { Ev("got").num("k", k).text("t", t); }; };
    for (auto& l : s.lines) {
        auto num = [&](std::size_t i) { return std::stoi(l[i]); };
        auto list = [&] {
            std::string t;
            for (std::size_t i = 1; i < l.size(); ++i) t += (t.empty() ? "" : ",") + l[i];
            return "[" + t + "]";
        };
        auto& op = l[0];
        if (op == "level") {
            Ev("level").num("l", num(1));
            log::setLogLevel(static_cast<uint8_t>(num(1)));
        }
        else if (op == "set") {
            Ev("set").num("l", num(1)).flag("b", num(2));
            log::set(static_cast<uint8_t>(num(1)), num(2));
        }
        else if (op == "is") Ev("is").num("l", num(1)).flag("b", log::is(static_cast<uint8_t>(num(1))));
        else if (op == "add") { // the identifier of the last one is known
            Ev("add").raw("k", list());
            auto n = l.size() - 1;
            ids[num(n)] = n == 1 ? log::addSinks(sink(num(1))) : n == 2 ? log::addSinks(sink(num(1)), sink(num(2))) : log::addSinks(sink(num(1)), sink(num(2)), sink(num(3)));
        }
        else if (op == "remove") {
            Ev("remove").raw("k", list());
            if (l.size() == 2) log::removeSinks(ids[num(1)]);
            else if (l.size() == 3) log::removeSinks(ids[num(1)], ids[num(2)]);
            else log::removeSinks(ids[num(1)], ids[num(2)], ids[num(3)]);
        }
        else if (op == "log") { // level kind number boolean texts
            std::vector<std::string> t;
            for (std::size_t i = 5; i < l.size(); ++i) t.push_back(drv::bytes(l[i]));
            message(num(1), l[2], t, num(3), num(4));
        }
        else if (op == "hex") { // text data
            auto t = drv::bytes(l[1]), d = drv::bytes(l[2]);
            Ev("hex").text("t", t).text("d", d);
            log::infoHex(t, d);
        }
    }
    Ev("q");
}

template<typename C> std::string dump(const C& c, std::size_t at, const drv::Line& l, bool& kept) {
    std::ostringstream os; // flags fill width precision
    auto f = std::stoul(l[4]);
    os.flags((f & 1 ? std::ios::hex : std::ios::dec) | (f & 2 ? std::ios::left : std::ios::right) | (f & 4 ? std::ios::uppercase : std::ios::fmtflags{}) | (f & 8 ? std::ios::showbase : std::ios::fmtflags{}) |
             (f & 16 ? std::ios::boolalpha | std::ios::showpos : std::ios::fmtflags{}));
    os.fill(drv::bytes(l[5])[0]);
    os.precision(static_cast<int>(f) + 1);
    auto flags = os.flags();
    os << utils::HexDump(c, at);
    kept = os.flags() == flags && os.fill() == drv::bytes(l[5])[0] && os.precision() == static_cast<int>(f) + 1 && os.width() == 0 && os.good();
    return os.str();
}
template<typename T> std::vector<T> elements(std::string_view d) {
    std::vector<T> v(d.size() / sizeof(T));
    memcpy(v.data(), d.data(), v.size() * sizeof(T));
    return v;
}

void dumping(const drv::Scenario& s) {
    for (auto& l : s.lines) {
        auto d = drv::bytes(l[2]);
        if (l[0] == "dump") { // kind data address flags fill
            auto at = std::stoul(l[3]);
            bool kept = false;
            std::string t;
            auto exact = std::make_unique<char[]>(d.size());
            memcpy(exact.get(), d.data(), d.size());
            if (l[1] == "s") t = dump(d, at, l, kept);
            else if (l[1] == "p") t = dump(std::span<const std::byte>(reinterpret_cast<const std::byte*>(exact.get()), d.size()), at, l, kept);
            else if (l[1] == "v") t = dump(std::string_view(exact.get(), d.size()), at, l, kept);
            else if (l[1] == "8") t = dump(elements<uint8_t>(d), at, l, kept);
            else if (l[1] == "2") t = dump(elements<uint16_t>(d), at, l, kept);
            else if (l[1] == "4") t = dump(elements<int32_t>(d), at, l, kept);
            else if (l[1] == "a") {
                std::array<char, 21> a{};
                memcpy(a.data(), d.data(), 21);
                t = dump(a, at, l, kept);
            }
            else if (l[1] == "t") kept = true, t = at ? utils::hexDump(std::string_view(exact.get(), d.size()), at) : utils::hexDump(d);
            Ev("dump").text("d", d).num("at", static_cast<long long>(at)).text("t", t).flag("kept", kept);
        }
        else { // two kind data data
            auto e = drv::bytes(l[3]);
            std::string t;
            if (l[1] == "s") t = utils::hexDump(d, e);
            else if (l[1] == "v") t = utils::hexDump(std::string_view(d), elements<uint8_t>(e));
            else if (l[1] == "2") t = utils::hexDump(elements<uint16_t>(d), elements<uint16_t>(e));
            else if (l[1] == "4") t = utils::hexDump(elements<uint8_t>(d), elements<uint32_t>(e));
            Ev("dump").text("d", d + e).num("at", 0).text("t", t).flag("kept", true);
        }
    }
}

void execute(const drv::Scenario& s) {
    if (s.lines.empty()) return;
    if (s.lines[0][0] == "dump" || s.lines[0][0] == "two") return dumping(s);
    auto pid = fork(); // the sinks and the levels are those of a process
    if (pid == 0) {
        logging(s);
        _exit(0);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    if (status != 0) Ev("crash").num("status", status);
}
} // namespace

int main(int argc, char** argv) { return drv::run(argc, argv, execute); }
