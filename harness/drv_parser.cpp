// Drives http::Request: several parsers at a time, fed in pieces.
#include "driver.hpp"
#include <http/HTTPServer.hpp>
#include <map>
#include <memory>

using namespace webfront;
using drv::Ev;

static std::string fieldsJson(const http::Request& r) {
    std::string s = "[";
    for (auto& h : r.headers) s += (s.size() > 1 ? ",[" : "[") + Ev::arr(h.name) + "," + Ev::arr(h.value) + "]";
    return s + "]";
}

static void execute(const drv::Scenario& scenario) {
    std::map<std::string, std::unique_ptr<http::Request>> parsers;
    std::map<std::string, std::string> verdicts;
    auto feed = [&](http::Request& r, const std::string& data) -> std::string {
        auto copy = std::make_unique<char[]>(data.size()); // exact size, so that nothing else is readable
        std::copy(data.begin(), data.end(), copy.get());
        try {
            bool done = r.parseSomeData(copy.get(), copy.get() + data.size());
            return done != r.completed() ? "inconsistent" : done ? "done" : "more";
        }
        catch (const http::BadRequestException&) {
            return "bad";
        }
    };
    auto result = [&](std::string_view op, const std::string& id, const http::Request& r) {
        Ev e(op);
        e.num("i", std::stoi(id)).text("m", r.getMethodName()).text("u", r.uri).num("a", r.httpVersionMajor).num("b", r.httpVersionMinor);
        e.raw("h", fieldsJson(r));
    };
    for (auto& l : scenario.lines) {
        auto& op = l[0];
        if (op == "new") // new parser l[1]
            parsers[l[1]] = std::make_unique<http::Request>();
        else if (op == "feed") {
            auto& r = *parsers.at(l[1]);
            if (verdicts.contains(l[1])) continue; // decided
            auto data = drv::bytes(l[2]);
            auto v = feed(r, data);
            Ev("feed").num("i", std::stoi(l[1])).text("d", data).word("r", v);
            if (v != "more") verdicts[l[1]] = v;
            if (v == "done") result("req", l[1], r);
        }
        else if (op == "solo") { // the same head alone, in one piece
            http::Request r;
            auto data = drv::bytes(l[2]);
            auto v = feed(r, data);
            Ev("solo").num("i", std::stoi(l[1])).text("d", data).word("r", v);
            if (v == "done") result("soloreq", l[1], r);
        }
        else if (op == "end")
            Ev("end").num("i", std::stoi(l[1]));
        else if (verdicts[l[1]] != "done")
            continue; // nothing to look up
        else if (op == "get") {
            auto v = parsers.at(l[1])->getHeaderValue(drv::bytes(l[2]));
            Ev("get").num("i", std::stoi(l[1])).text("n", drv::bytes(l[2])).raw("r", v ? "[" + Ev::arr(*v) + "]" : "[]");
        }
        else if (op == "all") {
            std::string s = "[";
            for (auto& v : parsers.at(l[1])->getHeadersValues(drv::bytes(l[2]))) s += (s.size() > 1 ? "," : "") + Ev::arr(v);
            Ev("all").num("i", std::stoi(l[1])).text("n", drv::bytes(l[2])).raw("r", s + "]");
        }
        else if (op == "has") {
            bool v = parsers.at(l[1])->headersContain(drv::bytes(l[2]), drv::bytes(l[3]));
            Ev("has").num("i", std::stoi(l[1])).text("n", drv::bytes(l[2])).text("x", drv::bytes(l[3])).flag("r", v);
        }
    }
}

int main(int argc, char** argv) { return drv::run(argc, argv, execute); }
