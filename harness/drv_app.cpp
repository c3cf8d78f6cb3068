// Drives a whole WebFront application (BasicWF) over the simulated network.
#include "driver.hpp"
#include "simnet.hpp"
#include <WebFront.hpp>
#include <map>
#include <memory>

using namespace webfront;
using drv::Ev;

namespace {

using WF = BasicWF<sim::Net, fs::IndexFS>;
using Js = JsFunction<WF>;

std::string number(double d) { return "{\"k\":\"n\",\"n\":" + Ev::arr({reinterpret_cast<const char*>(&d), 8}) + "}"; }
std::string string(std::string_view t) { return "{\"k\":\"s\",\"r\":" + Ev::rle(t) + "}"; }
template<typename T> std::string json(const T& v) {
    if constexpr (std::is_same_v<T, bool>) return std::string("{\"k\":\"b\",\"v\":") + (v ? "1}" : "0}");
    else if constexpr (std::is_arithmetic_v<T>) return number(static_cast<double>(v));
    else if constexpr (requires { std::tuple_size<T>::value; }) {
        std::string r = "{\"k\":\"t\",\"l\":[";
        std::apply([&](auto&... e) { ((r += (r.back() == '[' ? "" : ",") + json(e)), ...); }, v);
        return r + "]}";
    }
    else return string(v);
}
template<typename... T> std::string list(const T&... v) {
    std::string r = "[";
    ((r += (r.size() > 1 ? "," : "") + json(v)), ...);
    return r + "]";
}

struct Client {
    std::shared_ptr<sim::Link> link;
    std::size_t seen = 0;
    bool open = false, hostile = false;
    std::shared_ptr<WF::UI> ui;
    std::map<std::string, Js> functions;
};

const std::string upgradeRequest = "GET / HTTP/1.1\r\nHost: h\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Protocol: WebFront_0.1\r\n"
                                   "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n";

class Runner {
public:
    explicit Runner(const drv::Scenario& s) : scenario(s) {
        log::setLogLevel(log::Disabled);
        sink = log::addSinks([this](std::string_view t) {
            if (!quiet) Ev("emit").runs("d", t);
        });
        wf = std::make_unique<WF>("80");
        wf->onUIStarted([this](WF::UI ui) {
            if (!quiet) Ev("started").num("c", sim::running);
            clients[sim::running].ui = std::make_shared<WF::UI>(ui);
            clients[sim::running].functions.clear();
            if (quiet) return;
            if (greet & 1) script(sim::running, "welcome(" + std::to_string(sim::running) + ")");
            if (greet & 2) js(sim::running, "hello", true, sim::running, std::string("you"));
        });
        wf->cppFunction<void, double>("n1", [this](double a) { ran("n1", list(a)); });
        wf->cppFunction<void, int>("i1", [this](int a) { ran("i1", list(a)); });
        wf->cppFunction<void, std::uint8_t>("u8", [this](std::uint8_t a) { ran("u8", list(a)); });
        wf->cppFunction<void, std::string>("s1", [this](std::string a) { ran("s1", list(a)); });
        wf->cppFunction<void, bool>("b1", [this](bool a) { ran("b1", list(a)); });
        wf->cppFunction<void, int, std::string, bool>("mix", [this](int a, const std::string& b, bool c) { ran("mix", list(a, b, c)); });
        wf->cppFunction<void>("none", [this] { ran("none", "[]"); });
        wf->cppFunction<void, bool, bool, std::string, double, std::string, bool>(
          "six", [this](bool a, bool b, std::string c, double d, std::string e, bool f) { ran("six", list(a, b, c, d, e, f)); });
        wf->cppFunction<void, std::tuple<double, std::string>, bool>("tup", [this](std::tuple<double, std::string> a, bool b) { ran("tup", list(a, b)); });
        wf->cppFunction<void, double>("boom", [this](double a) {
            ran("boom", list(a));
            throw std::runtime_error("boom");
        });
        wf->cppFunction<void, double>("boomint", [this](double a) {
            ran("boomint", list(a));
            throw 42;
        });
        wf->cppFunction<void, std::string>("back", [this](std::string a) {
            ran("back", list(a));
            js(sim::running, "pong", true, a);
        });
        wf->cppFunction<void, int, std::string>("tell", [this](int a, std::string b) {
            ran("tell", list(a, b));
            if (clients.contains(a)) js(a, "told", true, sim::running, b);
        });
        wf->cppFunction<void, std::tuple<std::tuple<std::string, double>, std::string>>("nest", [this](std::tuple<std::tuple<std::string, double>, std::string> a) { ran("nest", list(a)); });
        wf->cppFunction<void, std::string>("", [this](std::string a) { ran("", list(a)); });
        wf->cppFunction<int, double>(std::string(300, 'L'), [this](double a) {
            ran(std::string(300, 'L'), list(a));
            return 3;
        });
    }
    ~Runner() {
        quiet = true;
        clients.clear();
        wf.reset();
        log::removeSinks(sink);
    }

    void ran(std::string_view f, const std::string& args) {
        if (!quiet) Ev("ran").num("c", sim::running).runs("f", f).raw("args", args);
    }
    void script(int id, const std::string& text) {
        auto& c = clients[id];
        if (!c.ui) return;
        bool ok = true;
        auto heap = std::make_unique<std::string>(text);
        try {
            c.ui->addScript(*heap);
        }
        catch (const std::exception&) {
            ok = false;
        }
        std::fill(heap->begin(), heap->end(), '\xEE');
        if (!quiet) Ev("script").num("c", id).runs("d", text).flag("ok", ok);
    }
    // calls a function of a client, either through a new function object, or through the one already used for this function
    template<typename... T> void js(int id, const std::string& name, bool fresh, const T&... args) {
        auto& c = clients[id];
        if (!c.ui) return;
        bool ok = true;
        try {
            if (fresh) c.ui->jsFunction(name)(args...);
            else {
                auto found = c.functions.find(name);
                if (found == c.functions.end()) found = c.functions.emplace(name, c.ui->jsFunction(name)).first;
                found->second(args...);
            }
        }
        catch (const std::exception&) {
            ok = false;
        }
        if (quiet) return;
        Ev("js").num("c", id).runs("f", name).raw("args", list(args...)).flag("ok", ok);
    }

    // catalogue of the signatures, a letter per argument
    void call(int id, const std::string& name, bool fresh, const std::string& sig, const std::vector<std::string>& a) {
        auto t = [&](std::size_t i) { return drv::bytes(i < a.size() ? a[i] : "-"); };
        auto d = [&](std::size_t i) {
            double v = 0;
            auto raw = t(i);
            memcpy(&v, raw.data(), std::min(raw.size(), sizeof(v)));
            return v;
        };
        auto b = [&](std::size_t i) { return i < a.size() && a[i] == "1"; };
        auto n = [&](std::size_t i) { return i < a.size() ? std::stoi(a[i]) : 0; };
        auto go = [&](const auto&... args) { js(id, name, fresh, args...); };
        if (sig == "-") go();
        else if (sig == "b") go(b(0));
        else if (sig == "d") go(d(0));
        else if (sig == "i") go(n(0));
        else if (sig == "s") go(t(0));
        else if (sig == "v") go(std::string_view(t(0)));
        else if (sig == "p") go(t(0).c_str());
        else if (sig == "lit") go("literal", "", true);
        else if (sig == "bb") go(b(0), b(1));
        else if (sig == "ss") go(t(0), t(1));
        else if (sig == "sb") go(t(0), b(1));
        else if (sig == "bs") go(b(0), t(1));
        else if (sig == "dsb") go(d(0), t(1), b(2));
        else if (sig == "sdbs") go(t(0), d(1), b(2), t(3));
        else if (sig == "idcf") go(n(0), d(1), static_cast<unsigned char>(n(2)), static_cast<float>(n(3)));
        else if (sig == "lh") go(static_cast<std::int64_t>(n(0)) * 4097, static_cast<unsigned short>(n(1)));
        else if (sig == "ul") go(static_cast<unsigned>(n(0)), static_cast<std::int64_t>(n(1)) * 2097151);
        else if (sig == "bbbbbb") go(b(0), b(1), b(2), b(3), b(4), b(5));
        else if (sig == "ssssss") go(t(0), t(1), t(2), t(3), t(4), t(5));
        else if (sig == "pvs") go(t(0).c_str(), std::string_view(t(1)), t(2));
        else if (sig == "(ds)") go(std::tuple<double, std::string>(d(0), t(1)));
        else if (sig == "()") go(std::tuple<>(), b(0));
        else if (sig == "b(bs)b") go(b(0), std::tuple<bool, std::string>(b(1), t(2)), b(3));
        else if (sig == "((sd)(b(s)))s") go(std::tuple<std::tuple<std::string, double>, std::tuple<bool, std::tuple<std::string>>>({t(0), d(1)}, {b(2), {t(3)}}), t(4));
        else if (sig == "many") many(go, d(0), std::make_index_sequence<254>());
        else if (sig == "flags") flags(go, std::make_index_sequence<254>());
        else if (sig == "texts") texts(go, t(0), std::make_index_sequence<120>());
        else if (sig == "deep") deep(go, d(0), std::make_index_sequence<130>());
    }
    template<std::size_t... I> void many(const auto& go, double d, std::index_sequence<I...>) { go((d + static_cast<double>(I))...); }
    template<std::size_t... I> void flags(const auto& go, std::index_sequence<I...>) { go((I % 3 == 0)...); }
    template<std::size_t... I> void texts(const auto& go, const std::string& t, std::index_sequence<I...>) { go((t + static_cast<char>('a' + I % 26))...); }
    template<std::size_t... I> void deep(const auto& go, double d, std::index_sequence<I...>) { go(std::tuple<double>(d + static_cast<double>(I))...); } // 260 values

    void run() {
        try {
            wf->run();
        }
        catch (const std::exception& e) {
            Ev("escape").text("what", e.what());
        }
        catch (...) {
            Ev("escape").text("what", "unknown");
        }
    }
    void observe() {
        for (auto& [id, c] : clients) {
            if (!c.link) continue;
            if (c.link->toClient.size() > c.seen) {
                if (!quiet && !c.hostile) Ev("out").num("c", id).runs("d", {reinterpret_cast<const char*>(c.link->toClient.data()) + c.seen, c.link->toClient.size() - c.seen});
                c.seen = c.link->toClient.size();
            }
            if (!c.link->serverOpen && c.open) {
                c.open = false;
                if (!quiet) Ev("released").num("c", id);
            }
        }
    }
    void step() {
        if (!held) run();
        observe();
    }
    std::shared_ptr<sim::Link> accept(int id) {
        auto link = std::make_shared<sim::Link>(sim::IoContext::last(), id);
        auto acceptor = sim::Acceptor::current();
        if (!acceptor || !acceptor->accept({}, link)) return nullptr;
        run();
        return link;
    }
    static void push(sim::Link& link, std::string_view d) {
        if (link.reset || link.peerFin) return;
        for (auto ch : d) link.toServer.push_back(static_cast<std::byte>(ch));
    }
    void work(sim::Link& link) {
        for (int i = 0; i < 100000; ++i) {
            bool progress = false;
            if (!link.reads.empty() && (!link.toServer.empty() || link.peerFin)) progress = true, link.deliver(1 << 20);
            run();
            if (!link.writes.empty()) progress = true, link.flush(1 << 20);
            run();
            if (!progress) break;
        }
    }
    // a client whose WebSocket is established, without anything being observed
    void connect(int id, bool hostile) {
        auto link = accept(id);
        bool ok = link != nullptr;
        if (ok) {
            push(*link, upgradeRequest);
            work(*link);
            std::string_view answer(reinterpret_cast<const char*>(link->toClient.data()), link->toClient.size());
            ok = link->serverOpen && answer.starts_with("HTTP/1.1 101 ");
        }
        if (!quiet) Ev("conn").num("c", id).flag("h", hostile).flag("ok", ok);
        auto& c = clients[id];
        c = Client{};
        c.link = link;
        c.hostile = hostile;
        c.open = ok;
        c.seen = link ? link->toClient.size() : 0;
    }
    void take(int id, std::size_t n) {
        auto& c = clients.at(id);
        auto link = c.link;
        if (!link) return;
        while (n && !link->reads.empty() && !link->toServer.empty() && !link->reset && !link->recvShut) {
            auto count = std::min({n, link->toServer.size(), link->reads.front().size});
            if (!count) break;
            std::string d;
            for (std::size_t i = 0; i < count; ++i) d.push_back(static_cast<char>(link->toServer[i]));
            if (!quiet) {
                if (c.hostile) Ev("readh").num("c", id).num("n", static_cast<long long>(count));
                else Ev("read").num("c", id).runs("d", d);
            }
            link->deliver(count);
            n -= count;
            step();
        }
        end(id);
    }
    void end(int id) {
        auto& c = clients.at(id);
        if (c.link->peerFin && c.link->toServer.empty() && !c.link->reads.empty() && !c.link->reset) {
            if (!quiet) Ev("readend").num("c", id);
            c.link->deliver(0);
            step();
        }
    }
    void reset(int id) {
        auto& c = clients.at(id);
        if (!c.link || c.link->reset) return;
        c.link->reset = true;
        if (!quiet) Ev("reset").num("c", id);
        c.link->abortAll(sim::connectionReset());
    }
    void settle() {
        for (bool progress = true; progress;) {
            progress = false;
            for (auto& entry : clients) {
                auto id = entry.first;
                auto& c = entry.second;
                if (!c.link) continue;
                if (!c.link->reads.empty() && (!c.link->toServer.empty() || c.link->peerFin)) {
                    take(id, 1 << 24);
                    progress = true;
                }
                if (!c.link->writes.empty()) {
                    c.link->flush(1 << 24);
                    step();
                    progress = true;
                }
            }
        }
    }
    // clients which come and go : kind is how they go
    void cycle(const std::string& kind, const std::string& data) {
        connect(-1, false);
        push(*clients[-1].link, data);
        if (kind != "midwrite") settle();
        else take(-1, 1 << 24);
        script(-1, "bye");
        js(-1, "bye", true, 1.0, std::string(400, 'x'));
        if (kind == "settled") settle();
        if (kind == "fin") {
            clients[-1].link->peerFin = true;
            end(-1);
        }
        else reset(-1);
        step();
        if (clients[-1].link->serverOpen) ++remaining;
        clients.erase(-1);
        run();
        for (auto& [id, other] : clients) { // those who stay receive what is for them
            if (!other.link) continue;
            work(*other.link);
            other.link->toClient.clear();
            other.seen = 0;
        }
    }

    void execute() {
        for (auto& l : scenario.lines) {
            auto& op = l[0];
            if (op == "hold" || op == "release") { // what completes in between is handled together
                held = op == "hold";
                step();
                continue;
            }
            if (op == "settle") {
                settle();
                step();
                Ev("q").num("big", static_cast<long long>(drv::biggestAllocation));
                continue;
            }
            if (op == "patience") { // this scenario may take some time
                alarm(static_cast<unsigned>(std::stoi(l[1])));
                continue;
            }
            if (op == "mute") { // the application has no handler for the start of UIs
                wf->onUIStarted(std::function<void(WF::UI)>{});
                Ev("mute");
                continue;
            }
            if (op == "level") log::setLogLevel(static_cast<std::uint8_t>(std::stoi(l[1])));
            else if (op == "greet") greet = std::stoi(l[1]);
            else if (op == "log") {
                auto text = drv::bytes(l[2]);
                if (l[1] == "e") log::error("{}", text);
                else if (l[1] == "w") log::warn("{}", text);
                else if (l[1] == "i") log::info("{}", text);
                else log::debug("{}", text);
                observe();
            }
            else if (op == "get") { // a whole request of a client which is served as always
                bool before = quiet;
                auto link = accept(0);
                std::string d;
                if (link) {
                    push(*link, drv::bytes(l[2]));
                    work(*link);
                    d.assign(reinterpret_cast<const char*>(link->toClient.data()), link->toClient.size());
                }
                quiet = before;
                Ev("got").num("k", std::stoi(l[1])).runs("d", d).flag("open", !link || link->serverOpen);
            }
            else if (op == "raw") { // a connection which does not become a WebSocket by itself
                auto link = accept(std::stoi(l[1]));
                if (!quiet) Ev("conn").num("c", std::stoi(l[1])).flag("h", true).flag("ok", link != nullptr);
                auto& c = clients[std::stoi(l[1])];
                c = Client{};
                c.link = link;
                c.hostile = true;
                c.open = link != nullptr;
            }
            else if (op == "cycle") { // cycle count kind data
                settle();
                quiet = true;
                auto data = drv::bytes(l[3]);
                long long before = 0;
                int n = std::stoi(l[1]);
                remaining = 0;
                for (int i = -3; i < n; ++i) {
                    if (i == 0) before = drv::allocatedBytes();
                    cycle(l[2], data);
                }
                auto grown = drv::allocatedBytes() - before;
                quiet = false;
                Ev("growth").num("n", n).num("bytes", grown).num("left", remaining);
            }
            else {
                int id = std::stoi(l[1]);
                if (op == "conn") connect(id, false);
                else if (op == "hostile") connect(id, true);
                else if (!clients.contains(id) || !clients.at(id).link) continue;
                else if (op == "push") push(*clients.at(id).link, drv::bytes(l[2]));
                else if (op == "take") take(id, std::stoul(l[2]));
                else if (op == "recv") {
                    push(*clients.at(id).link, drv::bytes(l[2]));
                    take(id, 1 << 24);
                }
                else if (op == "flush") {
                    clients.at(id).link->flush(std::stoul(l[2]));
                    step();
                }
                else if (op == "script") script(id, drv::bytes(l[2]));
                else if (op == "js") call(id, drv::bytes(l[3]), l[2] == "new", l[4], {l.begin() + 5, l.end()}); // js client new|same name signature arguments
                else if (op == "fin") {
                    auto& c = clients.at(id);
                    if (!c.link->peerFin && !c.link->reset) {
                        c.link->peerFin = true;
                        Ev("fin").num("c", id);
                        end(id);
                    }
                }
                else if (op == "reset") reset(id);
            }
            step();
        }
    }

    const drv::Scenario& scenario;
    std::unique_ptr<WF> wf;
    std::map<int, Client> clients;
    std::size_t sink = 0;
    int greet = 0, remaining = 0;
    bool quiet = false, held = false;
};

} // namespace

int main(int argc, char** argv) {
    return drv::run(argc, argv, [](const drv::Scenario& s) {
        drv::biggestAllocation = 0;
        Runner(s).execute();
    });
}
