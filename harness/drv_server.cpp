// Drives http::Server over the simulated network.
#include "driver.hpp"
#include "simnet.hpp"
#include <http/HTTPServer.hpp>
#include <system/NativeFS.hpp>
#include <dlfcn.h>
#include <map>
#include <memory>

using namespace webfront;
using drv::Ev;

namespace {

struct StoredFile {
    std::vector<uint64_t> data;
    std::size_t size;
    std::string encoding;
};
std::map<std::string, StoredFile> stored;
std::string root; // of the native files of the scenario
bool watching = false;

// Files in memory. Records what is opened.
class RecordingFS {
public:
    explicit RecordingFS(std::filesystem::path) {}
    std::optional<fs::File> open(std::filesystem::path path) {
        if (watching) Ev("open").text("f", path.generic_string());
        auto found = stored.find(path.lexically_normal().relative_path().generic_string());
        if (found == stored.end()) return {};
        auto& f = found->second;
        return fs::File{std::span<const uint64_t>(f.data), f.size, f.encoding};
    }
};

FILE* watchedOpen(const char* name, const char* mode, const char* symbol) {
    using Open = FILE* (*)(const char*, const char*);
    auto real = reinterpret_cast<Open>(dlsym(RTLD_NEXT, symbol));
    if (watching && !root.empty()) {
        std::error_code ec;
        auto path = std::filesystem::weakly_canonical(name, ec).generic_string();
        bool inside = path == root || path.starts_with(root + "/");
        if (!inside && !path.starts_with("/usr/") && !path.starts_with("/proc/") && !path.starts_with("/sys/"))
            Ev("outside").text("f", path);
        else if (inside)
            Ev("open").text("f", path.substr(std::min(path.size(), root.size() + 1)));
    }
    return real(name, mode);
}

} // namespace

extern "C" FILE* fopen64(const char* name, const char* mode) { return watchedOpen(name, mode, "fopen64"); }
extern "C" FILE* fopen(const char* name, const char* mode) { return watchedOpen(name, mode, "fopen"); }

namespace {

struct Client {
    std::shared_ptr<sim::Link> link;
    std::size_t seen = 0;       // bytes already reported
    bool open = false, eof = false, pending = false;
    std::unique_ptr<sim::Socket> handedOver;
    std::shared_ptr<std::array<std::byte, 70000>> upBuffer;
};

template<typename FS>
class Runner {
public:
    explicit Runner(const drv::Scenario& s, std::string docRoot) : scenario(s), docRoot(docRoot) { fresh(); }

    void fresh() {
        server = std::make_unique<http::Server<sim::Net, FS>>("0.0.0.0", "80", docRoot);
        server->onUpgrade([this](sim::Socket&& socket, http::Protocol protocol) {
            auto id = accepting(socket);
            if (quiet) {
                sim::Socket dropped(std::move(socket));
                return;
            }
            Ev("upg").num("c", id).flag("ws", protocol == http::Protocol::WebSocket);
            clients[id].handedOver = std::make_unique<sim::Socket>(std::move(socket));
        });
    }
    // identifies the connection of a socket : the one whose link it holds
    int accepting(sim::Socket& socket) {
        for (auto& [id, c] : clients)
            if (c.link && socket.holds(c.link)) return id;
        return -1;
    }

    void run() {
        try {
            server->run();
        }
        catch (const std::exception& e) {
            Ev("escape").text("what", e.what());
        }
        catch (...) {
            Ev("escape").text("what", "unknown");
        }
    }

    // reports what changed on the connections
    void observe() {
        for (auto& [id, c] : clients) {
            if (!c.link) continue;
            if (c.link->toClient.size() > c.seen) {
                Ev("out").num("c", id).runs("d", {reinterpret_cast<const char*>(c.link->toClient.data()) + c.seen, c.link->toClient.size() - c.seen});
                c.seen = c.link->toClient.size();
            }
            bool p = !c.link->writes.empty();
            if (p != c.pending) Ev("pend").num("c", id).flag("n", p);
            c.pending = p;
            if (c.link->sentFin && !c.eof) {
                c.eof = true;
                Ev("eof").num("c", id);
            }
            if (!c.link->serverOpen && c.open) {
                c.open = false;
                Ev("closed").num("c", id);
            }
        }
    }
    // while held, nothing runs : what completes in the meantime is handled together afterwards
    void step() {
        if (held) return;
        run();
        observe();
    }
    void quiescent() {
        if (!held) Ev("q");
    }

    std::shared_ptr<sim::Link> connect(int id) {
        auto link = std::make_shared<sim::Link>(sim::IoContext::last(), id);
        auto acceptor = sim::Acceptor::current();
        if (!acceptor || !acceptor->accept({}, link)) return nullptr;
        return link;
    }
    void take(int id, std::size_t n) {
        auto& c = clients.at(id);
        if (!c.link || c.link->reads.empty()) return;
        auto count = std::min({n, c.link->toServer.size(), c.link->reads.front().size});
        std::string d;
        for (std::size_t i = 0; i < count; ++i) d.push_back(static_cast<char>(c.link->toServer[i]));
        if (count == 0 && !c.link->peerFin) return;
        if (count) Ev("read").num("c", id).text("d", d);
        if (count && c.link->deliver(count) != count) Ev("escape").text("what", "driver: short delivery");
        if (!count) {
            Ev("readend").num("c", id);
            c.link->deliver(0);
        }
        step();
    }
    void settle(bool handover = true) {
        for (bool progress = true; progress;) {
            progress = false;
            for (auto& [id, c] : clients) {
                if (!c.link) continue;
                if (!c.handedOver && !c.link->reads.empty() && (!c.link->toServer.empty() || c.link->peerFin)) {
                    take(id, 1 << 20);
                    progress = true;
                }
                if (!c.link->writes.empty()) {
                    c.link->flush(1 << 20);
                    observe();
                    step();
                    progress = true;
                }
            }
        }
        if (handover)
            for (auto& [id, c] : clients)
                if (c.handedOver) upread(id);
    }
    // what the owner of a handed over socket receives
    void upread(int id) {
        auto& c = clients.at(id);
        if (!c.handedOver || c.link->toServer.empty()) return;
        if (!c.upBuffer) c.upBuffer = std::make_shared<std::array<std::byte, 70000>>();
        auto buffer = c.upBuffer;
        c.handedOver->async_read_some(sim::Net::Buffer(*buffer), [id, buffer](std::error_code ec, std::size_t n) {
            if (!ec) Ev("upread").num("c", id).text("d", {reinterpret_cast<const char*>(buffer->data()), n});
        });
        c.link->deliver(1 << 20);
        step();
    }
    // complete exchanges, unobserved
    void cycle(const std::string& kind, const std::string& request) {
        auto link = connect(-1);
        if (!link) return;
        server->run();
        auto push = [&](std::string_view d) {
            for (auto ch : d) link->toServer.push_back(static_cast<std::byte>(ch));
        };
        auto work = [&] {
            for (int i = 0; i < 100000; ++i) {
                bool progress = false;
                if (!link->reads.empty() && (!link->toServer.empty() || link->peerFin)) { link->deliver(1 << 20); progress = true; }
                server->run();
                if (!link->writes.empty()) { link->flush(1 << 20); progress = true; }
                server->run();
                if (!progress) break;
            }
        };
        auto reset = [&] {
            link->reset = true;
            link->abortAll(sim::connectionReset());
            server->run();
        };
        if (kind == "full") { push(request); work(); }
        else if (kind == "bytes")
            for (auto ch : request) { push({&ch, 1}); link->deliver(1); server->run(); }
        else if (kind == "finfirst") { link->peerFin = true; }
        else if (kind == "finmid") { push(request.substr(0, request.size() / 2)); link->peerFin = true; }
        else if (kind == "finafter") { push(request); link->peerFin = true; }
        else if (kind == "rstfirst") reset();
        else if (kind == "rstmid") { push(request.substr(0, request.size() / 2)); link->deliver(1 << 20); server->run(); reset(); }
        else if (kind == "rstanswer") { push(request); link->deliver(1 << 20); server->run(); link->flush(3); server->run(); reset(); }
        else if (kind == "rstbefore") { push(request); link->deliver(1 << 20); server->run(); reset(); }
        else if (kind == "failed") { }
        work();
        if (link->serverOpen) ++remaining;
    }

    void execute() {
        for (auto& l : scenario.lines) {
            auto& op = l[0];
            if (op == "mem" || op == "native" || op == "file" || op == "secret" || op == "dir") continue;
            if (op == "solo") { // a request alone
                auto data = drv::bytes(l[2]);
                watching = false;
                auto others = std::move(clients);
                auto used = std::move(server);
                clients.clear();
                fresh();
                quiet = true;
                auto link = connect(-1);
                server->run();
                for (auto ch : data) link->toServer.push_back(static_cast<std::byte>(ch));
                for (int i = 0; i < 100000 && (!link->writes.empty() || (!link->reads.empty() && !link->toServer.empty())); ++i) {
                    if (!link->reads.empty() && !link->toServer.empty()) link->deliver(1 << 20);
                    server->run();
                    link->flush(1 << 20);
                    server->run();
                }
                Ev("solo").num("k", std::stoi(l[1])).runs("d", {reinterpret_cast<const char*>(link->toClient.data()), link->toClient.size()}).flag("open", link->serverOpen);
                server.reset();
                server = std::move(used);
                clients = std::move(others);
                quiet = false;
                watching = true;
                fresh();
                continue;
            }
            if (op == "acceptfail") {
                if (auto a = sim::Acceptor::current()) a->accept(std::make_error_code(std::errc::connection_aborted), nullptr);
                Ev("acceptfail");
                step();
                quiescent();
                continue;
            }
            if (op == "hold") {
                held = true;
                continue;
            }
            if (op == "release") {
                held = false;
                step();
                quiescent();
                continue;
            }
            if (op == "settle") {
                settle();
                Ev("settled");
                continue;
            }
            if (op == "cycle") { // cycle kind count request
                auto data = drv::bytes(l[3]);
                int n = std::stoi(l[2]);
                quiet = true;
                watching = false;
                remaining = 0;
                try {
                    for (int i = 0; i < 2; ++i) cycle(l[1], data);
                    auto before = drv::allocatedBytes();
                    for (int i = 0; i < n; ++i) cycle(l[1], data);
                    auto after = drv::allocatedBytes();
                    Ev("growth").num("n", n).num("bytes", after - before).num("left", remaining).word("kind", l[1]);
                }
                catch (const std::exception& e) {
                    Ev("escape").text("what", e.what());
                }
                quiet = false;
                watching = true;
                continue;
            }
            int id = std::stoi(l[1]);
            if (op == "conn") { // connection id, which will send the request k
                Ev e("conn");
                e.num("c", id).num("k", l.size() > 2 ? std::stoi(l[2]) : 0);
                auto link = connect(id);
                e.flag("ok", link != nullptr);
                auto& c = clients[id];
                c.link = link;
                if (link) c.open = true;
            }
            else {
                auto& c = clients.at(id);
                if (!c.link) continue;
                if (op == "push" || op == "send") {
                    if (c.link->reset || c.link->peerFin) continue;
                    auto d = drv::bytes(l[2]);
                    for (auto ch : d) c.link->toServer.push_back(static_cast<std::byte>(ch));
                    Ev("push").num("c", id).text("d", d);
                    if (op == "send") {
                        take(id, 1 << 20);
                        quiescent();
                    }
                    continue;
                }
                if (op == "take") {
                    if (!c.handedOver) take(id, std::stoul(l[2]));
                    else upread(id);
                    quiescent();
                    continue;
                }
                if (op == "flush") {
                    c.link->flush(std::stoul(l[2]));
                    observe();
                }
                else if (op == "fin") {
                    if (c.link->peerFin || c.link->reset) continue;
                    c.link->peerFin = true;
                    Ev("fin").num("c", id);
                    if (c.link->toServer.empty() && !c.link->reads.empty()) Ev("readend").num("c", id);
                    if (c.link->toServer.empty()) c.link->deliver(0);
                }
                else if (op == "reset") {
                    if (c.link->reset) continue;
                    c.link->reset = true;
                    Ev("reset").num("c", id);
                    c.link->abortAll(sim::connectionReset());
                }
                else if (op == "drop") { // the owner of a handed over socket closes it
                    c.handedOver.reset();
                }
            }
            step();
            quiescent();
        }
        watching = false;
        quiet = true;
        server.reset();
        clients.clear();
    }

private:
    const drv::Scenario& scenario;
    std::string docRoot;
    std::unique_ptr<http::Server<sim::Net, FS>> server;
    std::map<int, Client> clients;
    bool quiet = false, held = false;
    int remaining = 0;
};

void execute(const drv::Scenario& scenario) {
    stored.clear();
    root.clear();
    watching = false;
    bool native = !scenario.lines.empty() && scenario.lines[0][0] == "native";
    std::string base;
    if (native) {
        char name[] = "scratchXXXXXX";
        if (!mkdtemp(name)) _exit(98);
        base = std::filesystem::canonical(name).generic_string();
        root = base + "/www";
        std::filesystem::create_directories(root);
    }
    for (auto& l : scenario.lines) {
        if (l[0] == "dir" && native) std::filesystem::create_directories(root + "/" + drv::bytes(l[1]));
        if (l[0] != "file" && l[0] != "secret") continue;
        auto name = drv::bytes(l[1]), data = drv::bytes(l[2]), encoding = drv::bytes(l.size() > 3 ? l[3] : "-");
        if (native) { // secrets are beside the root
            auto path = std::filesystem::path((l[0] == "secret" ? base : root) + "/" + name);
            std::filesystem::create_directories(path.parent_path());
            std::ofstream(path, std::ios::binary) << data;
            encoding.clear();
        }
        else {
            StoredFile f{std::vector<uint64_t>((data.size() + 7) / 8), data.size(), encoding};
            for (std::size_t i = 0; i < data.size(); ++i) f.data[i / 8] |= static_cast<uint64_t>(static_cast<unsigned char>(data[i])) << (8 * (7 - i % 8));
            stored[name] = std::move(f);
        }
        if (l[0] == "file") Ev("file").text("n", name).runs("d", data).text("e", encoding);
    }
    watching = true;
    if (native)
        Runner<fs::NativeDebugFS>(scenario, root).execute();
    else
        Runner<RecordingFS>(scenario, ".").execute();
    watching = false;
    if (native) std::filesystem::remove_all(base);
}

} // namespace

int main(int argc, char** argv) { return drv::run(argc, argv, execute); }
