// Drives websocket::WebSocket over the simulated network.
#include "driver.hpp"
#include "simnet.hpp"
#include <http/WebSocket.hpp>
#include <cstring>
#include <map>
#include <memory>

using namespace webfront;
using drv::Ev;

namespace {

using Ws = websocket::WebSocket<sim::Net>;

struct Peer {
    std::shared_ptr<sim::Link> link;
    std::unique_ptr<Ws> ws;
    std::size_t seen = 0;
    bool open = true, pending = false;
    std::string onMessage = "none", onClose = "none";
    int count = 0;
};

class Runner {
public:
    explicit Runner(const drv::Scenario& s) : scenario(s) {}

    void run() {
        try {
            io.run();
        }
        catch (const std::exception& e) {
            Ev("escape").text("what", e.what());
        }
    }
    void observe() {
        for (auto& [id, p] : peers) {
            if (p.link->toClient.size() > p.seen) {
                if (!quiet) Ev("out").num("c", id).runs("d", {reinterpret_cast<const char*>(p.link->toClient.data()) + p.seen, p.link->toClient.size() - p.seen});
                p.seen = p.link->toClient.size();
            }
            bool now = !p.link->writes.empty();
            if (now != p.pending && !quiet) Ev("pend").num("c", id).flag("n", now);
            p.pending = now;
            if (!p.link->serverOpen && p.open) {
                p.open = false;
                if (!quiet) Ev("released").num("c", id);
            }
        }
    }
    void step() {
        if (!held) run();
        observe();
    }
    void open(int id, const std::string& onMessage, const std::string& onClose) {
        auto link = std::make_shared<sim::Link>(sim::IoContext::last(), id);
        if (!quiet) Ev("open").num("c", id);
        auto& p = peers[id];
        p.link = link;
        p.onMessage = onMessage;
        p.onClose = onClose;
        p.ws = std::make_unique<Ws>(sim::Socket(link));
        auto received = [this, id](int op, std::string_view d) {
            if (!quiet) Ev("msg").num("c", id).num("t", op).runs("d", d);
            auto& me = peers.at(id);
            ++me.count;
            if (me.onMessage == "echo") send(id, op == 1 ? "text" : "bin", std::string(d), {});
            if (me.onMessage == "burst")
                for (int i = 0; i < 3; ++i) send(id, i % 2 ? "text" : "bin", std::string(d).substr(0, 300) + std::string(1, static_cast<char>('a' + i)), {});
            if (me.onMessage == "stop2" && me.count == 2) {
                if (!quiet) Ev("stop").num("c", id);
                me.ws->stop();
            }
        };
        p.ws->onMessage([received](std::string_view t) { received(1, t); });
        p.ws->onMessage([received](std::span<const std::byte> d) { received(2, {reinterpret_cast<const char*>(d.data()), d.size()}); });
        p.ws->onClose([this, id](websocket::CloseEvent) {
            if (!quiet) Ev("told").num("c", id);
            auto& me = peers.at(id);
            if (me.onClose == "send") send(id, "text", "too late", {});
            if (me.onClose == "destroy") destroy(id);
        });
        if (drv::current % 2) p.ws->start(); // already started : has no effect
    }
    void destroy(int id) {
        auto& p = peers.at(id);
        if (!p.ws) return;
        if (!quiet) Ev("destroy").num("c", id);
        p.ws.reset();
    }
    // the data given to the WebSocket is overwritten and freed as soon as the call returns
    void send(int id, const std::string& kind, std::string data, std::vector<std::string> more) {
        auto& p = peers.at(id);
        if (!p.ws) return;
        auto all = data;
        for (auto& m : more) all += m;
        if (!quiet) Ev("send").num("c", id).num("t", kind == "text" ? 1 : 2).runs("d", all);
        auto bytes = [](std::string& s) { return std::span(reinterpret_cast<const std::byte*>(s.data()), s.size()); };
        auto heap = std::make_unique<std::string>(std::move(data));
        auto rest = std::make_unique<std::vector<std::string>>(std::move(more));
        if (kind == "text") p.ws->write(std::string_view(*heap));
        else if (kind == "bin") p.ws->write(bytes(*heap));
        else if (kind == "two") p.ws->write(bytes(*heap), rest->empty() ? std::span<const std::byte>{} : bytes((*rest)[0]));
        else {
            websocket::Frame<sim::Net> frame{bytes(*heap)};
            for (auto& r : *rest) frame.addBuffer(bytes(r));
            p.ws->write(std::move(frame));
        }
        std::fill(heap->begin(), heap->end(), '\xEE');
        for (auto& r : *rest) std::fill(r.begin(), r.end(), '\xEE');
    }
    void push(int id, const std::string& d) {
        auto& p = peers.at(id);
        if (p.link->reset || p.link->peerFin) return;
        for (auto ch : d) p.link->toServer.push_back(static_cast<std::byte>(ch));
    }
    // the library receives n bytes at most, in one or several reads
    void take(int id, std::size_t n) {
        auto& p = peers.at(id);
        while (n && !p.link->reads.empty() && !p.link->toServer.empty() && !p.link->reset && !p.link->recvShut) {
            auto count = std::min({n, p.link->toServer.size(), p.link->reads.front().size});
            if (!count) break;
            std::string d;
            for (std::size_t i = 0; i < count; ++i) d.push_back(static_cast<char>(p.link->toServer[i]));
            if (!quiet) Ev("read").num("c", id).runs("d", d);
            p.link->deliver(count);
            n -= count;
            step();
        }
        end(id);
    }
    // the end of the stream is met once everything was read
    void end(int id) {
        auto& p = peers.at(id);
        if (p.link->peerFin && p.link->toServer.empty() && !p.link->reads.empty() && !p.link->reset) {
            if (!quiet) Ev("readend").num("c", id);
            p.link->deliver(0);
            step();
        }
    }
    void reset(int id) {
        auto& p = peers.at(id);
        if (p.link->reset) return;
        p.link->reset = true;
        if (!quiet) Ev("reset").num("c", id);
        p.link->abortAll(sim::connectionReset());
    }
    // a decoder alone; the pieces are not followed by anything in memory and don't outlive their use
    void decode(const drv::Line& l) {
        websocket::FrameDecoder decoder;
        for (std::size_t i = 1; i < l.size(); ++i) {
            auto text = drv::bytes(l[i]);
            auto piece = std::make_unique<std::byte[]>(text.size());
            std::memcpy(piece.get(), text.data(), text.size());
            Ev("piece").runs("d", text);
            std::span<const std::byte> left(piece.get(), text.size());
            while (!left.empty() && decoder.parse(left)) {
                auto data = decoder.payload();
                Ev("frame").num("op", static_cast<int>(decoder.frameType)).flag("fin", decoder.finalFrame).runs("d", std::string(reinterpret_cast<const char*>(data.data()), data.size()));
                left = decoder.unparsed();
                decoder.reset();
            }
        }
        Ev("end");
    }
    void settle() {
        for (bool progress = true; progress;) {
            progress = false;
            for (auto& [id, p] : peers) {
                if (!p.link->reads.empty() && (!p.link->toServer.empty() || p.link->peerFin)) {
                    take(id, 1 << 24);
                    progress = true;
                }
                if (!p.link->writes.empty()) {
                    p.link->flush(1 << 24);
                    step();
                    progress = true;
                }
            }
        }
    }

    void execute() {
        for (auto& l : scenario.lines) {
            auto& op = l[0];
            if (op == "decode") {
                decode(l);
                continue;
            }
            if (op == "hold" || op == "release") { // what completes in between is handled together
                held = op == "hold";
                step();
                if (held) continue;
            }
            else if (op == "open") open(std::stoi(l[1]), l[2], l[3]);
            else if (op == "settle") settle();
            else if (op == "cycle") { // cycle count kind data
                quiet = true;
                auto data = drv::bytes(l[3]);
                long long before = 0;
                int n = std::stoi(l[1]);
                for (int i = -2; i < n; ++i) {
                    if (i == 0) before = drv::allocatedBytes();
                    open(-1, "echo", "destroy");
                    push(-1, data);
                    if (l[2] != "midwrite") settle();
                    else take(-1, 1 << 24);
                    if (l[2] == "fin") { peers[-1].link->peerFin = true; end(-1); }
                    else if (l[2] == "destroy") destroy(-1);
                    else reset(-1);
                    step();
                    peers.erase(-1);
                    run();
                }
                quiet = false;
                Ev("growth").num("n", n).num("bytes", drv::allocatedBytes() - before);
            }
            else {
                int id = std::stoi(l[1]);
                if (!peers.contains(id)) continue;
                auto& p = peers.at(id);
                if (op == "push") push(id, drv::bytes(l[2]));
                else if (op == "take") take(id, std::stoul(l[2]));
                else if (op == "recv") {
                    push(id, drv::bytes(l[2]));
                    take(id, 1 << 24);
                }
                else if (op == "send") {
                    std::vector<std::string> more;
                    for (std::size_t i = 4; i < l.size(); ++i) more.push_back(drv::bytes(l[i]));
                    send(id, l[2], drv::bytes(l[3]), std::move(more));
                    observe();
                }
                else if (op == "flush") {
                    p.link->flush(std::stoul(l[2]));
                    observe();
                }
                else if (op == "fin") {
                    if (!p.link->peerFin && !p.link->reset) {
                        p.link->peerFin = true;
                        Ev("fin").num("c", id);
                        end(id);
                    }
                }
                else if (op == "reset") reset(id);
                else if (op == "stop") {
                    if (p.ws) {
                        Ev("stop").num("c", id);
                        p.ws->stop();
                    }
                }
                else if (op == "destroy") destroy(id);
            }
            step();
            if (held) continue;
            Ev("q").num("big", static_cast<long long>(drv::biggestAllocation));
        }
        quiet = true;
        peers.clear();
        run();
    }

private:
    const drv::Scenario& scenario;
    sim::IoContext io;
    std::map<int, Peer> peers;
    bool quiet = false, held = false;
};

} // namespace

int main(int argc, char** argv) {
    return drv::run(argc, argv, [](const drv::Scenario& s) { Runner(s).execute(); });
}
