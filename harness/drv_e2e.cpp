// A WebFront application over the simulated network, played interactively: reads operations on its standard input, one per
// line, and answers each of them with the events it caused, what leaves for each client, and a line "ok".
//   accept c            : a connection                data c chunk bytes : received from it, at most chunk bytes at a time
//   fin c | reset c     : its end                     js / script / log  : as drv_app
#define main drv_app_main
#include "drv_app.cpp"
#undef main

namespace {

class Service {
    drv::Scenario none;
    Runner app{none};
    std::map<int, std::shared_ptr<sim::Link>> links;
    std::map<int, std::size_t> seen;
    std::map<int, bool> open;
    std::size_t writeChunk = 1 << 20;

    void progress(std::size_t chunk) {
        for (bool more = true; more;) {
            more = false;
            app.run();
            for (auto& [id, l] : links) {
                if (!l->reads.empty() && (l->reset || !l->toServer.empty() || l->peerFin)) l->deliver(chunk), more = true;
                app.run();
                if (!l->writes.empty()) l->flush(writeChunk), more = true;
                app.run();
            }
        }
        for (auto& [id, l] : links) {
            if (l->toClient.size() > seen[id]) {
                std::string s = "out " + std::to_string(id) + " ";
                static const char* hex = "0123456789abcdef";
                for (auto i = seen[id]; i < l->toClient.size(); ++i) s += hex[static_cast<int>(l->toClient[i]) >> 4], s += hex[static_cast<int>(l->toClient[i]) & 15];
                seen[id] = l->toClient.size();
                say(s);
            }
            if (open[id] && !l->serverOpen) {
                open[id] = false;
                say("closed " + std::to_string(id));
            }
        }
    }
    static void say(const std::string& s) {
        auto t = s + "\n";
        for (std::size_t done = 0; done < t.size();) {
            auto n = ::write(drv::outFd, t.data() + done, t.size() - done);
            if (n <= 0) _exit(99);
            done += static_cast<std::size_t>(n);
        }
    }

public:
    void serve(const drv::Line& l) {
        std::size_t chunk = 1 << 20;
        auto& op = l[0];
        auto id = l.size() > 1 && op != "log" && op != "level" ? std::stoi(l[1]) : 0;
        if (op == "accept") {
            auto link = app.accept(id);
            if (link) {
                links[id] = link;
                seen[id] = 0;
                open[id] = true;
                if (id < 100) { // those from 100 on are plain requests
                    app.clients[id] = Client{};
                    app.clients[id].link = link;
                }
            }
        }
        else if (op == "data") {
            chunk = std::stoul(l[2]);
            Runner::push(*links.at(id), drv::bytes(l[3]));
        }
        else if (op == "fin") links.at(id)->peerFin = true;
        else if (op == "reset") {
            links.at(id)->reset = true;
            links.at(id)->abortAll(sim::connectionReset());
        }
        else if (op == "writes") writeChunk = std::stoul(l[2]);
        else if (op == "level") log::setLogLevel(static_cast<std::uint8_t>(std::stoi(l[1])));
        else if (op == "log") log::error("{}", drv::bytes(l[1]));
        else if (op == "script") app.script(id, drv::bytes(l[2]));
        else if (op == "js") app.call(id, drv::bytes(l[3]), l[2] == "new", l[4], {l.begin() + 5, l.end()});
        progress(chunk);
        say("ok");
    }
};

} // namespace

int main() {
    drv::outFd = ::dup(1);
    std::cout.rdbuf(nullptr);
    std::clog.rdbuf(nullptr);
    std::cerr.rdbuf(nullptr);
    auto service = std::make_unique<Service>();
    std::string text;
    while (std::getline(std::cin, text)) {
        std::istringstream words(text);
        drv::Line line;
        for (std::string w; words >> w;) line.push_back(w);
        if (line.empty()) continue;
        if (line[0] == "S") {
            drv::current = std::stoi(line[1]);
            service.reset();
            service = std::make_unique<Service>();
            continue;
        }
        try {
            service->serve(line);
        }
        catch (const std::exception& e) {
            Ev("escape").text("what", e.what());
        }
    }
    _exit(0);
}
