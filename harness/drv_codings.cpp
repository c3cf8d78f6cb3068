// Drives the codings (http/Encodings.hpp).
#include "driver.hpp"
#include <http/Encodings.hpp>
#include <memory>
#include <thread>

using namespace webfront;
using drv::Ev;

namespace {

template<typename T> std::vector<T> elements(std::string_view d) {
    std::vector<T> v(d.size() / sizeof(T));
    memcpy(v.data(), d.data(), v.size() * sizeof(T));
    return v;
}
template<typename T> std::string bigEndian(const std::vector<T>& v) {
    std::string r;
    for (auto e : v)
        for (std::size_t i = sizeof(T); i-- > 0;) r += static_cast<char>(static_cast<std::make_unsigned_t<T>>(e) >> (8 * i));
    return r;
}
template<typename T> void network(std::string_view d) {
    auto v = elements<T>(d);
    Ev("net").text("t", bigEndian(v)).text("r", base64::encodeInNetworkOrder(v));
}
std::string components(const uri::URI& u) {
    std::string t;
    for (auto c : {u.scheme, u.authority, u.path, u.query, u.fragment, u.userinfo, u.host, u.port}) t += (t.empty() ? "" : ",") + Ev::arr(std::string(c));
    return "[" + t + "]";
}
void record(const std::string& text, const uri::URI& u) { Ev("uri").text("t", text).text("whole", u.string).raw("p", components(u)); }

void execute(const drv::Scenario& s) {
    for (auto& l : s.lines) {
        auto& op = l[0];
        std::vector<std::string> t;
        for (std::size_t i = 1; i < l.size(); ++i) t.push_back(drv::bytes(l[i]));
        if (op == "pct") { // encoding, decoding
            auto e = uri::encode(t[0]);
            Ev("pcte").text("t", t[0]).text("r", e).text("back", uri::decode(e));
            auto exact = std::make_unique<char[]>(t[0].size());
            memcpy(exact.get(), t[0].data(), t[0].size());
            Ev("pctd").text("t", t[0]).text("r", uri::decode({exact.get(), t[0].size()}));
        }
        else if (op == "b64") {
            Ev("b64").text("t", t[0]).text("r", base64::encode(t[0]));
            Ev("b64").text("t", t[0]).text("r", base64::encode(elements<uint8_t>(t[0])));
            if (t[0].size() % 2 == 0) Ev("b64").text("t", t[0]).text("r", base64::encode(elements<uint16_t>(t[0])));
            if (t[0].size() % 4 == 0) Ev("b64").text("t", t[0]).text("r", base64::encode(elements<uint32_t>(t[0])));
            if (t[0].size() == 7) {
                std::array<char, 7> a;
                memcpy(a.data(), t[0].data(), 7);
                Ev("b64").text("t", t[0]).text("r", base64::encode(a));
            }
        }
        else if (op == "net") {
            network<uint8_t>(t[0]);
            if (t[0].size() % 2 == 0) network<uint16_t>(t[0]);
            if (t[0].size() % 4 == 0) network<uint32_t>(t[0]);
            if (t[0].size() % 8 == 0) network<uint64_t>(t[0]);
        }
        else if (op == "sha") {
            auto exact = std::make_unique<char[]>(t[0].size());
            memcpy(exact.get(), t[0].data(), t[0].size());
            std::string_view v(exact.get(), t[0].size());
            auto h = crypto::sha1(v);
            Ev("sha").text("t", v).text("bin", bigEndian(std::vector<uint32_t>(h.begin(), h.end()))).text("hex", crypto::sha1String(v)).text("b64", base64::encodeInNetworkOrder(h));
        }
        else if (op == "huge") // number of bytes, value
            Ev("huge").num("n", std::stoll(l[1])).num("v", std::stoi(l[2])).text("hex", crypto::sha1String(std::string(std::stoul(l[1]), static_cast<char>(std::stoi(l[2])))));
        else if (op == "uri") record(t[0], uri::URI(t[0]));
        else if (op == "uris") { // all alive together, their copies outlive them
            std::vector<std::unique_ptr<uri::URI>> all, copies;
            for (auto& e : t) all.push_back(std::make_unique<uri::URI>(e));
            for (std::size_t i = 0; i < t.size(); ++i) record(t[i], *all[i]);
            for (auto& e : all) copies.push_back(std::make_unique<uri::URI>(*e));
            all.clear();
            for (std::size_t i = 0; i < t.size(); ++i) {
                record(t[i], *copies[i]);
                record(t[i], uri::URI(*copies[i]));
                record(t[i], uri::URI(std::move(*copies[i])));
            }
        }
        else if (op == "threads") { // one for each text
            std::vector<std::string> found(t.size());
            std::vector<std::thread> threads;
            for (std::size_t i = 0; i < t.size(); ++i)
                threads.emplace_back([&, i] {
                    for (int n = 0; n < 300; ++n) {
                        uri::URI u(t[i]);
                        auto c = "\"whole\":" + Ev::arr(u.string) + ",\"p\":" + components(u);
                        if (found[i].empty() || n == 299) found[i] = c;
                        else if (c != found[i]) {
                            found[i] = c;
                            break;
                        }
                    }
                });
            for (auto& e : threads) e.join();
            for (std::size_t i = 0; i < t.size(); ++i) {
                auto colon = found[i].find(",\"p\":");
                Ev("uri").text("t", t[i]).raw("whole", found[i].substr(8, colon - 8)).raw("p", found[i].substr(colon + 5));
            }
        }
    }
}
} // namespace

int main(int argc, char** argv) { return drv::run(argc, argv, execute, 120); }
