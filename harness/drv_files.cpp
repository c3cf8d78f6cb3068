// Drives the files, their providers and the embedded assets (system/*.hpp).
#include "driver.hpp"
#include <filesystem>
#include <map>
#include <memory>
#include <optional>
#include <system/BabelFS.hpp>
#include <system/FileSystem.hpp>
#include <system/IndexFS.hpp>
#include <system/JasmineFS.hpp>
#include <system/NativeFS.hpp>
#include <system/ReactFS.hpp>
#include <sys/stat.h>

using namespace webfront;
using drv::Ev;

namespace {

struct Stored {
    std::vector<uint64_t> words;
    std::string content, encoding;
};
std::map<std::string, std::unique_ptr<Stored>> mocked[4]; // by provider and name
std::vector<int> asked;
std::unique_ptr<Stored> pack(std::string content, std::string encoding) {
    auto s = std::make_unique<Stored>();
    s->words = std::vector<uint64_t>((content.size() + 7) / 8); // no more than the required words
    for (std::size_t i = 0; i < content.size(); ++i) s->words[i / 8] |= uint64_t(static_cast<unsigned char>(content[i])) << (56 - 8 * (i % 8));
    s->content = std::move(content);
    s->encoding = std::move(encoding);
    return s;
}
fs::File fileOf(const Stored& s) {
    return s.encoding.empty() ? fs::File(std::span<const uint64_t>(s.words), s.content.size()) : fs::File(std::span<const uint64_t>(s.words), s.content.size(), s.encoding);
}
template<int N> struct Mock {
    Mock(std::filesystem::path) {}
    std::optional<fs::File> open(std::filesystem::path p) {
        asked.push_back(N);
        auto f = mocked[N].find(p.relative_path().string());
        if (f == mocked[N].end()) return {};
        return fileOf(*f->second);
    }
};
template<int N, typename FS> struct Tap : FS {
    Tap(std::filesystem::path root) : FS(root) {}
    std::optional<fs::File> open(std::filesystem::path p) {
        asked.push_back(N);
        return FS::open(p);
    }
};
using Opener = std::function<std::optional<fs::File>(std::filesystem::path)>;
template<typename FS> Opener opener(std::filesystem::path root) {
    auto fs = std::make_shared<FS>(root);
    return [fs](std::filesystem::path p) { return fs->open(p); };
}
Opener multi(const std::string& kind, std::filesystem::path root) {
    using namespace fs;
    if (kind == "m") return opener<Multi<Mock<1>>>(root);
    if (kind == "mm") return opener<Multi<Mock<1>, Mock<2>>>(root);
    if (kind == "mmm") return opener<Multi<Mock<1>, Mock<2>, Mock<3>>>(root);
    if (kind == "n") return opener<Tap<1, NativeDebugFS>>(root);
    if (kind == "nm") return opener<Multi<Tap<1, NativeDebugFS>, Mock<2>>>(root);
    if (kind == "mn") return opener<Multi<Mock<1>, Tap<2, NativeDebugFS>>>(root);
    if (kind == "mnm") return opener<Multi<Mock<1>, Tap<2, NativeDebugFS>, Mock<3>>>(root);
    if (kind == "i") return opener<Tap<1, IndexFS>>(root);
    if (kind == "im") return opener<Multi<Tap<1, IndexFS>, Mock<2>>>(root);
    if (kind == "mi") return opener<Multi<Mock<1>, Tap<2, IndexFS>>>(root);
    if (kind == "nim") return opener<Multi<Tap<1, NativeDebugFS>, Tap<2, IndexFS>, Mock<3>>>(root);
    if (kind == "r") return opener<Tap<1, ReactFS>>(root);
    if (kind == "b") return opener<Tap<1, BabelFS>>(root);
    if (kind == "j") return opener<Tap<1, JasmineFS>>(root);
    if (kind == "all") return opener<Multi<NativeDebugFS, IndexFS, ReactFS, BabelFS, JasmineFS>>(root);
    if (kind == "lla") return opener<Multi<JasmineFS, BabelFS, ReactFS, IndexFS, NativeDebugFS>>(root);
    std::abort();
}
std::optional<fs::File> files[10];

void readFile(std::size_t k, std::size_t n) {
    auto buffer = std::make_unique<char[]>(n); // of the exact size
    memset(buffer.get(), 0x5A, n);
    auto got = files[k]->read({buffer.get(), n});
    Ev("read").num("k", k).num("n", n).num("got", got).runs("d", {buffer.get(), std::min(got, n)}).flag("eof", files[k]->eof());
}
// length and digest of what remains to be read
std::string sumOf(fs::File& f, std::size_t chunk) {
    std::size_t size = 0;
    uint64_t h = 14695981039346656037u;
    auto buffer = std::make_unique<char[]>(chunk);
    while (true) {
        auto n = f.read({buffer.get(), chunk});
        for (std::size_t i = 0; i < n; ++i) h = (h ^ static_cast<unsigned char>(buffer[i])) * 1099511628211u;
        size += n;
        if (f.eof() || n < chunk) break;
    }
    char t[64];
    snprintf(t, sizeof t, "%zu:%016llx", size, static_cast<unsigned long long>(h));
    return t;
}

void execute(const drv::Scenario& s) {
    namespace sf = std::filesystem;
    for (auto& m : mocked) m.clear();
    for (auto& f : files) f.reset();
    std::vector<std::unique_ptr<Stored>> contents;
    auto root = sf::current_path() / ("files" + std::to_string(s.id));
    sf::remove_all(root);
    sf::create_directories(root);
    Opener open;
    std::vector<std::string> layers(3, "");
    for (auto& l : s.lines) {
        auto num = [&](std::size_t i) { return static_cast<std::size_t>(std::stoul(l[i])); };
        auto& op = l[0];
        auto add = [&](std::size_t p, const std::string& name, const std::string& content, const std::string& enc) {
            auto& t = layers[p - 1];
            t += std::string(t.empty() ? "" : ",") + "{\"name\":" + Ev::arr(name) + ",\"d\":" + Ev::rle(content) + ",\"enc\":" + Ev::arr(enc) + "}";
        };
        if (op == "mock") { // provider name content encoding
            auto name = drv::bytes(l[2]), content = drv::bytes(l[3]), enc = drv::bytes(l[4]);
            add(num(1), name, content, enc);
            mocked[num(1)].emplace(name, pack(content, enc));
        }
        else if (op == "host") { // provider name content : a real file
            auto name = drv::bytes(l[2]);
            add(num(1), name, drv::bytes(l[3]), "");
            sf::create_directories((root / name).parent_path());
            std::ofstream(root / name, std::ios::binary) << drv::bytes(l[3]);
        }
        else if (op == "has") // provider name content encoding : told only
            add(num(1), drv::bytes(l[2]), drv::bytes(l[3]), drv::bytes(l[4]));
        else if (op == "dir") sf::create_directories(root / drv::bytes(l[1]));
        else if (op == "fifo") mkfifo((root / drv::bytes(l[1])).c_str(), 0600);
        else if (op == "link") sf::create_symlink(drv::bytes(l[2]), root / drv::bytes(l[1])); // name target
        else if (op == "multi") {
            Ev e("store");
            std::string t;
            for (std::size_t i = 0; i < num(2); ++i) t += (i ? "," : "") + ("[" + layers[i] + "]");
            e.raw("p", "[" + t + "]");
            open = multi(l[1], root);
        }
        else if (op == "open") { // k name
            asked.clear();
            auto name = drv::bytes(l[2]);
            auto f = open(name);
            std::string t;
            for (auto a : asked) t += (t.empty() ? "" : ",") + std::to_string(a);
            Ev("open").num("k", num(1)).text("name", name).flag("found", f.has_value()).raw("asked", "[" + t + "]");
            files[num(1)].reset();
            if (f) files[num(1)].emplace(std::move(*f));
        }
        else if (op == "mem") { // k content encoding
            contents.push_back(pack(drv::bytes(l[2]), drv::bytes(l[3])));
            files[num(1)].emplace(fileOf(*contents.back()));
            Ev("file").num("k", num(1)).runs("d", drv::bytes(l[2])).text("enc", drv::bytes(l[3]));
        }
        else if (op == "disk") { // k content
            auto path = root / ("file" + l[1]);
            std::ofstream(path, std::ios::binary) << drv::bytes(l[2]);
            files[num(1)].emplace(std::ifstream(path, std::ios::binary));
            Ev("file").num("k", num(1)).runs("d", drv::bytes(l[2])).text("enc", "");
        }
        else if (!files[std::min<std::size_t>(9, l.size() > 1 && isdigit(l[1][0]) ? num(1) : 9)] && op != "asset" && op != "known") continue; // no such file
        else if (op == "read") readFile(num(1), num(2));
        else if (op == "enc") Ev("enc").num("k", num(1)).text("enc", files[num(1)]->getEncoding()).flag("coded", files[num(1)]->isEncoded());
        else if (op == "end") Ev("end").num("k", num(1)).flag("eof", files[num(1)]->eof());
        else if (op == "move") {
            files[num(2)].reset();
            files[num(2)].emplace(std::move(*files[num(1)]));
            files[num(1)].reset();
            Ev("move").num("k", num(1)).num("j", num(2));
        }
        else if (op == "close") {
            files[num(1)].reset();
            Ev("close").num("k", num(1));
        }
        else if (op == "asset") { // name chunk
            auto name = drv::bytes(l[1]);
            auto f = open(name);
            auto enc = f ? std::string(f->getEncoding()) : std::string();
            Ev("asset").text("name", name).flag("found", f.has_value()).text("enc", enc).word("sum", f ? sumOf(*f, num(2)) : "");
        }
        else if (op == "known") { // name encoding sum ... : the assets
            std::string t;
            for (std::size_t i = 1; i + 2 < l.size(); i += 3) t += (t.empty() ? "" : ",") + ("{\"name\":" + Ev::arr(drv::bytes(l[i])) + ",\"enc\":" + Ev::arr(drv::bytes(l[i + 1])) + ",\"d\":\"" + l[i + 2] + "\"}");
            Ev("store").raw("p", "[[" + t + "]]");
        }
    }
    for (auto& f : files) f.reset();
    sf::remove_all(root);
}
} // namespace

int main(int argc, char** argv) { return drv::run(argc, argv, execute); }
