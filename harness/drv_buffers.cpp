// Drives the network buffers (networking/BasicNetworking.hpp).
#include "driver.hpp"
#include <networking/BasicNetworking.hpp>
#include <cstring>
#include <memory>
#include <string>
#include <string_view>
#include <utility>
#include <variant>

using namespace webfront::networking;
using drv::Ev;

namespace {
using Net = BasicNetworking<>;
using M = Net::MutableBuffer;
using C = Net::ConstBuffer;

struct Made {
    std::shared_ptr<void> owner;
    const void* base = nullptr;
    std::size_t z = 1, c = 0;
    std::variant<std::monostate, M, C> b;
};
struct Slot {
    std::variant<std::monostate, M, C> b;
    const std::uint8_t* base = nullptr;
    std::shared_ptr<void> owner;
    int src = 0;
};

volatile unsigned sum = 0;

// a buffer of something, whole or not
template<typename S> void of(Made& m, S& s, long long limit) {
    if (limit < 0) m.b = Net::Buffer(s);
    else m.b = Net::Buffer(s, static_cast<std::size_t>(limit));
}
template<typename S> Made make(std::shared_ptr<S> s, long long limit, bool rw) {
    Made m;
    m.owner = std::const_pointer_cast<std::remove_const_t<S>>(s);
    m.base = std::data(*s);
    m.z = sizeof(*std::data(*s));
    m.c = std::size(*s);
    if (rw) of(m, *s, limit);
    else of(m, std::as_const(*s), limit);
    return m;
}
template<typename Container> Made container(std::size_t count, long long limit, bool rw) { return make(std::make_shared<Container>(count, typename Container::value_type{}), limit, rw); }
template<typename T, std::size_t N> struct Holder { T a[N]{}; };
template<typename T, std::size_t N> Made plain(long long limit, bool rw) {
    Made m;
    auto h = std::make_shared<Holder<T, N>>();
    m.owner = h;
    m.base = h->a;
    m.z = sizeof(T);
    m.c = N;
    if (rw) of(m, h->a, limit);
    else of(m, std::as_const(h->a), limit);
    return m;
}
template<typename Ch> Made view(std::size_t count, long long limit) {
    Made m;
    auto h = std::shared_ptr<Ch[]>(new Ch[count]{});
    m.owner = h;
    m.base = h.get();
    m.z = sizeof(Ch);
    m.c = count;
    std::basic_string_view<Ch> v(h.get(), count);
    of(m, v, limit);
    return m;
}
Made raw(std::size_t count, long long limit, bool rw) { // its size is always given
    Made m;
    auto h = std::shared_ptr<char[]>(new char[count]{});
    m.owner = h;
    m.base = h.get();
    m.c = count;
    auto n = limit < 0 ? count : std::min(count, static_cast<std::size_t>(limit));
    if (rw) m.b = Net::Buffer(static_cast<void*>(h.get()), n);
    else m.b = Net::Buffer(static_cast<const void*>(h.get()), n);
    return m;
}

Made make(const std::string& kind, std::size_t count, long long limit, bool rw) {
    if (kind == "a1") return plain<char, 5>(limit, rw);
    if (kind == "a2") return plain<short, 3>(limit, rw);
    if (kind == "a4") return plain<int, 8>(limit, rw);
    if (kind == "a8") return plain<double, 1>(limit, rw);
    if (kind == "s1") return make(std::make_shared<std::array<std::byte, 7>>(), limit, rw);
    if (kind == "s2") return make(std::make_shared<std::array<char16_t, 3>>(), limit, rw);
    if (kind == "s4") return make(std::make_shared<std::array<unsigned, 8>>(), limit, rw);
    if (kind == "s8") return make(std::make_shared<std::array<std::uint64_t, 2>>(), limit, rw);
    if (kind == "k1") { // constant elements
        auto s = std::shared_ptr<std::array<const char, 5>>(new std::array<const char, 5>{0, 0, 0, 0, 0});
        Made m;
        m.owner = s, m.base = s->data(), m.z = 1, m.c = 5;
        of(m, *s, limit);
        return m;
    }
    if (kind == "k4") {
        auto s = std::shared_ptr<std::array<const int, 3>>(new std::array<const int, 3>{0, 0, 0});
        Made m;
        m.owner = s, m.base = s->data(), m.z = 4, m.c = 3;
        of(m, *s, limit);
        return m;
    }
    if (kind == "v1") return container<std::vector<std::uint8_t>>(count, limit, rw);
    if (kind == "v2") return container<std::vector<short>>(count, limit, rw);
    if (kind == "v4") return container<std::vector<int>>(count, limit, rw);
    if (kind == "v8") return container<std::vector<double>>(count, limit, rw);
    if (kind == "t1") return container<std::string>(count, limit, rw);
    if (kind == "t2") return container<std::u16string>(count, limit, rw);
    if (kind == "t4") return container<std::u32string>(count, limit, rw);
    if (kind == "w1") return view<char>(count, limit);
    if (kind == "w2") return view<char16_t>(count, limit);
    if (kind == "w4") return view<wchar_t>(count, limit);
    return raw(count, limit, rw);
}

std::string see(const Slot& s) {
    std::size_t n = 0;
    const std::uint8_t* p = nullptr;
    bool rw = false;
    if (auto m = std::get_if<M>(&s.b)) {
        n = m->size(), p = static_cast<std::uint8_t*>(m->data()), rw = true;
        if (n < 1 << 20) memset(m->data(), 0x5A, n);
    }
    else if (auto c = std::get_if<C>(&s.b)) n = c->size(), p = static_cast<const std::uint8_t*>(c->data());
    if (n < 1 << 20)
        for (std::size_t i = 0; i < n; ++i) sum = sum + p[i];
    auto at = n ? static_cast<long long>(p - s.base) : 0;
    if (at > 1000000000) at = 1000000000;
    if (at < -1000000000) at = -1000000000;
    return "{\"src\":" + std::to_string(s.src) + ",\"at\":" + std::to_string(at) + ",\"n\":" + std::to_string(std::min<std::size_t>(n, 2000000000)) + ",\"rw\":" + (rw ? "true}" : "false}");
}

void execute(const drv::Scenario& s) {
    std::vector<Slot> slots(10);
    int sources = 0;
    for (auto& l : s.lines) {
        auto num = [&](std::size_t i) { return std::stoll(l[i]); };
        auto& slot = slots.at(static_cast<std::size_t>(num(1)));
        if (l[0] == "make") { // k kind count limit rw
            bool rw = l[5] == "1" && l[2][0] != 'k' && l[2][0] != 'w';
            auto m = make(l[2], static_cast<std::size_t>(num(3)), num(4), rw);
            slot = Slot{m.b, static_cast<const std::uint8_t*>(m.base), m.owner, ++sources};
            Ev("make").num("k", num(1)).num("src", slot.src).num("z", static_cast<long long>(m.z)).num("c", static_cast<long long>(m.c)).num("l", num(4)).flag("rw", rw).raw("w", see(slot));
        }
        else if (slot.b.index() == 0) continue;
        else if (l[0] == "copy") { // k j limit rw
            auto& to = slots.at(static_cast<std::size_t>(num(2)));
            auto limit = num(3);
            bool rw = l[4] == "1" && slot.b.index() == 1;
            Slot r = slot;
            if (rw) r.b = limit < 0 ? Net::Buffer(std::get<M>(slot.b)) : Net::Buffer(std::get<M>(slot.b), static_cast<std::size_t>(limit));
            else {
                C c = slot.b.index() == 1 ? C(std::get<M>(slot.b)) : std::get<C>(slot.b);
                r.b = limit < 0 ? Net::Buffer(c) : Net::Buffer(c, static_cast<std::size_t>(limit));
            }
            to = r;
            Ev("copy").num("k", num(1)).num("j", num(2)).num("l", limit).flag("rw", rw).raw("w", see(to));
        }
        else { // advance k n
            auto n = static_cast<std::size_t>(num(2));
            if (auto m = std::get_if<M>(&slot.b)) *m += n;
            else std::get<C>(slot.b) += n;
            Ev("advance").num("k", num(1)).num("n", num(2)).raw("w", see(slot));
        }
    }
}
} // namespace

int main(int argc, char** argv) { return drv::run(argc, argv, execute); }
