// Drives the encoding and the decoding of messages (weblink/Messages.hpp).
#include "driver.hpp"
#include "simnet.hpp"
#include <weblink/Messages.hpp>
#include <http/WebSocket.hpp>
#include <memory>

using namespace webfront;
using drv::Ev;

namespace {

// A value: b0 b1, i<decimal> (int) c<decimal> (unsigned char) l<decimal> (int64_t), d<16 hex digits, little endian double> f<8 hex digits> (float), s v p e <text> (string,
// string_view, const char*, exception), (value;value...) a tuple of the catalogue
struct V {
    char k = 0;
    std::string t;
    std::vector<V> l;
};
V parse(std::string_view& s) {
    V v;
    v.k = s[0];
    s.remove_prefix(1);
    if (v.k == '(') {
        while (s[0] != ')') {
            if (s[0] == ';') s.remove_prefix(1);
            v.l.push_back(parse(s));
        }
        s.remove_prefix(1);
        return v;
    }
    auto n = s.find_first_of(";)");
    v.t = s.substr(0, n);
    s.remove_prefix(std::min(n, s.size()));
    if (std::string_view("svpedf").find(v.k) != std::string_view::npos) v.t = drv::bytes(v.t);
    return v;
}
std::string shape(const V& v) {
    if (v.k != '(') return std::string(1, v.k);
    std::string r = "(";
    for (auto& e : v.l) r += shape(e);
    return r + ")";
}
std::string number(double d) { return "{\"k\":\"n\",\"n\":" + Ev::arr({reinterpret_cast<const char*>(&d), 8}) + "}"; }
std::string string(std::string_view kind, std::string_view t) { return "{\"k\":\"" + std::string(kind) + "\",\"r\":" + Ev::rle(t) + "}"; }
template<typename T> T raw(const V& v) {
    T t;
    memcpy(&t, v.t.data(), sizeof(t));
    return t;
}
std::string json(const V& v) {
    switch (v.k) {
    case 'b': return "{\"k\":\"b\",\"v\":" + v.t + "}";
    case 'i': return number(std::stoi(v.t));
    case 'c': return number(std::stoi(v.t));
    case 'l': return number(static_cast<double>(std::stoll(v.t)));
    case 'd': return number(raw<double>(v));
    case 'f': return number(raw<float>(v));
    case 's':
    case 'v': return string("s", v.t);
    case 'p': return string("s", v.t.c_str());
    case 'e': return string("e", std::runtime_error(v.t).what());
    default: break;
    }
    std::string r = "{\"k\":\"t\",\"l\":[";
    for (auto& e : v.l) r += (r.back() == '[' ? "" : ",") + json(e);
    return r + "]}";
}

template<typename T> struct Type;
template<char K, typename T> struct Basic {
    static std::string shape() { return {K}; }
};
template<> struct Type<bool> : Basic<'b', bool> { static bool make(const V& v) { return v.t == "1"; } };
template<> struct Type<int> : Basic<'i', int> { static int make(const V& v) { return std::stoi(v.t); } };
template<> struct Type<unsigned char> : Basic<'c', unsigned char> { static unsigned char make(const V& v) { return static_cast<unsigned char>(std::stoi(v.t)); } };
template<> struct Type<std::int64_t> : Basic<'l', std::int64_t> { static std::int64_t make(const V& v) { return std::stoll(v.t); } };
template<> struct Type<double> : Basic<'d', double> { static double make(const V& v) { return raw<double>(v); } };
template<> struct Type<float> : Basic<'f', float> { static float make(const V& v) { return raw<float>(v); } };
template<> struct Type<std::string> : Basic<'s', std::string> { static std::string make(const V& v) { return v.t; } };
template<> struct Type<std::string_view> : Basic<'v', std::string_view> { static std::string_view make(const V& v) { return v.t; } };
template<> struct Type<const char*> : Basic<'p', const char*> { static const char* make(const V& v) { return v.t.c_str(); } };
template<> struct Type<std::runtime_error> : Basic<'e', std::runtime_error> { static std::runtime_error make(const V& v) { return std::runtime_error(v.t); } };
template<typename... T> struct Type<std::tuple<T...>> {
    static std::string shape() { return "(" + (std::string() + ... + Type<T>::shape()) + ")"; }
    static std::tuple<T...> make(const V& v) {
        return [&]<std::size_t... I>(std::index_sequence<I...>) { return std::tuple<T...>(Type<T>::make(v.l[I])...); }(std::index_sequence_for<T...>());
    }
};

template<typename... T> using tup = std::tuple<T...>;
using str = std::string;
template<typename T, std::size_t... I> auto repeat(std::index_sequence<I...>) -> std::tuple<std::enable_if_t<(I + 1 > 0), T>...>;
using Tuples = std::tuple<tup<>, tup<bool>, tup<double>, tup<str>, tup<tup<>>, tup<bool, bool, bool>, tup<int, str, double>, tup<str, tup<bool, double>>, tup<tup<str, str>, tup<int>, bool>,
                          tup<tup<tup<double>>>, tup<unsigned char, std::int64_t, double>, tup<bool, tup<bool, tup<bool, str>>, bool>, decltype(repeat<int>(std::make_index_sequence<12>())), tup<tup<str, str, str>, tup<str, str, str>>>;
using Values = std::tuple<bool, int, unsigned char, std::int64_t, double, float, str, std::string_view, const char*, std::runtime_error, tup<float>, tup<std::string_view, const char*>, decltype(repeat<bool>(std::make_index_sequence<200>()))>;
using Scalars = std::tuple<bool, double, str>;

template<typename List, typename F> bool any(F f) {
    return [&]<std::size_t... I>(std::index_sequence<I...>) { return (f(static_cast<std::tuple_element_t<I, List>*>(nullptr)) || ...); }(std::make_index_sequence<std::tuple_size_v<List>>());
}

// ---- decoding
template<typename T> std::string typeName() {
    if constexpr (std::is_same_v<T, bool>) return "b";
    else if constexpr (std::is_same_v<T, double>) return "d";
    else if constexpr (std::is_same_v<T, str>) return "s";
    else return (std::is_signed_v<T> ? "i" : "u") + std::to_string(8 * sizeof(T));
}
template<typename T> struct Shown {
    static std::string type() { return "{\"t\":\"" + typeName<T>() + "\"}"; }
    static std::string value(const T& v) {
        if constexpr (std::is_same_v<T, bool>) return std::string("{\"k\":\"b\",\"v\":") + (v ? "1}" : "0}");
        else if constexpr (std::is_same_v<T, str>) return string("s", v);
        else return number(static_cast<double>(v));
    }
    static std::string shape() {
        if constexpr (requires { Type<T>::shape(); }) return Type<T>::shape();
        else return typeName<T>();
    }
};
template<typename... T> struct Shown<std::tuple<T...>> {
    static std::string list(std::initializer_list<std::string> all) {
        std::string r;
        for (auto& a : all) r += (r.empty() ? "" : ",") + a;
        return r;
    }
    static std::string type() { return "{\"t\":\"t\",\"l\":[" + list({Shown<T>::type()...}) + "]}"; }
    static std::string value(const std::tuple<T...>& v) {
        return std::apply([](auto&... e) { return "{\"k\":\"t\",\"l\":[" + list({Shown<T>::value(e)...}) + "]}"; }, v);
    }
    static std::string shape() { return Type<std::tuple<T...>>::shape(); }
};
using Decoded = decltype(std::tuple_cat(std::declval<Tuples>(), std::declval<std::tuple<bool, double, str, std::int8_t, std::int16_t, int, std::int64_t, std::uint8_t, std::uint16_t, std::uint32_t>>()));

void decode(const std::vector<std::string>& shapes, const std::string& data) {
    std::string types = "[", values = "[";
    std::unique_ptr<std::byte[]> exact(new std::byte[data.size()]);
    memcpy(exact.get(), data.data(), data.size());
    std::span<const std::byte> left(exact.get(), data.size());
    bool ok = true;
    for (auto& s : shapes)
        if (!any<Decoded>([&](auto* p) {
                using T = std::remove_pointer_t<decltype(p)>;
                if (Shown<T>::shape() != s && Shown<T>::type() != "{\"t\":\"" + s + "\"}") return false;
                types += (types.size() > 1 ? "," : "") + Shown<T>::type();
                if (!ok) return true;
                T value{};
                try {
                    msg::FunctionCall::decodeParameter(value, left);
                    values += (values.size() > 1 ? "," : "") + Shown<T>::value(value);
                }
                catch (const std::exception&) {
                    ok = false;
                }
                return true;
            }))
            throw std::runtime_error("unknown type " + s);
    auto inside = left.data() >= exact.get() && left.data() + left.size() == exact.get() + data.size();
    Ev("dec").raw("types", types + "]").runs("d", data).flag("ok", ok).raw("vals", ok ? values + "]" : "[]").num("left", ok ? (inside ? static_cast<long long>(left.size()) : -1) : 0);
}

// ---- encoding
void encode(const drv::Line& line) {
    std::vector<V> vs;
    std::string vals = "[";
    for (std::size_t i = 1; i < line.size(); ++i) {
        std::string_view s = line[i];
        vs.push_back(parse(s));
        vals += (i > 1 ? "," : "") + json(vs.back());
    }
    auto link = std::make_shared<sim::Link>(sim::IoContext::last(), 1);
    websocket::WebSocket<sim::Net> ws{sim::Socket(link)};
    std::vector<std::shared_ptr<void>> alive; // encoded objects stay alive as long as the frame
    std::vector<std::string> shapes;
    bool decodable = true;
    std::string failed;
    {
        msg::FunctionCall call;
        websocket::Frame<sim::Net> frame{call.header()};
        try {
            for (auto& v : vs) {
                auto s = shape(v);
                shapes.push_back(s == "v" || s == "p" || s == "e" ? "s" : s == "f" ? "d" : s);
                auto f = [&](auto* p) {
                    using T = std::remove_pointer_t<decltype(p)>;
                    if (Type<T>::shape() != s) return false;
                    auto value = std::make_shared<T>(Type<T>::make(v));
                    alive.push_back(value);
                    call.encodeParameter(*value, frame);
                    return true;
                };
                if (!any<Values>(f) && !any<Tuples>(f)) throw std::logic_error("unknown shape " + s);
                if (s[0] == '(' && (s.find_first_of("fvp") != s.npos || s.size() > 100)) decodable = false;
            }
            ws.write(std::move(frame));
        }
        catch (const std::logic_error& e) {
            if (std::string_view(e.what()).starts_with("unknown shape")) throw;
            failed = "yes";
        }
        catch (const std::exception& e) {
            failed = "yes";
        }
    }
    if (!failed.empty()) {
        Ev("refused").raw("vals", vals + "]");
        return;
    }
    link->flush(std::size_t{1} << 30);
    std::string d(reinterpret_cast<const char*>(link->toClient.data()), link->toClient.size());
    std::size_t n = d.size() < 2 ? 0 : static_cast<unsigned char>(d[1]), head = n == 127 ? 10 : n == 126 ? 4 : 2;
    auto bytes = d.size() >= head + 8 ? d.substr(head) : d;
    Ev("enc").raw("vals", vals + "]").runs("d", bytes);
    if (decodable && bytes.size() >= 8) decode(shapes, bytes.substr(8));
}

void cast(const std::string& kind, const std::string& data) {
    std::unique_ptr<std::byte[]> exact(new std::byte[data.size()]);
    memcpy(exact.get(), data.data(), data.size());
    std::span<const std::byte> s(exact.get(), data.size());
    bool ok = true, named = false;
    std::string name, rest;
    long long size = 0, endian = 0;
    try {
        if (kind == "hs") endian = static_cast<int>(msg::Handshake::castFromRawData(s)->getEndian());
        else if (kind == "text") size = static_cast<long long>(msg::TextCommand::castFromRawData(s)->getPayloadSize());
        else {
            const msg::FunctionCall* call = kind == "ret" ? msg::FunctionReturn::castFromRawData(s) : msg::FunctionCall::castFromRawData(s);
            size = static_cast<long long>(call->getPayloadSize());
            try {
                auto [n, p] = call->getFunctionName();
                name = n;
                rest.assign(reinterpret_cast<const char*>(p.data()), p.size());
                named = true;
            }
            catch (const std::exception&) {
            }
        }
    }
    catch (const std::exception&) {
        ok = false;
    }
    Ev("cast").word("k", kind).runs("d", data).flag("ok", ok).num("size", size).num("endian", endian).flag("named", named).runs("name", name).runs("rest", rest);
}

} // namespace

int main(int argc, char** argv) {
    return drv::run(argc, argv, [](const drv::Scenario& s) {
        sim::IoContext io;
        for (auto& l : s.lines) {
            if (l[0] == "enc") encode(l);
            else if (l[0] == "dec") {
                std::vector<std::string> types(l.begin() + 2, l.end());
                decode(types, drv::bytes(l[1]));
            }
            else if (l[0] == "cast") cast(l[1], drv::bytes(l[2]));
        }
    });
}
