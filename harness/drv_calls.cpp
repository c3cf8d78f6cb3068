// Drives the functions whose type is forgotten (utils/TypeErasedFunction.hpp).
#include "driver.hpp"
#include <memory>
#include <optional>
#include <utils/TypeErasedFunction.hpp>

using namespace webfront;
using drv::Ev;
using utils::TypeErasedFunction;

namespace {

std::string hex(std::string_view t) {
    static const char* digits = "0123456789abcdef";
    std::string r;
    for (unsigned char c : t) r += digits[c >> 4], r += digits[c & 15];
    return r;
}
std::string show(bool v) { return v ? "b1" : "b0"; }
std::string show(int v) { return "i" + std::to_string(v); }
std::string show(unsigned v) { return "u" + std::to_string(v); }
std::string show(long v) { return "l" + std::to_string(v); }
std::string show(double v) { return "d" + hex({reinterpret_cast<const char*>(&v), 8}); }
std::string show(const char* v) { return "p" + hex(v); }
std::string show(std::string_view v) { return "v" + hex(v); }
std::string show(const std::string& v) { return "s" + hex(v); }
std::string show(const std::unique_ptr<int>& v) { return v ? "m" + std::to_string(*v) : "mx"; }
std::string list(std::initializer_list<std::string> l) {
    std::string t;
    for (auto& e : l) t += (t.empty() ? "\"" : ",\"") + e + "\"";
    return "[" + t + "]";
}
template<typename R, typename... Ts> R ran(const char* name, R result, const Ts&... args) {
    Ev("ran").word("f", name).raw("args", list({show(args)...})).word("v", show(result)).raw("left", "[]");
    return result;
}
template<typename... Ts> void ranVoid(const char* name, const Ts&... args) { Ev("ran").word("f", name).raw("args", list({show(args)...})).word("v", "").raw("left", "[]"); }

int free0() { return ran("free0", 12); }
void freeV() { ranVoid("freeV"); }
int freeI(int a) { return ran("freeI", a + 1, a); }
int freeIS(int a, std::string s) { return ran("freeIS", a + static_cast<int>(s.size()), a, s); }
std::string freeSI(std::string s, int a) { return ran("freeSI", s + std::to_string(a), s, a); }
void freeP(const char* p, int a, int b) { ranVoid("freeP", p, a, b); }
double freeD(double d) { return ran("freeD", d * 2, d); }
bool freeB(bool b) { return ran("freeB", !b, b); }
int bump(int& a) {
    auto before = a;
    a += 100;
    Ev("ran").word("f", "bump").raw("args", list({show(before)})).word("v", show(before)).raw("left", list({show(a)}));
    return before;
}
std::string view(std::string_view v) { return ran("view", std::string(v) + "!", v); }
std::string constRef(const std::string& s) { return ran("constRef", s + "&", s); }
void taker(std::unique_ptr<int> p) { ranVoid("taker", p); }
struct Functor {
    int base;
    int operator()(int a) const { return ran("functor", base + a, a); }
};
struct Mutable {
    int operator()(int a, int b) { return ran("mutable", a * b, a, b); }
};
struct Object {
    std::string name;
    int method(int a) { return ran(name.c_str(), a * 3, a); }
    std::string both(std::string s, int a) const { return ran(name.c_str(), s + "/" + std::to_string(a), s, a); }
    void none() { ranVoid(name.c_str()); }
};

struct Entry {
    const char *name, *types, *result;
    std::function<TypeErasedFunction()> make;
};
Object first{"method"}, second{"method2"}, third{"both"}, fourth{"none"};
int captured = 40;
using namespace std::placeholders;
const std::vector<Entry> catalogue{
  {"free0", "[]", "int", [] { return TypeErasedFunction(free0); }},
  {"freeV", "[]", "void", [] { return TypeErasedFunction(freeV); }},
  {"freeI", R"(["int"])", "int", [] { return TypeErasedFunction(&freeI); }},
  {"freeIS", R"(["int","string"])", "int", [] { return TypeErasedFunction(freeIS); }},
  {"freeSI", R"(["string","int"])", "string", [] { return TypeErasedFunction(freeSI); }},
  {"freeP", R"(["cstr","int","int"])", "void", [] { return TypeErasedFunction(freeP); }},
  {"freeD", R"(["double"])", "double", [] { return TypeErasedFunction(freeD); }},
  {"freeB", R"(["bool"])", "bool", [] { return TypeErasedFunction(freeB); }},
  {"bump", R"(["int&"])", "int", [] { return TypeErasedFunction(bump); }},
  {"view", R"(["view"])", "string", [] { return TypeErasedFunction(view); }},
  {"constRef", R"(["const string&"])", "string", [] { return TypeErasedFunction(constRef); }},
  {"functor", R"(["int"])", "int", [] { return TypeErasedFunction(Functor{7}); }},
  {"mutable", R"(["int","int"])", "int", [] { return TypeErasedFunction(Mutable{}); }},
  {"lambda", R"(["int"])", "int", [] { return TypeErasedFunction([](int a) { return ran("lambda", a - 1, a); }); }},
  {"capture", R"(["int","string"])", "string", [] { return TypeErasedFunction([word = std::string("a word which is not short at all"), &c = captured](int a, std::string s) { return ran("capture", word + std::to_string(c) + s, a, s); }); }},
  {"std", R"(["long"])", "int", [] { return TypeErasedFunction(std::function<int(long)>([](long a) { return ran("std", static_cast<int>(a), a); })); }},
  {"stdVoid", R"(["string"])", "void", [] { return TypeErasedFunction(std::function<void(std::string)>([](std::string a) { ranVoid("stdVoid", a); })); }},
};

struct Args { // of a call
    int i, j;
    std::string s;
};

template<typename F> void attempt(std::size_t k, const char* types, std::string args, const std::string& want, F f) {
    Ev("call").num("k", k).raw("types", types).raw("args", args).word("want", want);
    try {
        auto [value, left] = f();
        Ev("returned").word("v", value).raw("left", left);
    }
    catch (const std::invalid_argument&) {
        Ev("refused");
    }
}
// the call of a function with arguments of given types, the result being ignored or of a type
template<typename... Ts> std::string invoke(TypeErasedFunction& f, const std::string& want, Ts&&... ts) {
    if (want == "any") {
        f(std::forward<Ts>(ts)...);
        return "";
    }
    if (want == "void") {
        f.call<void>(std::forward<Ts>(ts)...);
        return "";
    }
    if (want == "int") return show(f.call<int>(std::forward<Ts>(ts)...));
    if (want == "string") return show(f.call<std::string>(std::forward<Ts>(ts)...));
    if (want == "double") return show(f.call<double>(std::forward<Ts>(ts)...));
    if (want == "bool") return show(f.call<bool>(std::forward<Ts>(ts)...));
    if (want == "long") return show(f.call<long>(std::forward<Ts>(ts)...));
    std::abort();
}
using Result = std::pair<std::string, std::string>;

void call(TypeErasedFunction& f, std::size_t k, const std::string& sig, const std::string& want, int i, int j, const std::string& s) {
    if (sig == "0") return attempt(k, "[]", "[]", want, [&] { return Result{invoke(f, want), "[]"}; });
    if (sig == "i") return attempt(k, R"(["int"])", list({show(i)}), want, [&] { return Result{invoke(f, want, int(i)), "[]"}; });
    if (sig == "is") return attempt(k, R"(["int","string"])", list({show(i), show(s)}), want, [&] { return Result{invoke(f, want, int(i), std::string(s)), "[]"}; });
    if (sig == "si") return attempt(k, R"(["string","int"])", list({show(s), show(i)}), want, [&] { return Result{invoke(f, want, std::string(s), int(i)), "[]"}; });
    if (sig == "ii") return attempt(k, R"(["int","int"])", list({show(i), show(j)}), want, [&] { return Result{invoke(f, want, int(i), int(j)), "[]"}; });
    if (sig == "iii") return attempt(k, R"(["int","int","int"])", list({show(i), show(j), show(i)}), want, [&] { return Result{invoke(f, want, int(i), int(j), int(i)), "[]"}; });
    if (sig == "s") return attempt(k, R"(["string"])", list({show(s)}), want, [&] { return Result{invoke(f, want, std::string(s)), "[]"}; });
    if (sig == "u") return attempt(k, R"(["unsigned"])", list({show(unsigned(i))}), want, [&] { return Result{invoke(f, want, unsigned(i)), "[]"}; });
    if (sig == "l") return attempt(k, R"(["long"])", list({show(long(i))}), want, [&] { return Result{invoke(f, want, long(i)), "[]"}; });
    if (sig == "d") return attempt(k, R"(["double"])", list({show(i + .5)}), want, [&] { return Result{invoke(f, want, i + .5), "[]"}; });
    if (sig == "b") return attempt(k, R"(["bool"])", list({show(i % 2 != 0)}), want, [&] { return Result{invoke(f, want, bool(i % 2 != 0)), "[]"}; });
    if (sig == "v") return attempt(k, R"(["view"])", list({show(std::string_view(s))}), want, [&] { return Result{invoke(f, want, std::string_view(s)), "[]"}; });
    if (sig == "p") return attempt(k, R"(["cstr"])", list({show(s.c_str())}), want, [&] { return Result{invoke(f, want, static_cast<const char*>(s.c_str())), "[]"}; });
    if (sig == "pii") return attempt(k, R"(["cstr","int","int"])", list({show(s.c_str()), show(i), show(j)}), want, [&] { return Result{invoke(f, want, static_cast<const char*>(s.c_str()), int(i), int(j)), "[]"}; });
    if (sig == "i&") {
        int v = i;
        return attempt(k, R"(["int&"])", list({show(i)}), want, [&] { auto r = invoke(f, want, v); return Result{r, list({show(v)})}; });
    }
    if (sig == "cs&") {
        const std::string v = s;
        return attempt(k, R"(["const string&"])", list({show(s)}), want, [&] { return Result{invoke(f, want, v), "[]"}; });
    }
    std::abort();
}

void execute(const drv::Scenario& s) {
    std::vector<std::unique_ptr<TypeErasedFunction>> slots(10);
    for (auto& l : s.lines) {
        auto num = [&](std::size_t i) { return static_cast<std::size_t>(std::stoul(l[i])); };
        auto& op = l[0];
        if (op == "store") { // k name
            auto store = [&](const char* name, const char* types, const char* result, TypeErasedFunction f) {
                slots[num(1)] = std::make_unique<TypeErasedFunction>(std::move(f));
                Ev("store").num("k", num(1)).word("f", name).raw("types", types).word("r", result);
            };
            if (l[2] == "method") store("method", R"(["int"])", "int", TypeErasedFunction(&Object::method, &first, _1));
            else if (l[2] == "method2") store("method2", R"(["int"])", "int", TypeErasedFunction(&Object::method, &second, _1));
            else if (l[2] == "both") store("both", R"(["string","int"])", "string", TypeErasedFunction(&Object::both, &third, _1, _2));
            else if (l[2] == "owner") store("a name which does not fit in the object", R"(["int"])", "int", TypeErasedFunction(&Object::method, Object{"a name which does not fit in the object"}, _1));
            else if (l[2] == "shared") store("shared", R"(["string","int"])", "string", TypeErasedFunction(&Object::both, std::make_shared<Object>(Object{"shared"}), _1, _2));
            else if (l[2] == "none") store("none", "[]", "void", TypeErasedFunction(&Object::none, &fourth));
            else
                for (auto& e : catalogue)
                    if (l[2] == e.name) store(e.name, e.types, e.result, e.make());
        }
        else if (!slots[num(1)]) continue;
        else if (op == "move") {
            slots[num(2)] = std::make_unique<TypeErasedFunction>(std::move(*slots[num(1)]));
            slots[num(1)].reset();
            Ev("move").num("k", num(1)).num("j", num(2));
        }
        else if (op == "forget") {
            slots[num(1)].reset();
            Ev("forget").num("k", num(1));
        }
        else if (op == "call") call(*slots[num(1)], num(1), l[2], l[3], std::stoi(l[4]), std::stoi(l[5]), drv::bytes(l[6])); // k signature result int int text
        Ev("q");
    }
}
} // namespace

int main(int argc, char** argv) { return drv::run(argc, argv, execute); }
