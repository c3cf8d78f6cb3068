// A deterministic, single threaded simulated network which implements the operations the library expects from its
// Net provider. Nothing progresses by itself : the driver decides when a connection is accepted, how many received bytes
// a pending read gets, how many bytes of a pending write leave, and when the peer closes or resets the connection.
//  - the memory given to an asynchronous write is read lazily, when the driver makes the write progress
//  - several overlapping asynchronous writes on a socket interleave, as the composed operations of a real stack may do
//  - closing or destroying a socket aborts its pending operations
#pragma once
#include <networking/BasicNetworking.hpp>

#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <list>
#include <memory>
#include <stdexcept>
#include <string>
#include <string_view>
#include <system_error>
#include <vector>

namespace sim {

inline std::error_code aborted() { return std::make_error_code(std::errc::operation_canceled); }
inline std::error_code badDescriptor() { return std::make_error_code(std::errc::bad_file_descriptor); }
inline std::error_code notConnected() { return std::make_error_code(std::errc::not_connected); }
inline std::error_code connectionReset() { return std::make_error_code(std::errc::connection_reset); }
struct EofCategory : std::error_category {
    const char* name() const noexcept override { return "sim"; }
    std::string message(int) const override { return "End of file"; }
};
inline const EofCategory eofCategory;
inline std::error_code eofError() { return {2, eofCategory}; }

using Handler = std::function<void(std::error_code, std::size_t)>;

struct Context {
    std::deque<std::function<void()>> ready;
    void post(std::function<void()> f) { ready.push_back(std::move(f)); }
};

struct ReadOp {
    std::byte* data;
    std::size_t size;
    Handler handler;
};
struct Span {
    const std::byte* data;
    std::size_t size;
};
struct WriteOp {
    std::vector<Span> spans;
    std::size_t index = 0, offset = 0, done = 0;
    Handler handler;
    bool some = false; // async_write_some
};

// number of the connection whose operation is being completed
inline int running = 0;

// Both ends of a simulated connection
struct Link {
    explicit Link(std::shared_ptr<Context> c, int i) : context(std::move(c)), id(i) {}
    std::shared_ptr<Context> context;
    int id;
    std::deque<std::byte> toServer;           // sent by the peer, not read yet
    std::vector<std::byte> toClient;          // left the server
    std::deque<ReadOp> reads;
    std::deque<WriteOp> writes;
    bool serverOpen = false;                  // a server side socket owns the connection
    bool sentFin = false;                     // server side shut its sending side down or closed
    bool peerFin = false;                     // the peer won't send anymore
    bool reset = false;                       // the connection is broken
    bool recvShut = false;
    int readsStarted = 0, maxReads = 0, maxWrites = 0;

    void complete(Handler h, std::error_code ec, std::size_t n) {
        context->post([h = std::move(h), ec, n, id = id] {
            running = id;
            h(ec, n);
            running = 0;
        });
    }
    void abortAll(std::error_code ec) {
        auto r = std::move(reads);
        auto w = std::move(writes);
        reads.clear();
        writes.clear();
        for (auto& op : r) complete(std::move(op.handler), ec, 0);
        for (auto& op : w) complete(std::move(op.handler), ec, op.done);
    }
    // Completes the oldest read with at most max of the bytes sent by the peer, or its end of file
    std::size_t deliver(std::size_t max) {
        if (reads.empty()) return 0;
        if (reset) {
            abortAll(connectionReset());
            return 0;
        }
        if (toServer.empty() && !peerFin && !recvShut) return 0;
        auto op = std::move(reads.front());
        reads.pop_front();
        if (toServer.empty() || recvShut) {
            complete(std::move(op.handler), eofError(), 0);
            return 0;
        }
        auto n = std::min({max, op.size, toServer.size()});
        for (std::size_t i = 0; i < n; ++i) {
            op.data[i] = toServer.front();
            toServer.pop_front();
        }
        complete(std::move(op.handler), {}, n);
        return n;
    }
    // Lets at most max bytes of a pending write leave. Pending writes take turns.
    std::size_t flush(std::size_t max) {
        if (writes.empty()) return 0;
        if (reset) {
            abortAll(connectionReset());
            return 0;
        }
        auto op = std::move(writes.front());
        writes.pop_front();
        std::size_t n = 0;
        while (n < max && op.index < op.spans.size()) {
            auto& s = op.spans[op.index];
            auto k = std::min(max - n, s.size - op.offset);
            if (!sentFin) toClient.insert(toClient.end(), s.data + op.offset, s.data + op.offset + k);
            n += k;
            op.offset += k;
            if (op.offset == s.size) {
                ++op.index;
                op.offset = 0;
            }
        }
        op.done += n;
        while (op.index < op.spans.size() && op.spans[op.index].size == 0) ++op.index;
        if (op.index >= op.spans.size() || op.some)
            complete(std::move(op.handler), {}, op.done);
        else
            writes.push_back(std::move(op));
        return n;
    }
};

class Endpoint {
public:
    Endpoint() = default;
    Endpoint(std::string_view a, std::string_view p) : address(a), port(p) {}
    auto protocol() const { return 4; }
    std::string address, port;
};

class IoContext {
public:
    IoContext() : context(std::make_shared<Context>()) { last() = context; }
    IoContext(const IoContext&) = delete;
    ~IoContext() {
        auto pending = std::move(context->ready);
        context->ready.clear();
        while (!pending.empty()) pending.pop_front();
        context->ready.clear();
    }
    // runs what is ready, never blocks
    std::size_t run() {
        std::size_t n = 0;
        while (run_one()) ++n;
        return n;
    }
    std::size_t run_one() {
        if (context->ready.empty()) return 0;
        auto f = std::move(context->ready.front());
        context->ready.pop_front();
        f();
        return 1;
    }
    std::size_t poll() { return run(); }
    std::size_t poll_one() { return run_one(); }
    void stop() {}
    void restart() {}
    bool stopped() const { return false; }
    std::shared_ptr<Context> context;
    static std::shared_ptr<Context>& last() {
        static std::shared_ptr<Context> c;
        return c;
    }
};

class Resolver {
public:
    explicit Resolver(IoContext&) {}
    std::list<Endpoint> resolve(std::string_view a, std::string_view p) { return {Endpoint{a, p}}; }
};

class Socket {
public:
    enum shutdown_type { shutdown_receive, shutdown_send, shutdown_both };
    enum wait_type { wait_read, wait_write, wait_error };
    Socket() = default;
    explicit Socket(IoContext&) {}
    explicit Socket(std::shared_ptr<Link> l) : link(std::move(l)) { link->serverOpen = true; }
    Socket(const Socket&) = delete;
    Socket& operator=(const Socket&) = delete;
    Socket(Socket&& o) noexcept : link(std::move(o.link)) { o.link.reset(); }
    Socket& operator=(Socket&& o) noexcept {
        if (this != &o) {
            close();
            link = std::move(o.link);
            o.link.reset();
        }
        return *this;
    }
    ~Socket() { close(); }

    bool is_open() const { return link != nullptr; }
    bool holds(const std::shared_ptr<Link>& l) const { return link == l; }
    void close() {
        if (!link) return;
        auto l = std::move(link);
        link.reset();
        l->serverOpen = false;
        l->sentFin = true;
        l->abortAll(aborted());
    }
    void close(std::error_code& ec) {
        ec = {};
        close();
    }
    void cancel() {
        if (link) link->abortAll(aborted());
    }
    void cancel(std::error_code& ec) {
        ec = {};
        cancel();
    }
    void shutdown(shutdown_type type, std::error_code& ec) {
        ec = {};
        if (!link) {
            ec = badDescriptor();
            return;
        }
        if (link->reset || (link->peerFin && link->sentFin)) {
            ec = notConnected();
            return;
        }
        if (type != shutdown_receive) link->sentFin = true;
        if (type != shutdown_send) link->recvShut = true;
    }
    void shutdown(shutdown_type type) {
        std::error_code ec;
        shutdown(type, ec);
        if (ec) throw std::system_error(ec, "shutdown");
    }
    std::size_t available() const { return link ? link->toServer.size() : 0; }
    std::size_t available(std::error_code& ec) const {
        ec = {};
        return available();
    }
    Endpoint remote_endpoint() const { return {"192.0.2.1", "1"}; }
    Endpoint remote_endpoint(std::error_code& ec) const {
        ec = {};
        return remote_endpoint();
    }
    Endpoint local_endpoint() const { return {"192.0.2.2", "80"}; }
    template<typename O> void set_option(const O&) {}
    template<typename O> void set_option(const O&, std::error_code& ec) { ec = {}; }

    template<typename B, typename H> void async_read_some(const B& buffer, H handler) { startRead(buffer, wrap(std::move(handler))); }
    template<typename Bs, typename H> void async_write_some(const Bs& buffers, H handler) { startWrite(buffers, wrap(std::move(handler)), true); }
    template<typename Bs, typename H> void startAsyncWrite(const Bs& buffers, H handler) { startWrite(buffers, wrap(std::move(handler)), false); }

    template<typename B> std::size_t read_some(const B& buffer, std::error_code& ec) {
        ec = {};
        if (!link) { ec = badDescriptor(); return 0; }
        if (link->reset) { ec = connectionReset(); return 0; }
        std::size_t n = 0;
        auto p = static_cast<std::byte*>(buffer.data());
        while (n < buffer.size() && !link->toServer.empty()) {
            p[n++] = link->toServer.front();
            link->toServer.pop_front();
        }
        if (!n) ec = link->peerFin ? eofError() : std::make_error_code(std::errc::operation_would_block);
        return n;
    }
    template<typename Bs> std::size_t write_some(const Bs& buffers, std::error_code& ec) {
        ec = {};
        if (!link) { ec = badDescriptor(); return 0; }
        if (link->reset) { ec = connectionReset(); return 0; }
        std::size_t n = 0;
        for (auto& s : spans(buffers)) {
            if (!link->sentFin) link->toClient.insert(link->toClient.end(), s.data, s.data + s.size);
            n += s.size;
        }
        return n;
    }
    template<typename Bs> std::size_t write_some(const Bs& buffers) {
        std::error_code ec;
        auto n = write_some(buffers, ec);
        if (ec) throw std::system_error(ec, "write");
        return n;
    }

private:
    std::shared_ptr<Link> link;

    template<typename H> static Handler wrap(H handler) {
        auto h = std::make_shared<H>(std::move(handler));
        return [h](std::error_code ec, std::size_t n) { (*h)(ec, n); };
    }
    template<typename Bs> static std::vector<Span> spans(const Bs& buffers) {
        std::vector<Span> r;
        if constexpr (requires { buffers.data(); buffers.size(); typename Bs::value_type; } == false && requires { buffers.data(); buffers.size(); })
            r.push_back({static_cast<const std::byte*>(static_cast<const void*>(buffers.data())), buffers.size()});
        else
            for (const auto& b : buffers) r.push_back({static_cast<const std::byte*>(static_cast<const void*>(b.data())), b.size()});
        return r;
    }
    template<typename B> void startRead(const B& buffer, Handler h) {
        if (!link) {
            if (auto c = IoContext::last()) c->post([h = std::move(h)] { h(badDescriptor(), 0); });
            return;
        }
        if (link->reset) return link->complete(std::move(h), connectionReset(), 0);
        link->reads.push_back({static_cast<std::byte*>(buffer.data()), buffer.size(), std::move(h)});
        ++link->readsStarted;
        link->maxReads = std::max(link->maxReads, static_cast<int>(link->reads.size()));
        if (link->recvShut) link->deliver(0);
    }
    template<typename Bs> void startWrite(const Bs& buffers, Handler h, bool some) {
        if (!link) {
            if (auto c = IoContext::last()) c->post([h = std::move(h)] { h(badDescriptor(), 0); });
            return;
        }
        if (link->reset) return link->complete(std::move(h), connectionReset(), 0);
        if (link->sentFin) return link->complete(std::move(h), std::make_error_code(std::errc::broken_pipe), 0);
        WriteOp op;
        op.spans = spans(buffers);
        op.handler = std::move(h);
        op.some = some;
        while (op.index < op.spans.size() && op.spans[op.index].size == 0) ++op.index;
        if (op.index >= op.spans.size()) return link->complete(std::move(op.handler), {}, 0);
        link->writes.push_back(std::move(op));
        link->maxWrites = std::max(link->maxWrites, static_cast<int>(link->writes.size()));
    }
};

class Acceptor {
public:
    struct reuse_address {
        explicit reuse_address(bool b = true) : v(b) {}
        bool v;
    };
    explicit Acceptor(IoContext& io) : context(io.context) { current() = this; }
    Acceptor(IoContext& io, const Endpoint&, bool = true) : Acceptor(io) { opened = true; }
    ~Acceptor() {
        if (current() == this) current() = nullptr;
    }
    template<typename P> void open(const P&) { opened = true; }
    template<typename O> void set_option(const O&) {}
    void bind(const Endpoint& e) { bound = e; }
    void listen(int = 128) { listening = true; }
    void close() { opened = false; }
    bool is_open() const { return opened; }
    template<typename H> void async_accept(H h) {
        auto handler = std::make_shared<H>(std::move(h));
        pending.push_back([handler](std::error_code ec, Socket s) { (*handler)(ec, std::move(s)); });
    }
    bool waiting() const { return !pending.empty(); }
    // Completes the pending accept operation
    bool accept(std::error_code ec, std::shared_ptr<Link> link) {
        if (pending.empty()) return false;
        auto h = std::move(pending.front());
        pending.pop_front();
        auto s = std::make_shared<Socket>();
        if (link) *s = Socket(std::move(link));
        context->post([h, ec, s] { h(ec, std::move(*s)); });
        return true;
    }
    static Acceptor*& current() {
        static Acceptor* a = nullptr;
        return a;
    }
    std::shared_ptr<Context> context;
    Endpoint bound;

private:
    bool opened = false, listening = false;
    std::deque<std::function<void(std::error_code, Socket)>> pending;
};

class Net : public webfront::networking::BasicNetworking<> {
public:
    using Acceptor = sim::Acceptor;
    using Endpoint = sim::Endpoint;
    using IoContext = sim::IoContext;
    using Resolver = sim::Resolver;
    using Socket = sim::Socket;
    using super::ConstBuffer;
    using super::MutableBuffer;

    template<typename Bs, typename H> static void AsyncWrite(Socket& socket, const Bs& buffers, H handler) {
        socket.startAsyncWrite(buffers, std::move(handler));
    }
    template<typename Bs> static std::size_t Write(Socket& socket, const Bs& buffers) { return socket.write_some(buffers); }
    template<typename Bs> static std::size_t Write(Socket& socket, const Bs& buffers, std::error_code& ec) { return socket.write_some(buffers, ec); }

    struct Error {
        static inline const auto OperationAborted = aborted();
        static inline const auto Eof = eofError();
    };
};

} // namespace sim
