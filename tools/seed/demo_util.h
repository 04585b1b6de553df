#pragma once
#include <sofa/pbrpc/pbrpc.h>
#include <sofa/pbrpc/rpc_meta.pb.h>
#include "echo.pb.h"
#include <atomic>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <time.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
using namespace sofa::pbrpc;
namespace gp = google::protobuf;
#define DIE(...) do { fprintf(stdout, "BROKEN: " __VA_ARGS__); fprintf(stdout, "\n"); fflush(stdout); _exit(1); } while (0)
#define EXPECT(c, ...) do { if (!(c)) DIE(__VA_ARGS__); } while (0)
inline double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline void ms(int n) { usleep(n * 1000); }
struct Done : gp::Closure { std::function<void()> f; Done(std::function<void()> x) : f(x) {} void Run() { std::function<void()> g; g.swap(f); delete this; g(); } };
struct EchoImpl : demo::Echo {
    std::mutex mu; std::map<long, int> execs; std::atomic<int> total; EchoImpl() : total(0) {}
    std::function<void(long)> on_exec;
    void go(gp::RpcController* c, const demo::Req* q, demo::Resp* r, gp::Closure* d) {
        { std::lock_guard<std::mutex> l(mu); execs[q->id()]++; } total++;
        if (on_exec) on_exec(q->id());
        if (q->delay_ms()) ms(q->delay_ms());
        r->set_id(q->id()); r->set_payload(q->payload()); if (q->fail()) c->SetFailed("asked to fail"); d->Run();
    }
    void Call(gp::RpcController* c, const demo::Req* q, demo::Resp* r, gp::Closure* d) { go(c, q, r, d); }
    void Other(gp::RpcController* c, const demo::Req* q, demo::Resp* r, gp::Closure* d) { go(c, q, r, d); }
};
// a listening socket on a free loopback port
inline int listen_any(int* port, int rcvbuf = 0, int want = 0) {
    int s = socket(AF_INET, SOCK_STREAM, 0); int on = 1; setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on); if (rcvbuf) setsockopt(s, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
    sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(want); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (bind(s, (sockaddr*)&a, sizeof a)) { perror("bind"); _exit(3); } listen(s, 128);
    socklen_t l = sizeof a; getsockname(s, (sockaddr*)&a, &l); *port = ntohs(a.sin_port); return s;
}
inline int free_port() { int p; int s = listen_any(&p); close(s); return p; }
inline int connect_to(int port, int sndbuf = 0, int rcvbuf = 0) {
    int s = socket(AF_INET, SOCK_STREAM, 0); if (sndbuf) setsockopt(s, SOL_SOCKET, SO_SNDBUF, &sndbuf, sizeof sndbuf); if (rcvbuf) setsockopt(s, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
    int on = 1; setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &on, sizeof on);
    sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (connect(s, (sockaddr*)&a, sizeof a)) { close(s); return -1; } return s;
}
// >0 bytes, 0 closed or reset, -2 timeout
inline int recv_some(int fd, std::string* in, int timeout_ms) {
    pollfd p = { fd, POLLIN, 0 }; int r = poll(&p, 1, timeout_ms); if (r == 0) return -2; char b[65536]; r = read(fd, b, sizeof b); if (r <= 0) return 0; in->append(b, r); return r;
}
inline bool send_all(int fd, const std::string& s) { size_t o = 0; while (o < s.size()) { int r = send(fd, s.data() + o, s.size() - o, MSG_NOSIGNAL); if (r <= 0) return false; o += r; } return true; }
inline std::string frame(const std::string& meta, const std::string& data) { std::string h(24, 0); memcpy(&h[0], "SOFA", 4); int32_t m = meta.size(); int64_t d = data.size(), t = m + d; memcpy(&h[4], &m, 4); memcpy(&h[8], &d, 8); memcpy(&h[16], &t, 8); return h + meta + data; }
// takes one complete frame off the front
inline bool take_frame(std::string* in, std::string* meta, std::string* data) {
    if (in->size() < 24) return false; int32_t m; int64_t d; memcpy(&m, &(*in)[4], 4); memcpy(&d, &(*in)[8], 8); if (in->size() < (size_t)(24 + m + d)) return false;
    *meta = in->substr(24, m); *data = in->substr(24 + m, d); in->erase(0, 24 + m + d); return true;
}
inline std::string request_frame(uint64_t seq, const demo::Req& q, int64_t timeout_ms = 0, const char* method = "demo.Echo.Call") {
    RpcMeta m; m.set_type(RpcMeta::REQUEST); m.set_sequence_id(seq); m.set_method(method); if (timeout_ms) m.set_server_timeout(timeout_ms);
    return frame(m.SerializeAsString(), q.SerializeAsString());
}
inline std::string response_frame(uint64_t seq, const demo::Resp& r) {
    RpcMeta m; m.set_type(RpcMeta::RESPONSE); m.set_sequence_id(seq); m.set_failed(false); return frame(m.SerializeAsString(), r.SerializeAsString());
}
inline std::string addr(int port) { char b[64]; snprintf(b, sizeof b, "127.0.0.1:%d", port); return b; }
template <class F> bool within(int timeout_ms, F f) { double e = now_s() + timeout_ms / 1000.0; while (!f()) { if (now_s() > e) return false; usleep(2000); } return true; }
