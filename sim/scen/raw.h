// A scripted peer that speaks the binary protocol to a server.
#pragma once
#include "calls.h"
#include <sofa/pbrpc/rpc_meta.pb.h>
namespace sc {
struct Peer {
    int fd; std::string in; bool closed, reset; ns_t connected_at, closed_at, last_rx, last_tx; std::map<uint64_t, ns_t> sent, answered; std::map<uint64_t, bool> failed;
    Peer() : fd(-1), closed(false), reset(false), connected_at(-1), closed_at(-1), last_rx(-1), last_tx(-1) {}
    ~Peer() { close(); }
    bool connect(int node, int port = 8000, ns_t timeout = 5 * SEC) {
        close(); fd = raw_connect(node, port, timeout); if (fd < 0) return false;
        in.clear(); sent.clear(); answered.clear(); failed.clear(); closed = reset = false; closed_at = -1; connected_at = last_rx = last_tx = now(); return true;
    }
    void close(bool rst = false) { if (fd >= 0) { if (rst) raw_reset(fd); else raw_close(fd); } fd = -1; }
    static std::string request_bytes(Call* c) {
        static const char* const names[] = { "simtest.EchoService.Echo", "simtest.EchoService.Work", "simtest.EchoService.Quick", "simtest.ShortService.Plain", "simtest.ShortService.Own", "simtest.GhostService.Nothing" };
        sofa::pbrpc::RpcMeta m; m.set_type(sofa::pbrpc::RpcMeta::REQUEST); m.set_sequence_id(c->id); m.set_method(names[c->method]); if (c->timeout_ms) m.set_server_timeout(c->timeout_ms);
        std::string ms, ds; m.SerializeToString(&ms); c->req->SerializeToString(&ds); return frame(ms, ds);
    }
    bool request(Call* c) { std::string b = request_bytes(c); sent[c->id] = last_tx = now(); return raw_send(fd, b.data(), b.size()); }
    int pending() const { return sent.size() - answered.size(); }
    // waits for at most <timeout> for bytes or the end of the connection; true if something happened
    bool pump(ns_t timeout, size_t most = 4096) {
        if (closed || fd < 0) return false;
        char buf[65536]; int r = raw_recv(fd, buf, std::min(most, sizeof buf), std::max<ns_t>(1, timeout));
        if (r == -2) return false;
        if (r <= 0) { closed = true; reset = r < 0; closed_at = now(); return true; }
        last_rx = now(); in.append(buf, r);
        size_t pos = 0;
        while (in.size() - pos >= 24) {
            if (memcmp(&in[pos], "SOFA", 4)) fail("wrong-response", "the server sends something that is no message");
            int32_t ml; int64_t dl, tl; memcpy(&ml, &in[pos + 4], 4); memcpy(&dl, &in[pos + 8], 8); memcpy(&tl, &in[pos + 16], 8);
            if (ml <= 0 || dl < 0 || tl != ml + dl) fail("wrong-response", "the server sends a message with inconsistent sizes");
            if ((int64_t)(in.size() - pos) < 24 + ml + dl) break;
            sofa::pbrpc::RpcMeta m; if (!m.ParseFromString(in.substr(pos + 24, ml))) fail("wrong-response", "unreadable answer");
            uint64_t id = m.sequence_id(); if (!sent.count(id)) fail("wrong-response", "an answer to request %lu, which was not sent on this connection", (unsigned long)id);
            if (answered.count(id)) fail("answered-twice", "two answers to request %lu", (unsigned long)id);
            answered[id] = now(); Call* c = w->calls[id];
            if (m.failed()) { failed[id] = true; if (c->mode != 2 || c->execs.empty()) fail("wrong-response", "request %lu answered with an error: %s", (unsigned long)id, m.reason().c_str()); }
            else { simtest::Resp rp; if (!rp.ParseFromString(in.substr(pos + 24 + ml, dl)) || rp.id() != id || rp.payload() != gen(id, c->resp_size, 1) || c->mode == 2) fail("wrong-response", "answer to request %lu with a wrong body", (unsigned long)id); }
            pos += 24 + ml + dl;
        }
        in.erase(0, pos); return true;
    }
    // until the answer has come or the connection ended
    bool await(uint64_t id, ns_t timeout) { ns_t end = now() + timeout; while (!answered.count(id) && !closed && now() < end) pump(end - now()); return answered.count(id); }
    bool await_all(ns_t timeout) { ns_t end = now() + timeout; while (pending() && !closed && now() < end) pump(end - now()); return !pending(); }
};
// a request for a scripted peer: no timeout, no compression, answered at once unless changed
inline Call* raw_call(uint32_t max_size = 200, uint32_t max_resp = 200) {
    CallCfg k; k.bad_pct = k.fail_pct = k.compress = k.defer_pct = k.slow_pct = 0; k.default_tmo_pct = 0; k.tmo_lo = k.tmo_hi = 1000; k.max_size = max_size; k.max_resp = max_resp;
    Call* c = make_call(k); c->timeout_ms = 0; return c;
}
inline void set_mode(Call* c, int mode, uint32_t us) { c->mode = mode; c->delay_us = us; c->req->set_mode(mode); c->req->set_delay_us(us); }
}
