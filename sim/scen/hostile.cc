// C06 C07: peers that send anything
#include "calls.h"
#include <sofa/pbrpc/rpc_meta.pb.h>
#include <sofa/pbrpc/compressed_stream.h>
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
using namespace sc;
using sofa::pbrpc::RpcMeta;
namespace {
const uint64_t FORBIDDEN = 0x35A9C3ULL << 32, MAYBE = 0x4A563CULL << 32;   // many bits apart, so that a mutation does not turn one into the other

std::string rnd(size_t n) { std::string s(n, 0); uint64_t h = ((uint64_t)W(1u << 30) << 30) | W(1u << 30); for (size_t i = 0; i < n; i++) s[i] = hash64(h + i / 4) >> (8 * (i & 3)); return s; }
std::string compress(const std::string& in, int type, size_t cut = 0) {
    if (!type) return in; std::string out;
    { gp::io::StringOutputStream so(&out); sofa::pbrpc::AbstractCompressedOutputStream* os = sofa::pbrpc::get_compressed_output_stream(&so, (sofa::pbrpc::CompressType)type);
      size_t off = 0; void* p; int k; while (off < in.size() && os->Next(&p, &k)) { size_t m = std::min<size_t>(k, in.size() - off); memcpy(p, &in[off], m); off += m; if (m < (size_t)k) os->BackUp(k - m); }
      os->Flush(); delete os; }
    (void)cut; return out;
}
std::string varint(uint64_t v) { std::string s; while (v > 127) { s += (char)(v | 128); v >>= 7; } s += (char)v; return s; }
int64_t odd_size() { static const int64_t v[] = { -1, -2, -24, -1000, INT32_MIN, INT32_MAX, INT64_MIN, INT64_MAX, 0, 1, 23, 24, 25, 67108864, 67108889, 1LL << 31, 1LL << 32, -(1LL << 32), (1LL << 32) + 10, -65536 }; return v[W(sizeof v / sizeof *v)]; }
std::string mutate(std::string s) {
    int n = Wr(1, 4);
    for (int i = 0; i < n && !s.empty(); i++) switch (W(7)) {
    case 0: s[W(s.size())] ^= 1 << W(8); break;
    case 1: s[W(s.size())] = W(256); break;
    case 2: s.erase(W(s.size()), Wr(1, 8)); break;
    case 3: s.insert(W(s.size()), rnd(Wr(1, 8))); break;
    case 4: { size_t a = W(s.size()); std::string p = s.substr(a, Wr(1, 64)); s.insert(W(s.size()), p); break; }
    case 5: s.resize(W(s.size()) + 1); break;
    case 6: if (s.size() >= 24) { int64_t v = odd_size(); int f = W(3); if (f == 0) { int32_t x = v; memcpy(&s[4], &x, 4); } else memcpy(&s[f == 1 ? 8 : 16], &v, 8); } break;
    }
    return s;
}
RpcMeta req_meta(uint64_t seq, const std::string& method) { RpcMeta m; m.set_type(RpcMeta::REQUEST); m.set_sequence_id(seq); m.set_method(method); if (W(3) == 0) m.set_server_timeout(Wlog(1, 100000)); return m; }
std::string req_data(uint64_t id, size_t n = 50) { simtest::Req r; r.set_id(id); r.set_payload(gen(id, n, 0)); r.set_resp_size(Wlog(0, 3000)); r.set_text("hostile"); return r.SerializeAsString(); }

enum Expect { ANY, REJECT, ANSWER };      // nothing in particular; closed or an error response; closed or any response
struct Item { std::string bytes; Expect ex; const char* what; bool http; };
Item http_item(uint64_t id) {
    Item it; it.ex = ANY; it.what = "http"; it.http = true; std::string& s = it.bytes; char b[200]; int k = W(16);
    const char* method = W(2) ? "/simtest.EchoService.Echo" : "/simtest.ShortService.Plain";
    auto post = [&](const std::string& path, const std::string& body, const std::string& hdr = "") { s = "POST " + path + " HTTP/1.1\r\n" + hdr + "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body; };
    switch (k) {
    case 0: { static const char* l[] = { "GET  HTTP/1.1\r\n\r\n", "GET noslash HTTP/1.1\r\n\r\n", "POSTX / HTTP/1.1\r\n\r\n", "GET / HTTP/1.1\rX\r\n\r\n", "POST / HTTP/1.1\r\nA: b\rc\r\n\r\n", "GET / HTTP/1.1\r\nA: b\r\n\rX" }; s = l[W(6)]; it.ex = REJECT; it.what = "http malformed"; break; }
    case 1: { static const char* l[] = { "-1", "-9223372036854775808", "12x", "0x10", "1 2", "--3", "1e3", "5," }; s = std::string("POST ") + method + " HTTP/1.1\r\nContent-Length: " + l[W(8)] + "\r\n\r\n{}"; it.ex = REJECT; it.what = "http bad length"; break; }
    case 2: { static const char* l[] = { "2147483647", "2147483648", "4294967295", "4294967296", "4294967298", "9223372036854775807", "99999999999999999999999", "6442450943", "68719476736" }; s = std::string("POST ") + method + " HTTP/1.1\r\nContent-Length: " + l[W(9)] + "\r\n\r\n" + rnd(Wlog(1, 5000)); it.what = "http huge length"; break; }
    case 3: { static const char* l[] = { "{", "[", "}", "{\"id\":}", "{\"id\":\"x\"}", "{\"id\":1e999}", "{\"id\":[1]}", "nul", "{\"id\":1,}", "\"\\u12\"", "{\"nums\":5,\"id\":1}", "{\"nums\":[\"a\"],\"id\":1}", "[]", "null", "1", "\"x\"", "{\"payload\":5,\"id\":2}", "{}" , "{\"id\":-1,\"text\":{}}", "{\"id\":null}" }; post(method, l[W(20)]); it.ex = ANSWER; it.what = "http bad json"; break; }
    case 4: { size_t n = W(3) ? Wr(1, 60) : Wr(200000, 400000); std::string j; bool obj = W(2); std::string unit = obj ? "{\"a\":" : "["; for (size_t i = 0; i < n; i++) j += unit; post(method, j); it.ex = ANSWER; it.what = n > 1000 ? "http deep json" : "http nested json"; break; }
    case 5: { static const char* l[] = { "%", "%1", "%zz", "%00", "+", "%7B%22id%22%3A5", "=", "&", "&&=&", "?", "#", "a=b&c", "%25%25%", "{\"id\":%22x}", "request=", "request" }; s = std::string("GET ") + method + "?" + (W(2) ? "request=" : "") + l[W(16)] + " HTTP/1.1\r\n\r\n"; it.ex = ANSWER; it.what = "http bad query"; break; }
    case 6: { static const char* l[] = { "/service?name=", "/service?name=simtest.EchoService", "/service?name=%00%ff", "/service", "/services?x", "/status?a=b#c", "/options", "/home/x/y", "//", "/home//", "/nothing", "/a.b", "/a.b.c", "/.", "/..", "/./..", "/simtest.EchoService", "/simtest.EchoService.", "/simtest..Echo", "/%2e%2e" }; s = std::string(W(2) ? "GET " : "POST ") + l[W(20)] + " HTTP/1.1\r\n\r\n"; it.ex = ANSWER; it.what = "http page"; break; }
    case 7: s = "GET /" + rnd(Wlog(1, 60000)); it.what = "http endless path"; break;
    case 8: s = std::string("GET /status HTTP/1.1\r\n"); for (int i = 0; i < (int)Wlog(1, 300); i++) { snprintf(b, sizeof b, "H%d: %d\r\n", i, i); s += b; } s += rnd(Wr(0, 300)); it.what = "http headers"; break;
    case 9: post(method, rnd(Wlog(0, 3000)), "Accept: application/protobuf\r\n"); it.ex = ANSWER; it.what = "http bad protobuf"; break;
    case 10: { simtest::Req r; r.set_id(id + MAYBE - FORBIDDEN); post(method, mutate(r.SerializeAsString()), "Accept: application/protobuf\r\n"); it.ex = ANSWER; it.what = "http mutated protobuf"; break; }
    case 11: { snprintf(b, sizeof b, "{\"id\":%lu,\"payload\":\"QUJD\",\"text\":\"hostile\",\"nums\":[1,2,3]}", (unsigned long)(id + MAYBE - FORBIDDEN)); post(method, b); s = mutate(s); it.what = "http mutated"; break; }
    case 12: { int n = Wr(2, 12); for (int i = 0; i < n; i++) { snprintf(b, sizeof b, "{\"id\":%lu}", (unsigned long)(id + MAYBE - FORBIDDEN)); std::string t; s.swap(t); post(method, b); s = t + s; } it.what = "http pipelined"; break; }
    case 13: s = std::string("POST ") + method + " HTTP/1.1\r\nContent-Length: 100\r\nContent-Length: 5\r\n\r\n" + rnd(Wr(0, 200)); it.what = "http two lengths"; break;
    case 14: s = "GET / HTTP/1.1\r\n: \r\n:  \r\nA: \r\n\r\n"; it.what = "http empty names"; break;
    case 15: s = std::string("GET ") + std::string(Wlog(1, 3000), '/') + std::string(W(2) ? "?" : "") + std::string(W(3), '#') + " \r\n\r\n"; it.what = "http slashes"; break;
    }
    return it;
}
Item bin_item(uint64_t id, bool response) {
    Item it; it.ex = ANY; it.what = "?"; it.http = false; std::string& s = it.bytes; int k = W(13);
    std::string method = W(2) ? "simtest.EchoService.Echo" : "simtest.EchoService.Work";
    switch (k) {
    case 0: { s = rnd(Wlog(1, 3000)); if (s.size() >= 4 && s.substr(0, 4) != "SOFA" && s.substr(0, 4) != "GET " && s.substr(0, 4) != "POST") it.ex = REJECT; it.what = "random bytes"; break; }
    case 1: { static const char* l[] = { "SOFB", "sofa", "AFOS", "\0\0\0\0", "PUT ", "HEAD", "\x16\x03\x01\x02", "GETX", "POS " }; s = std::string(l[W(9)], 4) + rnd(Wr(0, 400)); it.ex = REJECT; it.what = "bad magic"; break; }
    case 2: { int64_t t; do t = odd_size(); while (t >= 0 && t <= 67108864 + 24); s = frame_hdr("SOFA", odd_size(), odd_size(), t) + rnd(Wr(1, 300)); it.ex = REJECT; it.what = "bad total size"; break; }
    case 3: { std::string d = req_data(id); int32_t m; do m = odd_size(); while (m >= 0 && m <= (int)d.size() + 100); RpcMeta mm = req_meta(id, method); std::string ms = mm.SerializeAsString(); s = frame_hdr("SOFA", m, (int64_t)(ms.size() + d.size()) - m, ms.size() + d.size()) + ms + d; it.ex = REJECT; it.what = "bad meta size"; break; }
    case 4: { std::string d = req_data(id); std::string ms = W(2) ? "\x07" + rnd(Wr(0, 60)) : W(2) ? std::string() : std::string("\x08\x00", 2); s = frame(ms, d); it.ex = REJECT; it.what = "bad meta"; break; }
    case 5: { static const char* l[] = { "", "abc", ".", "..", "a.b", "simtest.EchoService.Nope", "simtest.Nope.Echo", "simtest.EchoService.", ".Echo", "simtest.EchoService.Echo.x", "sofa.pbrpc.builtin.BuiltinService.Nope" }; std::string n = l[W(11)]; if (W(5) == 0) n = rnd(Wlog(1, 5000)); if (W(5) == 0) n = std::string(Wlog(1, 2000), '.'); s = frame(req_meta(id, n).SerializeAsString(), req_data(id)); it.ex = REJECT; it.what = "unknown method"; break; }
    case 6: { std::string d = W(2) ? "\x07" + rnd(Wr(0, 300)) : W(2) ? std::string() : std::string("\x12\x05" "abc", 5); s = frame(req_meta(id, method).SerializeAsString(), d); it.ex = REJECT; it.what = "bad body"; break; }
    case 7: case 8: {    // compressed bodies
        int type = Wr(1, 4); RpcMeta m = req_meta(id, method); m.set_compress_type((sofa::pbrpc::CompressType)type); std::string good = compress(req_data(id + MAYBE - FORBIDDEN, Wlog(1, 200000)), type), d; it.ex = ANSWER; it.what = "bad compression";
        switch (W(7)) {
        case 0: d = rnd(Wlog(1, 3000)); break;
        case 1: d = mutate(good); break;
        case 2: d = good.substr(0, W(good.size())); break;
        case 3: { static const uint64_t v[] = { 0x7fffffff, 0xffffffff, 1u << 30, 300 << 20, 65537, 0 }; std::string blk = varint(v[W(6)]) + rnd(Wr(0, 100)); d = varint(blk.size()) + blk; break; }
        case 4: { static const uint64_t v[] = { 0x7fffffff, 0xffffffff, 131072, 131073, 0, 65536 }; d = varint(v[W(6)]) + rnd(Wlog(1, 140000)); break; }
        case 5: d = compress(std::string(Wlog(1, 8 << 20), W(2) ? 0 : 'x'), type); break;
        case 6: d = good + good; break;
        }
        s = frame(m.SerializeAsString(), d); break; }
    case 9: case 10: s = mutate(frame(req_meta(id, method).SerializeAsString(), req_data(id + MAYBE - FORBIDDEN))); it.what = "mutated"; break;
    case 11: { RpcMeta m = req_meta(id, method); std::string ms = m.SerializeAsString(); ms += std::string("\xe0\x12", 2) + varint(Wr(5, 200)); s = frame(ms, req_data(id + MAYBE - FORBIDDEN)); it.ex = ANSWER; it.what = "unknown compression type"; break; }
    case 12: { s = frame_hdr("SOFA", 0, 0, 0); if (W(2)) s += s; it.ex = REJECT; it.what = "empty message"; break; }
    }
    (void)response; return it;
}
bool error_answer(const std::string& in, bool* any) {
    *any = false;
    if (in.compare(0, 5, "HTTP/") == 0) { *any = in.find("\r\n\r\n") != std::string::npos; return in.find("ERROR") != std::string::npos; }
    if (in.size() < 24 || in.compare(0, 4, "SOFA")) return false;
    int32_t ml; int64_t dl; memcpy(&ml, &in[4], 4); memcpy(&dl, &in[8], 8); if (in.size() < (size_t)(24 + ml + dl)) return false;
    RpcMeta m; if (!m.ParsePartialFromString(in.substr(24, ml))) return false; *any = true; return m.failed();
}
void hostile_session(int server, std::vector<int>* left_open, bool lax = false) {
    uint64_t id = FORBIDDEN + (w->next_id++ & 0xfffff) * 4096;
    Item it = W(5) < 2 ? http_item(id) : bin_item(id, false);
    bool leading = W(4) == 0; std::string all;      // a valid request before it on the same connection
    if (leading) { all = frame(req_meta(1, "simtest.EchoService.Echo").SerializeAsString(), req_data(id + MAYBE - FORBIDDEN)); if (it.ex != ANY) it.ex = ANY; }
    all += it.bytes; if (lax) it.ex = ANY;
    if (it.ex == ANY && W(4) == 0) all.resize(W(all.size()) + 1);
    int fd = raw_connect(server, 8000); if (fd < 0 && lax) return; if (fd < 0) fail("connect", "the server does not accept a connection");
    note("hostile %s: %zu bytes, expect %d", it.what, all.size(), it.ex); count_fault(F_HOSTILE_BYTES); hash_mix(all.size());
    // in pieces
    int pieces = W(3) == 0 ? 1 : Wr(1, 6); size_t off = 0; bool sent = true;
    for (int i = 0; i < pieces && off < all.size(); i++) {
        size_t n = i == pieces - 1 ? all.size() - off : W(2) ? Wlog(1, 40) : W(all.size() - off) + 1; n = std::min(n, all.size() - off);
        if (!raw_send(fd, &all[off], n, 30 * SEC)) { sent = false; break; } off += n;
        if (W(2)) sleep_ns(Wlog(0, 50 * MS));
    }
    std::string in; char buf[8192]; bool closed = !sent, any = false;
    if (it.ex == ANY) {
        ns_t end = now() + Wlog(0, 500 * MS); while (now() < end && !closed) { int r = raw_recv(fd, buf, sizeof buf, std::max<ns_t>(1, end - now())); if (r > 0) in.append(buf, std::min<size_t>(r, 4096)); else if (r != -2) closed = true; }
    } else {
        ns_t st0 = stalled_total(), t0 = now(); bool ok = closed; if (W(4) == 0) raw_shutdown_wr(fd);
        while (!ok) {
            if (now() > t0 + 10 * SEC + (stalled_total() - st0)) fail("hostile-not-rejected", "10 s after sending %s (%zu bytes) the peer has neither been disconnected nor got %s", it.what, all.size(), it.ex == REJECT ? "an error response" : "a response");
            int r = raw_recv(fd, buf, sizeof buf, 200 * MS); if (r > 0) in.append(buf, r); else if (r != -2) { closed = true; ok = true; }
            bool err = error_answer(in, &any); if (it.ex == REJECT && any && !err) fail("hostile-accepted", "%s got a response that reports success", it.what); if (any) ok = true;
        }
        probe(it.ex == REJECT ? "rejected" : "answered");
    }
    switch (W(4)) { case 0: raw_close(fd); break; case 1: raw_reset(fd); break; case 2: raw_shutdown_wr(fd); sleep_ns(Wlog(0, SEC)); raw_close(fd); break; case 3: if (closed) raw_close(fd); else left_open->push_back(fd); break; }
}
}
namespace sc {
void hostile_visit(int node, std::vector<int>* left_open) { hostile_session(node, left_open, true); }
void hostile_world() { w->allow_unknown = true; w->forbidden_from = FORBIDDEN; w->forbidden_to = FORBIDDEN + (1ULL << 32); w->next_id = 0x1000000 + W(100000); }
}
SCENARIO(c06_hostile, "peers send malformed binary, compressed and HTTP input to a server that also serves well-behaved clients") {
    world_init(); w->allow_unknown = true; w->forbidden_from = FORBIDDEN; w->forbidden_to = FORBIDDEN + (1ULL << 32); w->next_id = 0x1000000 + W(100000);
    random_latency(); if (W(2)) net.short_read = Wr(20, 600); if (W(2)) net.short_write = Wr(20, 600); if (W(2)) net.segment = Wr(20, 600);
    RpcServerOptions o = small_server(); o.read_buffer_base_block_factor = Wr(0, 9); o.write_buffer_base_block_factor = Wr(0, 9); if (W(4) == 0) o.keep_alive_time = Wr(5, 8);
    Server s(11, 8000, o); if (!s.start()) fail("start", "Start() failed");
    set_node(1); RpcClient* cl = new RpcClient(small_client()); RpcChannel* ch = new RpcChannel(cl, s.addr(), RpcChannelOptions());
    CallCfg k; k.max_size = k.max_resp = W(2) ? 2000 : 20000; k.default_tmo_pct = 0; k.tmo_lo = 100000; k.tmo_hi = 200000; k.slow_pct = 0;
    bool stop = false; int good = spawn(1, "good", [&] { while (!stop) { issue(make_call(k), ch); sleep_ns(Wlog(0, 200 * MS)); } });
    std::vector<int> f, open[3]; int peers = Wr(1, 3);
    for (int p = 0; p < peers; p++) { int n = Wr(1, 10); f.push_back(spawn(2 + p, "hostile", [n, p, &open] { for (int i = 0; i < n; i++) { hostile_session(11, &open[p]); if (W(2)) sleep_ns(Wlog(0, 100 * MS)); } })); }
    for (int x : f) join(x);
    stop = true; join(good); finish_calls(5 * SEC); expect_all_ok(); probe("work");
    sleep_ns(Wlog(0, 2 * SEC));
    for (int i = 0; i < 3; i++) { Call* c = make_call(k); issue(c, ch); } finish_calls(5 * SEC); expect_all_ok();
    { NodeScope ns(3); RpcClient c2; RpcChannel ch2(&c2, s.addr(), RpcChannelOptions()); CallCfg kk = k; kk.async_pct = 0; kk.bad_pct = 0; issue(make_call(kk), &ch2); } expect_all_ok();
    wait_until([] { return w->deferred_pending == 0; }, 20 * SEC);
    delete ch; delete cl; s.destroy();
    for (int p = 0; p < 3; p++) for (int fd : open[p]) { set_node(2 + p); char b[4096]; int r; while ((r = raw_recv(fd, b, sizeof b, 5 * SEC)) > 0) {} if (r == -2) fail("connection-survives", "a connection is still open after the server was destroyed"); raw_close(fd); }
    teardown_check({ 1, 11 });
}

// ---------------------------------------------------------------- C07
namespace {
struct Scripted { int node, port, lfd; bool stop, mutants; int sessions; Scripted() : node(0), port(0), lfd(-1), stop(false), mutants(false), sessions(0) {} };
std::string good_resp(Call* c, uint64_t seq, int node, int comp = 0) {
    simtest::Resp r; r.set_id(c->id); r.set_node(node); r.set_text(c->req_text); r.set_payload(gen(c->id, c->resp_size, 1)); int64_t sum = 0; for (int i = 0; i < (int)(c->id % 5); i++) sum += c->id * 3 + i; r.set_sum(sum);
    RpcMeta m; m.set_type(RpcMeta::RESPONSE); m.set_sequence_id(seq); m.set_failed(false); if (comp || W(2)) m.set_compress_type((sofa::pbrpc::CompressType)comp);
    return frame(m.SerializeAsString(), compress(r.SerializeAsString(), comp));
}
// one hostile answer; sets *brk when the stream is unusable afterwards
std::string hostile_resp(Scripted* sv, Call* c, uint64_t seq, bool* brk) {
    simtest::Resp r; r.set_id(c->id + 77777); r.set_payload(rnd(Wlog(0, 2000))); std::string d = r.SerializeAsString(); RpcMeta m; m.set_type(RpcMeta::RESPONSE); m.set_sequence_id(seq); m.set_failed(false);
    switch (W(sv->mutants ? 20 : 15)) {
    case 0: *brk = true; return rnd(Wlog(1, 3000));
    case 1: { *brk = true; int32_t ms = odd_size(); int64_t ds = odd_size(); if (W(2)) return frame_hdr("SOFA", ms, ds, (int64_t)((uint64_t)ds + ms)) + rnd(Wr(0, 300)); return frame_hdr("SOFA", ms, ds, odd_size()) + rnd(Wr(0, 300)); }
    case 2: { *brk = true; int32_t ms = -(int32_t)Wr(1, 300); int64_t t = W(2) ? (int64_t)Wr(0, 200) : -(int64_t)Wr(1, 300); return frame_hdr("SOFA", ms, t - ms, t) + rnd(Wr(0, 600)); }
    case 3: { std::string ms = m.SerializeAsString(); int32_t l = ms.size() + Wr(1, 100); int64_t t = ms.size() + d.size(); *brk = false; return frame_hdr("SOFA", l, t - l, t) + ms + d; }   // meta longer than it is
    case 4: return frame("\x07" + rnd(Wr(0, 50)), d);
    case 5: m.set_sequence_id(W(2) ? seq + 1000000 : hash64(seq)); return frame(m.SerializeAsString(), d);
    case 6: m.set_type(RpcMeta::REQUEST); if (W(2)) m.set_method("simtest.EchoService.Echo"); if (W(3) == 0) d = ""; return frame(m.SerializeAsString(), d);
    case 7: m.clear_failed(); c->expect_fail_ok = true; return frame(m.SerializeAsString(), d);
    case 8: m.set_failed(true); if (W(2)) m.set_error_code(W(2) ? 0 : -1 - (int)W(5000)); if (W(2)) m.set_reason(W(2) ? "" : std::string(Wlog(1, 5000), 'r')); return frame(m.SerializeAsString(), W(2) ? d : "");
    case 9: return frame(m.SerializeAsString(), "\x07" + rnd(Wr(0, 300)));
    case 10: case 11: { int t = Wr(1, 4); m.set_compress_type((sofa::pbrpc::CompressType)t); std::string blk; switch (W(5)) {
        case 0: blk = "\x07" + rnd(Wlog(0, 3000)); break;
        case 1: blk = varint(70) + varint(0xffffffffu) + rnd(65); break;
        case 2: blk = compress("\x07" + rnd(Wlog(0, 3000)), t); break;
        case 3: blk = varint(131072) + rnd(200); break;
        case 4: blk = compress(std::string(Wlog(1, 4 << 20), 0), t); break; }
        return frame(m.SerializeAsString(), blk); }
    case 12: { std::string ms = m.SerializeAsString() + std::string("\xe0\x12", 2) + varint(Wr(5, 200)); return frame(ms, "\x07zz"); }
    case 13: return frame_hdr("SOFA", 0, 0, 0);
    case 14: *brk = true; return "HTTP/1.1 400 Bad Request\r\nContent-Length: 0\r\n\r\n";
    default: *brk = true; return mutate(good_resp(c, seq, sv->node, Wr(0, 4)));
    }
}
void scripted_conn(Scripted* sv, int fd) {
    std::string in; char buf[4096]; bool dead = false; int budget = Wr(1, 12);
    auto put = [&](const std::string& s) { int pieces = W(2) ? 1 : Wr(1, 5); size_t off = 0; for (int i = 0; i < pieces && off < s.size(); i++) { size_t n = i == pieces - 1 ? s.size() - off : W(s.size() - off) + 1; if (!raw_send(fd, &s[off], n, 20 * SEC)) { dead = true; return; } off += n; if (W(3) == 0) sleep_ns(Wlog(0, 50 * MS)); } };
    if (W(12) == 0) { bool b = false; Call tmp; put(hostile_resp(sv, &tmp, 1, &b)); }   // before any request
    while (!dead && !sv->stop && budget) {
        int r = raw_recv(fd, buf, sizeof buf, 100 * MS); if (r == -2) continue; if (r <= 0) break; in.append(buf, r);
        while (!dead && budget && in.size() >= 24) {
            int32_t ml; int64_t dl; memcpy(&ml, &in[4], 4); memcpy(&dl, &in[8], 8); if (in.size() < (size_t)(24 + ml + dl)) break;
            RpcMeta m; simtest::Req q; std::string data = in.substr(24 + ml, dl); bool ok = m.ParseFromString(in.substr(24, ml)); in.erase(0, 24 + ml + dl);
            if (!ok) fail("client-sent-garbage", "the client sent an unreadable request");
            if (m.compress_type()) { gp::io::ArrayInputStream ai(data.data(), data.size()); sofa::pbrpc::AbstractCompressedInputStream* is = sofa::pbrpc::get_compressed_input_stream(&ai, m.compress_type()); q.ParseFromZeroCopyStream(is); delete is; } else q.ParseFromString(data);
            auto i = w->calls.find(q.id()); if (i == w->calls.end()) fail("client-sent-garbage", "the client sent a request that nobody issued"); Call* c = i->second;
            if (W(3) == 0) sleep_ns(Wlog(0, 100 * MS));
            budget--; count_fault(F_HOSTILE_BYTES); bool brk = false;
            switch (W(6)) {
            case 0: case 1: if (c->done == 0 || !c->execs.empty()) { if (c->execs.empty()) { Exec e = { sv->node, now(), event_seq() }; c->execs.push_back(e); } put(good_resp(c, m.sequence_id(), sv->node, Wr(0, 4))); probe("good_answer"); if (W(4) == 0) put(good_resp(c, m.sequence_id(), sv->node, 0)); } break;
            case 2: break;    // never
            default: put(hostile_resp(sv, c, m.sequence_id(), &brk)); probe("hostile_answer"); if (brk && W(2)) { std::string g = rnd(Wr(0, 200)); put(g); } if (brk) budget = std::min(budget, (int)W(3));
            }
        }
    }
    if (sv->stop || W(3)) { if (W(2)) raw_close(fd); else raw_reset(fd); } else { raw_shutdown_wr(fd); while (!sv->stop) { int r = raw_recv(fd, buf, sizeof buf, 100 * MS); if (r == 0 || r == -1) break; } raw_close(fd); }
}
}
SCENARIO(c07_hostile, "a server answers with malformed bytes; the client survives, its calls complete once, other servers are not affected") {
    world_init(); random_latency(); if (W(2)) net.short_read = Wr(20, 600); if (W(2)) net.segment = Wr(20, 600);
    Server s(11); if (!s.start()) fail("start", "Start() failed");
    Scripted sv; sv.node = 12; sv.port = 8000; sv.mutants = W(2);
    std::vector<int> conns;
    int acc = spawn(12, "hostile-server", [&] { sv.lfd = raw_listen(8000); while (!sv.stop) { int fd = raw_accept(sv.lfd, 100 * MS); if (fd < 0) continue; if (W(8) == 0) { raw_reset(fd); continue; } conns.push_back(spawn(12, "hostile-conn", [&sv, fd] { scripted_conn(&sv, fd); })); } raw_close(sv.lfd); });
    set_node(1); RpcClient* cl = new RpcClient(small_client()); RpcChannel* good = new RpcChannel(cl, s.addr(), RpcChannelOptions()); RpcChannel* bad = new RpcChannel(cl, addr_of(12), RpcChannelOptions());
    sleep_ns(10 * MS);
    CallCfg kg; kg.default_tmo_pct = 0; kg.tmo_lo = 100000; kg.tmo_hi = 200000; kg.max_size = kg.max_resp = 5000; kg.slow_pct = 0;
    CallCfg kb = kg; kb.tmo_lo = 200; kb.tmo_hi = 3000; kb.bad_pct = 0; kb.fail_pct = kb.defer_pct = 0; kb.async_pct = 80;
    std::vector<int> f; bool stop = false; std::vector<Call*> goods;
    int g = spawn(1, "good", [&] { while (!stop) { Call* c = make_call(kg); goods.push_back(c); issue(c, good); sleep_ns(Wlog(0, 200 * MS)); } });
    int callers = Wr(1, 3); for (int i = 0; i < callers; i++) { int n = Wr(2, 12); f.push_back(spawn(1, "caller", [&, n] { for (int i = 0; i < n; i++) { Call* c = make_call(kb); c->any_result = sv.mutants; issue(c, bad); if (W(2)) sleep_ns(Wlog(0, 200 * MS)); } })); }
    for (int x : f) join(x);
    stop = true; join(g); finish_calls(3 * SEC); probe("work");
    for (Call* c : goods) { int want = c->method == 5 ? (int)sofa::pbrpc::RPC_ERROR_FOUND_METHOD : c->mode == 2 ? (int)sofa::pbrpc::RPC_ERROR_FROM_USER : 0; if (c->code != want) fail("other-server-affected", "a call to a good server ended with %s: %s", code_name(c->code), c->text.c_str()); }
    wait_until([] { return w->deferred_pending == 0; }, 20 * SEC);
    delete good; delete bad; bounded("~RpcClient", 60 * SEC, [cl] { delete cl; }); s.destroy();
    sv.stop = true; join(acc); for (int x : conns) join(x);
    teardown_check({ 1, 11 });
}

// ---------------------------------------------------------------- another implementation of the server
namespace {
std::string refusal(Call* c, uint64_t seq) { RpcMeta m; m.set_type(RpcMeta::RESPONSE); m.set_sequence_id(seq); m.set_failed(true); m.set_error_code(sofa::pbrpc::RPC_ERROR_FROM_USER); m.set_reason(fail_reason(c->id)); if (W(4) == 0) m.set_compress_type((sofa::pbrpc::CompressType)Wr(0, 4)); return frame(m.SerializeAsString(), ""); }
// answers every request, in any order, with any compression, whatever the client wished for; says things nobody asked for in between
void foreign_conn(Scripted* sv, int fd) {
    std::string in; char buf[4096]; std::vector<std::string> ready; bool dead = false;
    while (!dead && !sv->stop) {
        int r = raw_recv(fd, buf, sizeof buf, ready.empty() ? 100 * MS : Wlog(1, 20 * MS)); if (r > 0) in.append(buf, r); else if (r != -2) break;
        while (in.size() >= 24) {
            int32_t ml; int64_t dl; memcpy(&ml, &in[4], 4); memcpy(&dl, &in[8], 8); if (in.size() < (size_t)(24 + ml + dl)) break;
            RpcMeta m; simtest::Req q; std::string data = in.substr(24 + ml, dl); bool ok = m.ParseFromString(in.substr(24, ml)); in.erase(0, 24 + ml + dl); if (!ok) fail("client-sent-garbage", "the client sent an unreadable request");
            if (m.compress_type()) { gp::io::ArrayInputStream ai(data.data(), data.size()); sofa::pbrpc::AbstractCompressedInputStream* is = sofa::pbrpc::get_compressed_input_stream(&ai, m.compress_type()); ok = q.ParseFromZeroCopyStream(is); delete is; } else ok = q.ParseFromString(data);
            auto i = w->calls.find(q.id()); if (!ok || i == w->calls.end()) fail("client-sent-garbage", "the client sent a request that nobody issued"); Call* c = i->second; if (q.payload() != c->req->payload()) fail("wrong-request", "call %lu arrives changed", (unsigned long)c->id);
            Exec e = { sv->node, now(), event_seq() }; c->execs.push_back(e); ready.push_back(c->mode == 2 ? refusal(c, m.sequence_id()) : good_resp(c, m.sequence_id(), sv->node, Wr(0, 4))); probe("good_answer");
            if (W(6) == 0) { Call* o = c; ready.push_back(good_resp(o, m.sequence_id() + 1000000, sv->node, Wr(0, 4))); probe("unasked"); }   // for a request that never was
        }
        if (r == -2 || W(2)) while (!ready.empty() && W(5)) {
            size_t k = W(ready.size()); std::string b = ready[k]; ready.erase(ready.begin() + k); while (!ready.empty() && W(3) == 0) { b += ready.back(); ready.pop_back(); }
            int pieces = W(2) ? 1 : Wr(1, 5); size_t off = 0; for (int i = 0; i < pieces && off < b.size(); i++) { size_t n = i == pieces - 1 ? b.size() - off : W(b.size() - off) + 1; if (!raw_send(fd, &b[off], n, 60 * SEC)) { dead = true; break; } off += n; if (W(3) == 0) sleep_ns(Wlog(0, 20 * MS)); } if (dead) break;
        }
    }
    raw_close(fd);
}
}
SCENARIO(c02_foreign, "a server of another make answers in any order, with any compression and any partition into segments; every call gets its own answer") {
    world_init(); EnvCfg e; e.conn = false; random_env(e);
    Scripted sv; sv.node = 12; sv.port = 8000; std::vector<int> conns;
    int acc = spawn(12, "foreign-server", [&] { sv.lfd = raw_listen(8000); while (!sv.stop) { int fd = raw_accept(sv.lfd, 100 * MS); if (fd < 0) continue; conns.push_back(spawn(12, "foreign-conn", [&sv, fd] { foreign_conn(&sv, fd); })); } raw_close(sv.lfd); });
    set_node(1); RpcClientOptions o = small_client(); RpcClient* cl = new RpcClient(o); RpcChannel* ch = new RpcChannel(cl, addr_of(12), RpcChannelOptions()); sleep_ns(10 * MS);
    CallCfg k; k.default_tmo_pct = 0; k.tmo_lo = k.tmo_hi = 600000; k.bad_pct = 0; k.slow_pct = k.defer_pct = 0; k.fail_pct = 15; k.compress = 60; k.async_pct = 70; k.max_size = k.max_resp = W(3) ? 5000 : 60000; if (net.sndbuf_min) { net.sndbuf_min = 8192; net.sndbuf_max = 65536; }
    std::vector<int> f; int callers = Wr(1, 4); for (int i = 0; i < callers; i++) { int n = Wr(1, 15); f.push_back(spawn(1, "caller", [&, n] { for (int i = 0; i < n; i++) { issue(make_call(k), ch); if (W(2)) sleep_ns(Wlog(0, 50 * MS)); } })); }
    for (int x : f) join(x); finish_calls(3 * SEC); expect_all_ok(); probe("work"); faults_off();
    delete ch; bounded("~RpcClient", 60 * SEC, [cl] { delete cl; }); set_node(0); sv.stop = true; join(acc); for (int x : conns) join(x); teardown_check({ 1 });
}
