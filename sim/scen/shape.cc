// C02: messages of every shape, in particular empty ones, with every compression type; and the built-in services
#include "common.h"
#include <sofa/pbrpc/builtin_service.pb.h>
using namespace sc;
namespace {
class ShapeImpl : public simtest::ShapeService { public:
    std::multiset<std::string> seen; // serialized requests
    void Mirror(gp::RpcController* c, const simtest::Shape* q, simtest::Shape* p, gp::Closure* d) { seen.insert(q->SerializeAsString()); p->CopyFrom(*q); d->Run(); } };
void fill(simtest::Shape* m, int depth, uint32_t most) {
    switch (W(6)) { case 0: return; case 1: m->set_data(""); return; case 2: m->set_data(gen(W(1 << 20), Wlog(0, most), W(3))); return; default: break; }
    if (W(2)) m->set_number(W(2) ? 0 : hash64(W(1 << 20))); if (W(2)) m->set_text(std::string(Wlog(0, 300), 'x')); int n = Wlog(0, 300) - 1; for (int i = 0; i < n; i++) m->add_packed((int32_t)hash64(i * n)); if (W(2)) m->set_data(gen(W(1 << 20), Wlog(0, most), 1));
    if (depth > 0) { int k = Wr(0, 3); for (int i = 0; i < k; i++) fill(m->add_inner(), depth - 1, most / 4); }
}
}
namespace {
void shapes(bool oom) {
    world_init(); RpcServerOptions o = small_server(); o.read_buffer_base_block_factor = Wr(0, 9); o.write_buffer_base_block_factor = Wr(0, 9); Server s(11, 8000, o); ShapeImpl* im = new ShapeImpl; s.s->RegisterService(im); s.start();
    EnvCfg e; e.conn = false; random_env(e); uint32_t most = W(3) == 0 ? 200000 : 3000; if (net.sndbuf_min && most > 60000) { net.sndbuf_min = 8192; net.sndbuf_max = 65536; }
    bool stop = false; int adv = -1; if (oom) { if (W(3)) sys.oom = W(2) ? Wr(10, 300) : Wr(300, 3000); else adv = spawn(0, "memory", [&] { while (!stop) { sleep_ns(Wlog(100 * US, 20 * MS)); force_oom(W(2) ? 1 : 11, Wlog(1, 5)); } force_oom(1, 0); force_oom(11, 0); }); }
    set_node(1); RpcClient* cl = new RpcClient(small_client()); RpcChannel* ch = new RpcChannel(cl, s.addr(), RpcChannelOptions()); std::multiset<std::string> sent; std::vector<int> fs; int nc = Wr(1, 4);
    for (int i = 0; i < nc; i++) fs.push_back(spawn(1, "caller", [&] { int n = Wr(1, 10); for (int j = 0; j < n; j++) {
        RpcController cn; cn.SetTimeout(600000); 
        if (!oom && W(4) == 0) {
            namespace b = sofa::pbrpc::builtin; b::BuiltinService_Stub st(ch); int m = W(4);
            if (m == 0) { b::HealthRequest q; b::HealthResponse p; st.Health(&cn, &q, &p, NULL); if (!cn.Failed() && p.health() != "OK") fail("wrong-response", "health is \"%s\"", p.health().c_str()); }
            if (m == 1) { b::ServerOptionsRequest q; b::ServerOptionsResponse p; st.ServerOptions(&cn, &q, &p, NULL); if (!cn.Failed() && p.options().work_thread_num() != o.work_thread_num) fail("wrong-response", "wrong options reported"); }
            if (m == 2) { b::ServerStatusRequest q; b::ServerStatusResponse p; st.ServerStatus(&cn, &q, &p, NULL); if (!cn.Failed() && (!p.is_listening() || p.connection_count() != 1)) fail("wrong-response", "wrong status reported: %s", p.ShortDebugString().c_str()); }
            if (m == 3) { b::ListServiceRequest q; b::ListServiceResponse p; st.ListService(&cn, &q, &p, NULL); if (!cn.Failed() && p.services_size() != s.s->ServiceCount()) fail("wrong-response", "%d services are listed, %d are registered", p.services_size(), s.s->ServiceCount()); }
            if (cn.Failed()) fail("spurious-failure", "a call of a built-in service (%d) failed: %s", m, cn.ErrorText().c_str()); probe("builtin");
        } else {
            simtest::Shape q, p; if (W(6) == 0) { uint32_t k = W(4) ? 1 : Wr(1, 3); q.set_data(gen(W(1 << 20), 65536 * k - 9 + W(12), W(3))); probe("boundary"); } else fill(&q, 2, most); /* around the block size of the compressors */ if (W(2)) cn.SetRequestCompressType((sofa::pbrpc::CompressType)Wr(0, 4)); if (W(2)) cn.SetResponseCompressType((sofa::pbrpc::CompressType)Wr(0, 4));
            std::string b = q.SerializeAsString(); sent.insert(b); if (b.empty()) probe("empty"); simtest::ShapeService_Stub st(ch);
            bool async = W(2); if (async) { bool done = false; st.Mirror(&cn, &q, &p, new Done([&] { done = true; })); while (!done) { sleep_ns(MS); if (now() > 700 * SEC) fail("call-hangs", "a call does not end"); } } else st.Mirror(&cn, &q, &p, NULL);
            if (cn.Failed() && oom) { probe("failed"); if (cn.ErrorCode() == sofa::pbrpc::RPC_ERROR_REQUEST_TIMEOUT) fail("call-hangs", "a call was never answered"); }
            else if (cn.Failed()) fail("spurious-failure", "a call failed: %s", cn.ErrorText().c_str());
            else if (p.SerializeAsString() != b) fail("wrong-response", "a response of %d bytes was received, %zu were sent", p.ByteSize(), b.size());
        }
        probe("work"); sleep_ns(Wlog(1, 20 * MS)); } }));
    for (int f : fs) join(f); stop = true; if (adv >= 0) join(adv);
    if (oom) { for (auto& b : im->seen) if (im->seen.count(b) > sent.count(b)) fail("wrong-request", "a handler got a request of %zu bytes that was not sent so", b.size()); }
    else if (im->seen != sent) fail("wrong-request", "the handlers got other requests than were sent");
    faults_off(); bounded("destroying the client", 60 * SEC, [&] { delete ch; delete cl; }); set_node(0); s.destroy(); std::vector<int> t(1, 1); t.push_back(11); teardown_check(t);
}
}
SCENARIO(c02_shapes, "requests and responses of every shape, empty ones too, uncompressed and compressed; built-in services") { shapes(false); }
SCENARIO(c22_shapes, "requests and responses of every shape while buffers cannot be allocated") { shapes(true); }
