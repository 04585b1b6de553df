#include "demo_util.h"
// a page that is always there is asked for, while other pages come and go
struct Pages { bool run(const HTTPRequest&, HTTPResponse& r) { r.content->Append(std::string("here")); return true; } };
int main() {
    SOFA_PBRPC_SET_LOG_LEVEL(FATAL); RpcServerOptions o; o.work_thread_num = 4; RpcServer s(o); s.RegisterService(new EchoImpl, true); Pages pg; int port = free_port();
    Servlet always = sofa::pbrpc::NewPermanentExtClosure(&pg, &Pages::run); EXPECT(s.RegisterWebServlet("/p05", always, false), "register"); EXPECT(s.Start(addr(port)), "start");
    std::atomic<bool> stop(false); std::atomic<long> n(0); std::vector<std::thread> ts; double end = now_s() + 60;
    for (int k = 0; k < 6; k++) ts.push_back(std::thread([&] { int fd = connect_to(port); std::string q, in; for (int i = 0; i < 50; i++) q += "GET /p05/a/b/c/d/e/f/g HTTP/1.1\r\n\r\n";
        while (!stop) { EXPECT(send_all(fd, q), "the connection ends"); int got = 0; while (got < 50) { size_t e = in.find("\r\n\r\n"); if (e != std::string::npos) { size_t l = in.find("Content-Length: "); EXPECT(l != std::string::npos && l < e, "no length"); size_t len = atol(in.c_str() + l + 16); if (in.size() >= e + 4 + len) { EXPECT(in.compare(e + 4, len, "here") == 0, "a registered page is answered by: %s", in.substr(e + 4, len).c_str()); in.erase(0, e + 4 + len); got++; n++; continue; } } int r = recv_some(fd, &in, 20000); EXPECT(r > 0, "the connection ends or is not answered"); } } }));
    ts.push_back(std::thread([&] { std::vector<Servlet> v; for (int i = 0; i < 10; i++) v.push_back(sofa::pbrpc::NewPermanentExtClosure(&pg, &Pages::run)); unsigned x = 1;
        std::vector<bool> in(10, false); while (!stop) { x = x * 1103515245 + 12345; int i = (x >> 16) % 10; if (i == 5) continue; std::string p = "/p0" + std::to_string(i); if (in[i]) EXPECT(s.UnregisterWebServlet(p) == v[i], "unregister"); else EXPECT(s.RegisterWebServlet(p, v[i], false), "register again"); in[i] = !in[i]; } }));
    while (now_s() < end) ms(50);
    stop = true; printf("%ld pages\n", n.load()); _exit(0);
}
