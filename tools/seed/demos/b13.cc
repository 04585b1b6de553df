#include "demo_util.h"
// requests on one connection are parsed independently of each other
int main() {
    alarm(150); SOFA_PBRPC_SET_LOG_LEVEL(FATAL); RpcServer s; s.RegisterService(new EchoImpl, true); int port = free_port(); EXPECT(s.Start(addr(port)), "start");
    int fd = connect_to(port); demo::Req q; q.set_id(5); std::string b = q.SerializeAsString(), in;
    auto answer = [&](const char* what) { size_t e; while ((e = in.find("\r\n\r\n")) == std::string::npos || in.size() < e + 4 + atol(in.c_str() + in.find("Content-Length: ") + 16)) { int r = recv_some(fd, &in, 4000); EXPECT(r > 0, "%s is not answered (%d)", what, r); } std::string h = in.substr(0, e); in.erase(0, e + 4 + atol(in.c_str() + in.find("Content-Length: ") + 16)); return h; };
    for (int i = 0; i < 3; i++) {
        send_all(fd, "POST /demo.Echo.Call HTTP/1.1\r\nAccept: application/protobuf\r\nContent-Length: " + std::to_string(b.size()) + "\r\n\r\n" + b); EXPECT(answer("a POST").find(" 200 ") != std::string::npos, "POST fails");
        send_all(fd, "POST /demo.Echo.Call HTTP/1.1\r\nAccept: application/protobuf\r\n\r\n"); EXPECT(answer("a POST without a length").find(" 200 ") != std::string::npos, "POST without a length fails");
        send_all(fd, "POST /demo.Echo.Call HTTP/1.1\r\nAccept: application/protobuf\r\nContent-Length: 0\r\n\r\n"); EXPECT(answer("a POST without a body").find(" 200 ") != std::string::npos, "empty POST fails");
        send_all(fd, "GET /status HTTP/1.1\r\n\r\n"); EXPECT(answer("a GET after a POST").find(" 200 ") != std::string::npos, "GET fails");
    }
    _exit(0);
}
