// C21: HTTP requests to methods, pages and unknown paths
#include "raw.h"
#include <sofa/pbrpc/http.h>
#include <math.h>
using namespace sc;
using sofa::pbrpc::HTTPRequest; using sofa::pbrpc::HTTPResponse; using sofa::pbrpc::Servlet;
namespace {
// ---------------------------------------------------------------- encodings, written independently of the library
std::string b64(const std::string& s) {
    static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string r; size_t i = 0;
    for (; i + 2 < s.size(); i += 3) { uint32_t v = (uint8_t)s[i] << 16 | (uint8_t)s[i + 1] << 8 | (uint8_t)s[i + 2]; r += t[v >> 18]; r += t[v >> 12 & 63]; r += t[v >> 6 & 63]; r += t[v & 63]; }
    if (s.size() - i == 1) { uint32_t v = (uint8_t)s[i] << 16; r += t[v >> 18]; r += t[v >> 12 & 63]; r += "=="; }
    if (s.size() - i == 2) { uint32_t v = (uint8_t)s[i] << 16 | (uint8_t)s[i + 1] << 8; r += t[v >> 18]; r += t[v >> 12 & 63]; r += t[v >> 6 & 63]; r += '='; }
    return r;
}
std::string jstr(const std::string& s) { std::string r = "\""; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
std::string pct(const std::string& s) { std::string r; char b[4]; for (unsigned char c : s) if (isalnum(c) || c == '-' || c == '_' || c == '.' || c == '~') r += c; else { snprintf(b, sizeof b, W(2) ? "%%%02X" : "%%%02x", c); r += b; } return r; }
// a JSON value that is a string or a flat object of strings and numbers; false if it is not well-formed
struct Json {
    const std::string& s; size_t p; bool ok; std::string top; bool is_string; std::map<std::string, std::string> m;
    Json(const std::string& t) : s(t), p(0), ok(false), is_string(false) {
        ws(); if (p < s.size() && s[p] == '"') { is_string = true; if (!str(&top)) return; ws(); ok = p == s.size(); return; }
        if (p >= s.size() || s[p++] != '{') return; ws();
        if (p < s.size() && s[p] == '}') { p++; ws(); ok = p == s.size(); return; }
        for (;;) {
            std::string k, v; ws(); if (!str(&k)) return; ws(); if (p >= s.size() || s[p++] != ':') return; ws();
            if (p < s.size() && s[p] == '"') { if (!str(&v)) return; } else { while (p < s.size() && (isdigit(s[p]) || s[p] == '-')) v += s[p++]; if (v.empty()) return; }
            if (m.count(k)) return; m[k] = v; ws(); if (p >= s.size()) return; char c = s[p++]; if (c == '}') break; if (c != ',') return;
        }
        ws(); ok = p == s.size();
    }
    void ws() { while (p < s.size() && strchr(" \t\r\n", s[p]) && s[p]) p++; }
    bool str(std::string* o) {
        if (p >= s.size() || s[p++] != '"') return false;
        while (p < s.size()) {
            unsigned char c = s[p++]; if (c == '"') return true; if (c < 32) return false;
            if (c != '\\') { *o += c; continue; } if (p >= s.size()) return false; c = s[p++];
            switch (c) { case 'n': *o += '\n'; break; case 't': *o += '\t'; break; case 'r': *o += '\r'; break; case 'b': *o += '\b'; break; case 'f': *o += '\f'; break; case '"': case '\\': case '/': *o += c; break;
                case 'u': { if (p + 4 > s.size()) return false; unsigned v = 0; for (int i = 0; i < 4; i++) { char h = s[p++]; if (!isxdigit(h)) return false; v = v * 16 + (isdigit(h) ? h - '0' : (h | 32) - 'a' + 10); } if (v > 127) return false; *o += (char)v; break; }
                default: return false; }
        }
        return false;
    }
};
// ---------------------------------------------------------------- a client connection
struct Reply { std::string status, body, type; std::map<std::string, std::string> h; };
struct Http {
    int fd; std::string in; bool ended; int slow; ns_t from;
    Http() : fd(-1), ended(true), slow(0), from(0) {}
    ~Http() { drop(); }
    void drop() { if (fd >= 0) { if (W(3)) raw_close(fd); else raw_reset(fd); } fd = -1; ended = true; in.clear(); }
    bool open(int node) { drop(); fd = raw_connect(node, 8000, 10 * SEC); ended = fd < 0; slow = W(4) ? 0 : Wr(1, 3); return fd >= 0; }
    bool send(const std::string& s) {
        int pieces = W(2) ? 1 : W(4) ? Wr(2, 6) : Wr(10, 60); size_t off = 0;
        for (int i = 0; i < pieces && off < s.size(); i++) { size_t n = i == pieces - 1 ? s.size() - off : W(2) ? Wlog(1, 30) : Wlog(1, s.size()); n = std::min(n, s.size() - off); if (!raw_send(fd, &s[off], n, 60 * SEC)) return false; off += n; if (W(3) == 0) sleep_ns(Wlog(1, 20 * MS)); }
        return true;
    }
    bool more(ns_t t) {
        char b[16384]; size_t n = slow == 1 ? Wr(1, 50) : slow == 2 ? Wlog(100, 5000) : sizeof b; if (slow && W(3) == 0) sleep_ns(Wlog(MS / 10, 10 * MS));
        int r = raw_recv(fd, b, n, std::max<ns_t>(1, t)); if (r == -2) return false; if (r <= 0) { ended = true; return false; } in.append(b, r); return true;
    }
    // one response; false if the connection ended before it was complete
    bool reply(Reply* r, ns_t limit, const char* what) {
        ns_t t0 = now(), st0 = stalled_total(); size_t hdr = 0, len = 0; bool have = false;
        for (;;) {
            if (!have) {
                size_t e = in.find("\r\n\r\n");
                if (!in.empty() && in.compare(0, std::min<size_t>(in.size(), 9), "HTTP/1.1 ", std::min<size_t>(in.size(), 9))) fail("bad-http", "the answer to %s does not begin with a status line: %s", what, in.substr(0, 60).c_str());
                if (e == std::string::npos && in.size() > 4000) fail("bad-http", "the answer to %s has no end of its header", what);
                if (e != std::string::npos) {
                    hdr = e + 4; have = true; size_t p = in.find("\r\n"); r->status = in.substr(0, p); p += 2; int lens = 0;
                    while (p < e + 2) { size_t q = in.find("\r\n", p); std::string l = in.substr(p, q - p); size_t c = l.find(": "); if (c == std::string::npos || c == 0) fail("bad-http", "malformed header line \"%s\" in the answer to %s", l.c_str(), what); std::string n = l.substr(0, c), v = l.substr(c + 2); for (char& x : n) x = tolower(x); if (n == "content-length") { lens++; if (v.empty() || v.size() > 10 || v.find_first_not_of("0123456789") != std::string::npos) fail("bad-http", "Content-Length \"%s\"", v.c_str()); len = atoll(v.c_str()); } if (n == "content-type") r->type = v; r->h[n] = v; p = q + 2; }
                    if (lens != 1) fail("bad-http", "the answer to %s has %d Content-Length headers", what, lens);
                }
            }
            if (have && in.size() >= hdr + len) { r->body = in.substr(hdr, len); in.erase(0, hdr + len); return true; }
            if (ended) return false;
            size_t had = in.size(); more(200 * MS); if (in.size() > had) { t0 = now(); st0 = stalled_total(); }   // an answer may take long as long as it keeps coming
            if (now() > t0 + limit + (stalled_total() - st0) + (slow ? (ns_t)(in.size() / 20) * 10 * MS : 0) && !ended) fail("no-answer", "for %.1f s nothing has come and %s is not answered (%zu bytes came)", (now() - t0) / 1e9, what, in.size());
        }
    }
    void nothing_more(const char* what) { if (in.empty() && !ended && W(4) == 0) more(Wlog(1, 200 * MS)); if (!in.empty()) fail("extra-answer", "%zu bytes come after the answer to %s: %s", in.size(), what, in.substr(0, 60).c_str()); }
};
// ---------------------------------------------------------------- pages
struct Token { uint64_t id; bool post; std::string path, body; std::map<std::string, std::string> q, h; size_t size; int served, page; bool answered; int mode; };   // mode 1: own status and type, 2: refused by the page, 3: slow
struct Page;
struct Site {
    std::map<uint64_t, Token*> tok; std::vector<Page*> pages; uint64_t next; int server;
    Site() : next(1), server(11) {}
    ~Site() { for (auto& p : tok) delete p.second; }
};
Site* site;
struct Page : public sofa::pbrpc::ExtClosure<bool(const HTTPRequest&, HTTPResponse&)> {
    int no; bool* gone; Page(int n, bool* g) : no(n), gone(g) {}
    ~Page() { if (*gone) fail("page-deleted-twice", "page %d is deleted twice", no); *gone = true; }
    bool IsSelfDelete() const { return false; }
    static std::string get(const std::map<std::string, std::string>* m, const std::string& k) { auto i = m->find(k); return i == m->end() ? "(none)" : i->second; }
    bool Run(const HTTPRequest& q, HTTPResponse& r) {
        uint64_t id = atoll(get(q.query_params, "id").c_str()); auto it = site->tok.find(id); if (it == site->tok.end()) fail("wrong-request", "a page gets a request with id %s, which nobody sent", get(q.query_params, "id").c_str());
        Token* t = it->second; if (t->served++) fail("executed-twice", "the request %lu for a page is served twice", (unsigned long)id); t->page = no;
        if (q.path != t->path) fail("wrong-request", "the page sees the path %s instead of %s", q.path.c_str(), t->path.c_str());
        if ((q.type == HTTPRequest::POST) != t->post) fail("wrong-request", "a %s request reaches the page as %s", t->post ? "POST" : "GET", t->post ? "GET" : "POST");
        if (q.body->ToString() != t->body) fail("wrong-request", "the page sees a changed body (%lld bytes instead of %zu)", (long long)q.body->TotalCount(), t->body.size());
        for (auto& p : t->q) if (get(q.query_params, p.first) != p.second) fail("wrong-request", "the page sees %s=%s instead of %s", p.first.c_str(), get(q.query_params, p.first).c_str(), p.second.c_str());
        if (q.query_params->size() != t->q.size()) fail("wrong-request", "the page sees %zu parameters instead of %zu", q.query_params->size(), t->q.size());
        for (auto& p : t->h) if (get(q.headers, p.first) != p.second) fail("wrong-request", "the page sees the header %s: %s instead of %s", p.first.c_str(), get(q.headers, p.first).c_str(), p.second.c_str());
        if (q.server_port != 8000) fail("wrong-request", "the page sees port %d", q.server_port);
        if (t->mode == 3) sleep_ns(Wlog(MS, 100 * MS));
        if (t->mode == 2) return false;
        r.content->Append("page " + std::to_string(no) + " id " + std::to_string(id) + "\n"); std::string b = gen(id, t->size, 7); size_t off = 0; while (off < b.size()) { size_t n = W(3) ? b.size() - off : Wlog(1, b.size()); n = std::min(n, b.size() - off); r.content->Append(b.substr(off, n)); off += n; }
        if (t->mode == 1) { r.status_line = "HTTP/1.1 418 Teapot"; r.content_type = "application/x-thing"; }
        return true;
    }
};
// ---------------------------------------------------------------- messages with every kind of field, as JSON and as protobuf
typedef gp::FieldDescriptor FD;
std::string jotted(const std::string& s) {    // a string in JSON, with any of the allowed ways to write a character
    std::string r = "\""; char b[16];
    for (size_t i = 0; i < s.size();) {
        unsigned char c = s[i]; uint32_t v = c; size_t n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; if (n > 1) { v = c & (0xff >> (n + 1)); for (size_t k = 1; k < n; k++) v = v << 6 | (s[i + k] & 63); }
        if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n' && W(2)) r += "\\n"; else if (c == '\t' && W(2)) r += "\\t"; else if (c == '/' && W(2)) r += "\\/";
        else if (c < 32 || W(8) == 0) { if (v < 0x10000) snprintf(b, sizeof b, W(2) ? "\\u%04x" : "\\u%04X", v); else snprintf(b, sizeof b, "\\u%04x\\u%04x", 0xd800 + ((v - 0x10000) >> 10), 0xdc00 + ((v - 0x10000) & 1023)); r += b; }
        else r += s.substr(i, n);
        i += n;
    }
    return r + "\"";
}
const char* sp() { static const char* s[] = { "", "", "", "", " ", "\n", "\t ", "\r\n" }; return s[W(8)]; }
std::string to_json(const gp::Message& m);
std::string value(const gp::Message& m, const FD* f, int i) {    // i < 0: not repeated
    const gp::Reflection* r = m.GetReflection(); char b[64];
#define V(T) (i < 0 ? r->Get##T(m, f) : r->GetRepeated##T(m, f, i))
    switch (f->cpp_type()) {
    case FD::CPPTYPE_INT32: return std::to_string(V(Int32)); case FD::CPPTYPE_INT64: return std::to_string(V(Int64)); case FD::CPPTYPE_UINT32: return std::to_string(V(UInt32)); case FD::CPPTYPE_UINT64: return std::to_string(V(UInt64));
    case FD::CPPTYPE_BOOL: return V(Bool) ? "true" : "false"; case FD::CPPTYPE_DOUBLE: snprintf(b, sizeof b, W(2) ? "%g" : "%e", V(Double)); return b; case FD::CPPTYPE_FLOAT: snprintf(b, sizeof b, W(2) ? "%g" : "%.3f", V(Float)); return b;
    case FD::CPPTYPE_STRING: return f->type() == FD::TYPE_BYTES ? "\"" + b64(V(String)) + "\"" : jotted(V(String));
    case FD::CPPTYPE_ENUM: { const gp::EnumValueDescriptor* e = V(Enum); return W(2) ? std::to_string(e->number()) : "\"" + e->name() + "\""; }
    default: return to_json(i < 0 ? r->GetMessage(m, f) : r->GetRepeatedMessage(m, f, i)); }
#undef V
}
std::string to_json(const gp::Message& m) {
    const gp::Reflection* r = m.GetReflection(); const gp::Descriptor* d = m.GetDescriptor(); std::vector<std::string> fs;
    for (int k = 0; k < d->field_count(); k++) {
        const FD* f = d->field(k); std::string h = "\"" + f->name() + "\"" + sp() + ":" + sp();
        if (!f->is_repeated()) { if (r->HasField(m, f)) fs.push_back(h + value(m, f, -1)); continue; }
        int n = r->FieldSize(m, f); if (!n && W(8)) continue; h += "["; for (int i = 0; i < n; i++) h += (i ? "," : "") + value(m, f, i) + sp(); fs.push_back(h + "]");
    }
    for (size_t i = fs.size(); i > 1; i--) std::swap(fs[i - 1], fs[W(i)]);
    std::string j = sp(); j += "{"; for (size_t i = 0; i < fs.size(); i++) { j += i ? "," : ""; j += sp() + fs[i] + sp(); } return j + "}" + sp();
}
struct FromJson {    // reads a JSON object into a message; ok is false if the text is not well-formed or does not fit
    const std::string& s; size_t p; bool ok;
    FromJson(const std::string& t, gp::Message* m) : s(t), p(0), ok(false) { ok = object(m); ws(); ok = ok && p == s.size(); }
    void ws() { while (p < s.size() && s[p] && strchr(" \t\r\n", s[p])) p++; }
    bool eat(char c) { ws(); if (p < s.size() && s[p] == c) { p++; return true; } return false; }
    bool str(std::string* o) {
        if (!eat('"')) return false;
        while (p < s.size()) {
            unsigned char c = s[p++]; if (c == '"') return true; if (c < 32) return false; if (c != '\\') { *o += c; continue; } if (p >= s.size()) return false; c = s[p++];
            static const char e[] = "ntrbf\"\\/", q[] = "\n\t\r\b\f\"\\/"; if (const char* x = c ? strchr(e, c) : NULL) { *o += q[x - e]; continue; }
            if (c != 'u' || p + 4 > s.size()) return false; uint32_t v = strtoul(s.substr(p, 4).c_str(), NULL, 16); p += 4;
            if (v >= 0xd800 && v < 0xdc00) { if (s.compare(p, 2, "\\u")) return false; v = 0x10000 + ((v - 0xd800) << 10) + (strtoul(s.substr(p + 2, 4).c_str(), NULL, 16) - 0xdc00); p += 6; }
            if (v < 0x80) *o += v; else if (v < 0x800) { *o += 0xc0 | v >> 6; *o += 0x80 | (v & 63); } else if (v < 0x10000) { *o += 0xe0 | v >> 12; *o += 0x80 | (v >> 6 & 63); *o += 0x80 | (v & 63); } else { *o += 0xf0 | v >> 18; *o += 0x80 | (v >> 12 & 63); *o += 0x80 | (v >> 6 & 63); *o += 0x80 | (v & 63); }
        }
        return false;
    }
    bool object(gp::Message* m) {
        if (!eat('{')) return false; if (eat('}')) return true; std::set<std::string> had;
        do {
            std::string k; if (!(ws(), str(&k)) || !eat(':')) return false; const FD* f = m->GetDescriptor()->FindFieldByName(k); if (!f || !had.insert(k).second) return false;
            if (!f->is_repeated()) { if (!one(m, f)) return false; continue; }
            if (!eat('[')) return false; if (eat(']')) continue; do if (!one(m, f)) return false; while (eat(',')); if (!eat(']')) return false;
        } while (eat(','));
        return eat('}');
    }
    bool one(gp::Message* m, const FD* f) {
        const gp::Reflection* r = m->GetReflection(); bool rep = f->is_repeated(); ws();
#define S(T, v) (rep ? r->Add##T(m, f, v) : r->Set##T(m, f, v))
        if (f->cpp_type() == FD::CPPTYPE_MESSAGE) return object(rep ? r->AddMessage(m, f) : r->MutableMessage(m, f));
        if (f->cpp_type() == FD::CPPTYPE_STRING) {
            std::string v; if (!str(&v)) return false; if (f->type() != FD::TYPE_BYTES) { S(String, v); return true; }
            std::string raw; uint32_t acc = 0; int bits = 0; for (char c : v) { if (c == '=') break; static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; const char* x = c ? strchr(t, c) : NULL; if (!x) return false; acc = acc << 6 | (x - t); bits += 6; if (bits >= 8) { bits -= 8; raw += (char)(acc >> bits & 255); } } if (b64(raw) != v) return false; S(String, raw); return true;
        }
        size_t q = p; while (p < s.size() && (isalnum((uint8_t)s[p]) || strchr("+-.", s[p]))) p++; std::string v = s.substr(q, p - q); if (v.empty()) return false;
        if (f->cpp_type() == FD::CPPTYPE_BOOL) { if (v != "true" && v != "false") return false; S(Bool, v == "true"); return true; }
        char* e; if (!isdigit((uint8_t)v[0]) && v[0] != '-') return false; bool whole = v.find_first_not_of("0123456789", v[0] == '-') == std::string::npos, neg = v[0] == '-'; errno = 0;
        switch (f->cpp_type()) {
        case FD::CPPTYPE_DOUBLE: { double x = strtod(v.c_str(), &e); S(Double, x); return !*e; }
        case FD::CPPTYPE_FLOAT: { float x = strtod(v.c_str(), &e); S(Float, x); return !*e; }
        case FD::CPPTYPE_UINT32: case FD::CPPTYPE_UINT64: { uint64_t x = strtoull(v.c_str(), &e, 10); if (f->cpp_type() == FD::CPPTYPE_UINT32) S(UInt32, (uint32_t)x); else S(UInt64, x); return whole && !neg && !errno; }
        case FD::CPPTYPE_ENUM: { const gp::EnumValueDescriptor* x = f->enum_type()->FindValueByNumber(atoi(v.c_str())); if (!x) return false; S(Enum, x); return whole; }
        default: { int64_t x = strtoll(v.c_str(), &e, 10); if (f->cpp_type() == FD::CPPTYPE_INT32) S(Int32, (int32_t)x); else S(Int64, x); return whole && !errno; } }
#undef S
    }
};
uint64_t odd_int() { static const uint64_t v[] = { 0, 1, (uint64_t)-1, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 9999999999ull, 429496729 * 10ull, 922337203685477580ull * 10 }; return W(3) ? v[W(12)] : hash64(W(1 << 20)) >> W(64); }
std::string odd_text();
void jot_value(gp::Message* m, const FD* f, int depth, uint32_t most);
void jot_fill(gp::Message* m, int depth, uint32_t most) {
    int many = W(5); if (!many) return; const gp::Descriptor* d = m->GetDescriptor();
    for (int k = 0; k < d->field_count(); k++) { const FD* f = d->field(k); if ((int)W(5) >= many) continue; if (f->cpp_type() == FD::CPPTYPE_MESSAGE && !depth) continue; int n = f->is_repeated() ? f->cpp_type() == FD::CPPTYPE_MESSAGE ? Wr(0, 2) : Wlog(0, 40) : 1; for (int i = 0; i < n; i++) jot_value(m, f, depth, most); }
}
void jot_value(gp::Message* m, const FD* f, int depth, uint32_t most) {
    const gp::Reflection* r = m->GetReflection(); bool rep = f->is_repeated();
#define S(T, v) (rep ? r->Add##T(m, f, v) : r->Set##T(m, f, v))
    switch (f->cpp_type()) {
    case FD::CPPTYPE_INT32: S(Int32, (int32_t)odd_int()); break; case FD::CPPTYPE_INT64: S(Int64, (int64_t)odd_int()); break; case FD::CPPTYPE_UINT32: S(UInt32, (uint32_t)odd_int()); break; case FD::CPPTYPE_UINT64: S(UInt64, odd_int()); break;
    case FD::CPPTYPE_BOOL: S(Bool, W(2)); break; case FD::CPPTYPE_DOUBLE: S(Double, ((int)W(8000) - 4000) / 4.0 + 0.0); break; case FD::CPPTYPE_FLOAT: S(Float, ((int)W(4000) - 2000) / 4.0f + 0.0f); break;
    case FD::CPPTYPE_STRING: { std::string v; if (f->type() == FD::TYPE_BYTES) v = gen(W(1 << 20), Wlog(0, most), W(3)); else { int n = W(4); for (int i = 0; i < n; i++) v += W(6) ? odd_text() : std::string("\xf0\x9f\x98\x80/\0x", 7); if (W(8) == 0) v += std::string(Wlog(0, most), 'y'); } S(String, v); break; }
    case FD::CPPTYPE_ENUM: S(Enum, f->enum_type()->value(W(f->enum_type()->value_count()))); break;
    default: jot_fill(rep ? r->AddMessage(m, f) : r->MutableMessage(m, f), depth - 1, most / 3); }
#undef S
}
void round_off(simtest::Jot* m) {    // numbers in JSON keep six digits
    if (m->has_f()) m->set_f(round(m->f() * 4) / 4); for (int i = 0; i < m->rf_size(); i++) m->set_rf(i, round(m->rf(i) * 4) / 4); if (m->has_g()) m->set_g(round(m->g() * 4) / 4); for (int i = 0; i < m->rg_size(); i++) m->set_rg(i, round(m->rg(i) * 4) / 4);
    if (m->has_k()) round_off(m->mutable_k()); for (int i = 0; i < m->rk_size(); i++) round_off(m->mutable_rk(i));
}
std::multiset<std::string>* jots;    // requests the handler got
class JotImpl : public simtest::JotService { public: void Copy(gp::RpcController*, const simtest::Jot* q, simtest::Jot* p, gp::Closure* d) { p->CopyFrom(*q); simtest::Jot r(*q); round_off(&r); jots->insert(r.SerializeAsString()); d->Run(); } };
struct Req { int kind; std::string jot; Call* c; Token* t; std::string bytes, what; bool pipe; int slot; uint64_t epoch; };    // 0 json post 1 json get 2 protobuf post 3 page 4 unknown 5 built-in 6 page that comes and goes 7 unusable arguments 8 binary 9 10 11 a message with any fields, as protobuf, JSON and JSON in a GET
// pages that come and go
struct Dyn { std::string path; uint64_t changes; bool changing; Page* now_; std::set<int> ever; };
std::vector<Dyn>* dyn;
std::vector<bool*>* gone;
Page* new_page() { bool* g = new bool(false); gone->push_back(g); Page* p = new Page(gone->size() - 1, g); return p; }
std::string headers() {
    std::string s; int n = W(2) ? 0 : Wr(1, 6); static const char* k[] = { "Host", "User-Agent", "Cookie", "X-Long", "Accept-Encoding", "Connection" };
    for (int i = 0; i < n; i++) { int h = W(6); s += std::string(k[h]) + (W(8) ? ": " : W(2) ? ":" : ":  ") + (h == 3 ? std::string(Wlog(1, 3000), 'x') : h == 5 ? "keep-alive" : "v" + std::to_string(W(100))) + "\r\n"; }
    return s;
}
std::string length_header(size_t n) { static const char* k[] = { "Content-Length", "content-length", "CONTENT-LENGTH", "Content-length" }; return std::string(k[W(3) ? 0 : W(4)]) + (W(8) ? ": " : ":") + std::to_string(n) + (W(10) ? "" : " ") + "\r\n"; }
std::string wrap(bool post, const std::string& target, const std::string& body, const std::string& extra, bool need_len) {
    std::string h = headers(), e = extra; if (!body.empty() || need_len) e = W(2) ? length_header(body.size()) + e : e + length_header(body.size());
    return std::string(post ? "POST " : "GET ") + target + " HTTP/1.1\r\n" + (W(2) ? h + e : e + h) + "\r\n" + body;
}
const char* const METHODS[] = { "simtest.EchoService.Echo", "simtest.EchoService.Work", "simtest.EchoService.Quick", "simtest.ShortService.Plain", "simtest.ShortService.Own" };
std::string odd_text() { static const char* t[] = { "plain", "with \"quotes\"", "back\\slash", "line\nfeed\ttab", "a&b=c?d#e%41+f", "{\"id\":5}", "\x01\x1f", " ", "\xc3\xa4\xe2\x82\xac" }; return t[W(9)]; }
bool deep_paths;
Req make(int kind, bool pipe) {
    Req r; r.kind = kind; r.c = NULL; r.t = NULL; r.pipe = pipe; r.slot = -1; r.epoch = 0;
    if (kind <= 2 || kind == 8) {
        Call* c = r.c = raw_call(kind == 1 ? 400 : W(4) ? 3000 : 60000, W(4) ? 3000 : 100000); if (c->method == 5) c->method = 0;
        if (W(3) == 0) set_mode(c, Wr(1, 3), Wlog(1, 100000)); if (W(2)) { c->req_text = odd_text(); c->req->set_text(c->req_text); }
        std::string path = std::string("/") + METHODS[c->method]; r.what = "call " + std::to_string(c->id) + (kind == 0 ? " (POST)" : kind == 1 ? " (GET)" : kind == 2 ? " (protobuf)" : " (binary)");
        if (kind == 8) { r.bytes = Peer::request_bytes(c); return r; }
        if (kind == 2) { static const char* a[] = { "Accept: ", "accept: ", "ACCEPT:", "Accept:  " }; r.bytes = wrap(true, path, c->req->SerializeAsString(), std::string(a[W(3) ? 0 : W(4)]) + "application/protobuf\r\n", true); return r; }
        std::vector<std::string> f; f.push_back("\"id\":" + std::to_string(c->id)); f.push_back("\"payload\":\"" + b64(c->req->payload()) + "\""); f.push_back("\"resp_size\":" + std::to_string(c->resp_size)); f.push_back("\"mode\":" + std::to_string(c->mode)); f.push_back("\"delay_us\":" + std::to_string(c->delay_us));
        if (c->req->has_text()) f.push_back("\"text\":" + jstr(c->req_text));
        if (c->req->nums_size()) { std::string a = "\"nums\":["; for (int i = 0; i < c->req->nums_size(); i++) a += (i ? "," : "") + std::to_string(c->req->nums(i)); f.push_back(a + "]"); }
        for (size_t i = f.size(); i > 1; i--) std::swap(f[i - 1], f[W(i)]);
        std::string j = "{"; for (size_t i = 0; i < f.size(); i++) j += (i ? W(5) ? "," : " , " : "") + f[i]; j += "}";
        if (kind == 0) r.bytes = wrap(true, path + (W(4) ? "" : "?x=1"), j, "", true); else r.bytes = wrap(false, path + "?" + (W(3) ? "" : "a=b&") + "request=" + pct(j) + (W(3) ? "" : "&c=d") + (W(4) ? "" : "#frag"), "", "", false);
        return r;
    }
    if (kind == 3 || kind == 6) {
        Token* t = r.t = new Token(); t->id = site->next++; site->tok[t->id] = t; t->served = 0; t->page = -1; t->answered = false; t->post = W(2); t->size = W(3) ? Wlog(0, 3000) : Wlog(0, 300000); t->mode = W(2) ? 0 : Wr(1, 3);
        if (kind == 3) { static const char* p[] = { "/page", "/page/one", "/page/one/deep", "/page/two", "/page/two/x/y", "/pa/ge", "/page/one%20b" }; int i = W(7); t->path = p[i]; r.slot = i == 0 || i == 3 || i == 4 || i == 6 ? 0 : i == 5 ? 2 : 1; if (i == 6) r.slot = 0; }
        else { r.slot = W(dyn->size()); t->path = (*dyn)[r.slot].path + (deep_paths ? "/a/b/c/d/e/f/g/h/i/j" : W(3) ? "" : "/below"); }
        t->q["id"] = std::to_string(t->id); int n = W(4); for (int i = 0; i < n; i++) t->q["k" + std::to_string(i)] = odd_text();
        std::string target = t->path + "?"; bool first = true; for (auto& p : t->q) { target += (first ? "" : "&") + p.first + "=" + pct(p.second); first = false; }
        if (t->post || W(4) == 0) t->body = gen(t->id, W(2) ? Wlog(0, 100) : Wlog(0, 60000), 8); std::string hv = "value " + std::to_string(t->id) + " : x"; t->h["X-Token"] = hv;
        r.bytes = wrap(t->post, target, t->body, "X-Token: " + hv + "\r\n", t->post && W(2)); r.what = "the request " + std::to_string(t->id) + " for " + t->path; return r;
    }
    if (kind == 4) { uint64_t id = site->next++; std::string p = (W(2) ? "/nothing/" : W(2) ? "/simtest.EchoService.Nope" : W(2) ? "/a.b.c." : "/odd\\\"'") + std::to_string(id); r.what = p.substr(1); r.bytes = wrap(W(2), p, W(3) ? "" : "some body", "", false); return r; }
    if (kind == 5) { static const char* p[] = { "/", "/home", "/options", "/status", "/services", "/service?name=simtest.EchoService", "/service?name=nope", "/service", "/status/sub", "//", "/services/?a=b" }; std::string s = p[W(11)]; r.what = s; r.bytes = wrap(W(3) == 0, s, "", "", false); return r; }
    if (kind >= 9 && kind <= 11) {
        simtest::Jot m; jot_fill(&m, kind == 11 ? 1 : 2, kind == 11 ? 60 : W(4) ? 300 : 60000); r.jot = m.SerializeAsString(); r.what = "a message of " + std::to_string(r.jot.size()) + " bytes as " + (kind == 9 ? "protobuf" : "JSON"); if (r.jot.empty()) probe("jot-empty");
        std::string path = "/simtest.JotService.Copy", j = r.jot.empty() && W(2) ? "" : to_json(m);
        if (kind == 11) r.bytes = wrap(false, path + (j.empty() && W(2) ? "" : "?request=" + pct(j)), "", "", false); else if (kind == 10) r.bytes = wrap(true, path, j, "", true); else r.bytes = wrap(true, path, r.jot, "Accept: application/protobuf\r\n", true);
        return r;
    }
    static const char* bad[] = { "{", "{\"id\":}", "{\"id\":\"x\"}", "[", "{\"id\":1,}", "{\"id\":-1}", "{\"id\":1.5}", "{\"nums\":7,\"id\":1}", "nonsense" };
    std::string path = std::string("/") + METHODS[W(5)]; r.what = "unusable arguments"; r.bytes = W(4) ? wrap(true, path, bad[W(9)], "", true) : wrap(true, path, "\xff\xff\xff", "Accept: application/protobuf\r\n", true); return r;
}
bool is_error(const std::string& body, int code, std::string* reason) {
    Json j(body); if (!j.ok || !j.is_string) fail("bad-http", "the body of an error answer is not a JSON string: %s", body.substr(0, 100).c_str());
    if (j.top.compare(0, 7, "ERROR: ")) return false; size_t e; long got = 0; e = j.top.find(": ", 7); if (e == std::string::npos) return false; got = atol(j.top.substr(7).c_str()); *reason = j.top.substr(e + 2);
    return code == 0 || got == code;
}
// does this answer belong to the request? (false only when several are under way)
bool match(const Req& r, const Reply& a) {
    std::string why; bool may_differ = r.pipe;
#define BAD(cls, ...) do { if (may_differ) return false; fail(cls, __VA_ARGS__); } while (0)
    bool ok200 = a.status == "HTTP/1.1 200 OK";
    if (r.kind <= 2) {
        Call* c = r.c;
        if (!ok200) BAD("wrong-response", "%s: %s", r.what.c_str(), a.status.c_str());
        if (c->mode == 2) { if (a.type != "application/json" || a.body.empty() || a.body[0] != '"' || !is_error(a.body, sofa::pbrpc::RPC_ERROR_FROM_USER, &why) || why != fail_reason(c->id)) BAD("wrong-response", "%s should fail, but the answer is %s", r.what.c_str(), a.body.substr(0, 100).c_str()); return true; }
        int64_t sum = 0; for (int i = 0; i < (int)(c->id % 5); i++) sum += c->id * 3 + i;
        if (r.kind == 2) { simtest::Resp p; if (a.type != "application/protobuf" || !p.ParseFromString(a.body) || p.id() != c->id) BAD("wrong-response", "%s: unreadable answer of %zu bytes, type %s", r.what.c_str(), a.body.size(), a.type.c_str()); if (p.payload() != gen(c->id, c->resp_size, 1) || p.text() != c->req_text || p.sum() != sum || p.node() != 11) fail("wrong-response", "%s: changed answer", r.what.c_str()); return true; }
        if (a.type != "application/json" || a.body.empty() || a.body[0] != '{') BAD("wrong-response", "%s: no JSON object in the answer (%s): %s", r.what.c_str(), a.type.c_str(), a.body.substr(0, 100).c_str());
        Json j(a.body); if (!j.ok) BAD("bad-http", "%s: the answer is no well-formed JSON: %s", r.what.c_str(), a.body.substr(0, 100).c_str());
        if (j.m["id"] != std::to_string(c->id)) BAD("wrong-response", "%s gets the answer for call %s", r.what.c_str(), j.m["id"].c_str());
        if (j.m["payload"] != b64(gen(c->id, c->resp_size, 1)) || j.m["text"] != c->req_text || j.m["sum"] != std::to_string(sum) || j.m["node"] != "11") fail("wrong-response", "%s: changed answer %s", r.what.c_str(), a.body.substr(0, 200).c_str());
        return true;
    }
    if (r.kind == 3 || r.kind == 6) {
        Token* t = r.t; std::string head = " id " + std::to_string(t->id) + "\n"; size_t h = a.body.find(head);
        if (h != std::string::npos && a.body.compare(0, 5, "page ") == 0) {
            int no = atoi(a.body.c_str() + 5); if (t->mode == 2) fail("wrong-response", "%s was refused by the page, but it is answered as if it were not", r.what.c_str());
            if (t->served != 1 || t->page != no) fail("wrong-response", "%s is answered by page %d, but page %d served it", r.what.c_str(), no, t->page);
            if (a.body.substr(h + head.size()) != gen(t->id, t->size, 7)) fail("wrong-response", "%s: changed page (%zu bytes)", r.what.c_str(), a.body.size());
            if (a.status != (t->mode == 1 ? "HTTP/1.1 418 Teapot" : "HTTP/1.1 200 OK") || a.type != (t->mode == 1 ? "application/x-thing" : "text/html; charset=UTF-8")) fail("wrong-response", "%s: \"%s\", type \"%s\"", r.what.c_str(), a.status.c_str(), a.type.c_str());
            if (r.kind == 3 && no != r.slot) fail("wrong-page", "%s is served by page %d, not %d", r.what.c_str(), no, r.slot);
            return true;
        }
        std::string e = "method not found: " + t->path.substr(1);
        if (ok200 && !a.body.empty() && a.body[0] == '"' && is_error(a.body, sofa::pbrpc::RPC_ERROR_FOUND_METHOD, &why) && why == e) { if (r.pipe && t->answered) return false; if (t->mode != 2 && t->served) { if (r.pipe) return false; fail("wrong-response", "%s was served, but the answer is %s", r.what.c_str(), a.body.c_str()); } if (t->mode == 2 && !t->served && r.kind == 3) { if (r.pipe) return false; fail("not-executed", "%s was not given to its page", r.what.c_str()); } if (r.kind == 3 && t->mode != 2) BAD("wrong-response", "%s: %s", r.what.c_str(), a.body.c_str()); return true; }
        BAD("wrong-response", "%s: answer \"%s\"", r.what.c_str(), a.body.substr(0, 100).c_str());
    }
    if (r.kind >= 9) {
        simtest::Jot m; if (!ok200 || a.type != (r.kind == 9 ? "application/protobuf" : "application/json")) BAD("wrong-response", "%s: %s, type %s: %s", r.what.c_str(), a.status.c_str(), a.type.c_str(), a.body.substr(0, 200).c_str());
        if (r.kind == 9) { if (a.body != r.jot) BAD("wrong-response", "%s: another message of %zu bytes comes back", r.what.c_str(), a.body.size()); }
        else { FromJson j(a.body, &m); if (!j.ok) BAD("bad-http", "%s: the answer is no well-formed JSON object of that type (at byte %zu): %s", r.what.c_str(), j.p, a.body.substr(j.p < 50 ? 0 : j.p - 50, 100).c_str()); round_off(&m); if (m.SerializeAsString() != r.jot) BAD("wrong-response", "%s: another message comes back: %s", r.what.c_str(), a.body.substr(0, 300).c_str()); }
        if (!jots->count(r.jot)) BAD("wrong-request", "%s: the handler got something else", r.what.c_str()); probe("jot"); return true;
    }
    if (r.kind == 4) { if (!ok200 || a.type != "application/json" || a.body.empty() || a.body[0] != '"' || !is_error(a.body, sofa::pbrpc::RPC_ERROR_FOUND_METHOD, &why) || why != "method not found: " + r.what) BAD("wrong-response", "%s does not exist, but the answer is %s %s", r.what.c_str(), a.status.c_str(), a.body.substr(0, 100).c_str()); return true; }
    if (r.kind == 5) { if (!ok200 || a.body.compare(0, 6, "<html>") || a.body.size() < 13 || a.body.compare(a.body.size() - 7, 7, "</html>")) BAD("wrong-response", "%s: %s, %s", r.what.c_str(), a.status.c_str(), a.body.substr(0, 100).c_str()); return true; }
    if (!ok200 || a.body.empty() || a.body[0] != '"' || !is_error(a.body, sofa::pbrpc::RPC_ERROR_PARSE_REQUEST_MESSAGE, &why)) BAD("wrong-response", "%s: %s, %s", r.what.c_str(), a.status.c_str(), a.body.substr(0, 100).c_str());
    return true;
#undef BAD
}
void answered(const Req& r) {
    if (r.c && r.c->execs.size() != 1) fail("wrong-response", "%s is answered, but was executed %zu times", r.what.c_str(), r.c->execs.size());
    if (r.t) r.t->answered = true; probe("answered"); probe("work");
}
// what the answer says about the page must be true at some moment between sending and answer
struct DynView { uint64_t changes; bool changing; int page; };
DynView view(int slot) { Dyn& d = (*dyn)[slot]; DynView v = { d.changes, d.changing, d.now_ ? d.now_->no : -1 }; return v; }
void check_dyn(const Req& r, const DynView& b) {
    Dyn& d = (*dyn)[r.slot];
    if (!b.changing && b.changes == d.changes) { if (r.t->page != b.page) fail("stale-page", "%s: %s all the time, but %s", r.what.c_str(), b.page < 0 ? "no page was registered" : ("page " + std::to_string(b.page) + " was registered").c_str(), r.t->page < 0 ? "no page served it" : ("page " + std::to_string(r.t->page) + " served it").c_str()); probe("dyn-sure"); }
    else if (r.t->page >= 0 && !d.ever.count(r.t->page)) fail("wrong-page", "%s is served by page %d, which never was there", r.what.c_str(), r.t->page);
}
}
SCENARIO(c21_http, "HTTP clients call methods, pages and unknown paths while pages come and go") {
    world_init(); Site st; site = &st; std::vector<Dyn> dy(Wr(1, 3)); deep_paths = false; dyn = &dy; std::vector<bool*> gn; gone = &gn; std::multiset<std::string> jt, sent; jots = &jt; bool lossy = W(3) == 0;
    EnvCfg e; e.conn = false; e.stalls = W(2); random_env(e); if (W(2)) set_sndbuf(11, Wlog(2000, 60000));
    RpcServerOptions o = small_server(); o.read_buffer_base_block_factor = Wr(0, 9); o.write_buffer_base_block_factor = Wr(0, 9); if (W(4) == 0) o.disable_builtin_services = true; if (W(4) == 0) o.disable_list_service = true; if (W(8) == 0) o.max_throughput_out = Wr(1, 4); if (W(8) == 0) o.max_throughput_in = Wr(1, 4);
    Server s(11, 8000, o); { NodeScope ns(11); if (!s.s->RegisterService(new JotImpl)) fail("register", "RegisterService fails"); } struct Rec { Page* p; bool* g; bool own; }; std::vector<Rec> fixed, out;    // out: pages taken back, then those still registered, with their ownership
    auto reg = [&](const char* path) { NodeScope ns(11); Page* p = new_page(); bool own = W(2); if (!s.s->RegisterWebServlet(path, p, own)) fail("register", "RegisterWebServlet(%s) fails", path); fixed.push_back(Rec{p, p->gone, own}); };
    reg(W(2) ? "/page" : "page//"); reg(W(2) ? "/page/one" : "//page/one/"); reg("/pa/ge");
    for (size_t i = 0; i < dy.size(); i++) { dy[i].path = "/dyn" + std::to_string(i); dy[i].changes = 0; dy[i].changing = false; dy[i].now_ = NULL; if (i == 2) dy[i].path = "/dyn0/sub"; }
    if (dy.size() > 2) dy.resize(2);   // prefixes of each other would make the expectation of one depend on the other
    if (!s.start()) fail("start", "Start() failed");
    bool stop = false; std::vector<int> fs; int admin = -1; std::vector<bool> dyn_own(dy.size(), false);
    if (W(2)) admin = spawn(11, "admin", [&] { int n = Wr(1, 30); for (int i = 0; i < n && !stop; i++) { sleep_ns(Wlog(1, 100 * MS)); int k = W(dy.size()); Dyn& d = dy[k]; std::string path = W(2) ? d.path : d.path.substr(1) + "/";
        if (d.now_ && W(4) == 0) { Page* p = new_page(); if (s.s->RegisterWebServlet(path, p, true)) fail("register", "%s is registered twice", d.path.c_str()); delete p; if (W(2)) if (s.s->UnregisterWebServlet("/never/there")) fail("register", "a page that never was there is taken back"); continue; }
        d.changing = true; d.changes++;
        if (d.now_) { Page* p = d.now_; Servlet g = s.s->UnregisterWebServlet(path); if (g != p) fail("register", "UnregisterWebServlet(%s) gives back something else", d.path.c_str()); d.now_ = NULL; out.push_back(Rec{p, p->gone, false}); probe("unregister"); }
        else { Page* p = new_page(); d.ever.insert(p->no); dyn_own[k] = W(2); if (!s.s->RegisterWebServlet(path, p, dyn_own[k])) fail("register", "RegisterWebServlet(%s) fails", d.path.c_str()); d.now_ = p; probe("register"); }
        d.changes++; d.changing = false; } });
    int clients = Wr(1, 4);
    for (int ci = 0; ci < clients; ci++) { int rounds = Wr(1, 12); fs.push_back(spawn(1 + ci % 3, "http", [&, rounds] {
        Http h; static const int kinds[] = { 0, 0, 0, 1, 1, 2, 2, 3, 3, 3, 4, 5, 6, 6, 7, 9, 10, 10, 11 };
        for (int i = 0; i < rounds; i++) {
            if (h.ended && !h.open(11)) { if (!lossy) fail("connect", "the server does not accept a connection"); sleep_ns(Wlog(MS, 100 * MS)); continue; }
            int batch = W(4) ? 1 : Wr(2, 6); std::vector<Req> rs; std::string all;
            for (int b = 0; b < batch; b++) { int k; do k = kinds[W(19)]; while (batch > 1 && (k == 5 || k == 6 || k == 7)); rs.push_back(make(k, batch > 1)); if (batch > 1 && rs.back().t && rs.back().t->mode == 2) rs.back().t->mode = 0; if (k >= 9) sent.insert(rs.back().jot); all += rs.back().bytes; }
            DynView v; if (rs[0].kind == 6) v = view(rs[0].slot);
            note("http: %d requests, first %s, %zu bytes", batch, rs[0].what.c_str(), all.size());
            bool leave = W(12) == 0; if (leave && W(2)) { all.resize(W(all.size() + 1)); h.send(all); h.drop(); probe("abandoned"); continue; }
            if (!h.send(all)) { if (!lossy) fail("connection-lost", "the connection ends while %s is sent", rs[0].what.c_str()); h.drop(); continue; }
            if (leave) { sleep_ns(Wlog(1, 50 * MS)); h.drop(); probe("abandoned"); continue; }
            std::vector<bool> seen(batch, false);
            for (int b = 0; b < batch; b++) {
                Reply a; if (!h.reply(&a, 30 * SEC, rs[b].what.c_str())) { if (!lossy) fail("connection-lost", "the server ends the connection instead of answering %s", rs[b].what.c_str()); break; }
                int m = -1; for (int x = 0; x < batch && m < 0; x++) if (!seen[x] && match(rs[x], a)) m = x;
                if (m < 0) fail("wrong-response", "%d requests (first %s) were sent together, and this is the answer to none of them: %s %s", batch, rs[0].what.c_str(), a.status.c_str(), a.body.substr(0, 100).c_str());
                seen[m] = true; answered(rs[m]); if (rs[m].kind == 6) check_dyn(rs[m], v); if (batch > 1) probe("pipelined");
            }
            if (h.ended) { h.drop(); continue; }
            h.nothing_more(rs.back().what.c_str()); if (W(3) == 0) h.drop(); else if (W(3) == 0) sleep_ns(Wlog(1, 300 * MS));
        } })); }
    if (W(3) == 0) fs.push_back(spawn(4, "binary", [&] {   // the other protocol on the same port
        Peer p; int n = Wr(1, 8); for (int i = 0; i < n; i++) { if (p.fd < 0 || p.closed) if (!p.connect(11)) { sleep_ns(10 * MS); continue; } Call* c = raw_call(3000, 3000); if (c->method == 5) c->method = 0; p.request(c); if (!p.await(c->id, 60 * SEC) && !lossy) fail("no-answer", "the binary request %lu is not answered", (unsigned long)c->id); } }));
    int nem = lossy ? spawn(0, "nemesis", [&] { int n = Wr(1, 4); for (int i = 0; i < n && !stop; i++) { sleep_ns(Wlog(MS, 300 * MS)); if (stop) break; if (W(2)) { reset_conns(-1, 11); probe("reset"); } else { s.stop(); probe("stop"); sleep_ns(Wlog(MS, 100 * MS)); if (!s.start()) fail("start", "Start() failed"); } } }) : -1;
    for (int f : fs) join(f); stop = true; if (nem >= 0) join(nem); if (admin >= 0) join(admin);
    faults_off();
    { NodeScope ns(5); Http h; if (!h.open(11)) fail("connect", "the server does not accept a connection"); h.slow = 0; static const int k[] = { 0, 1, 2, 3, 4, 5, 7, 9, 10, 11 }; for (int i = 0; i < 3; i++) { Req r = make(k[W(10)], false); if (r.kind >= 9) sent.insert(r.jot); Reply a; if (!h.send(r.bytes) || !h.reply(&a, 10 * SEC, r.what.c_str())) fail("connection-lost", "the server ends the connection instead of answering %s", r.what.c_str()); match(r, a); answered(r); h.nothing_more(r.what.c_str()); } h.drop(); }
    if (!wait_until([] { return w->deferred_pending == 0 && w->executing == 0; }, 100 * SEC)) fail("handlers-hang", "handlers do not end");
    for (auto& b : jt) if (jt.count(b) > sent.count(b)) fail("wrong-request", "the handler got a message of %zu bytes %zu times, it was sent %zu times", b.size(), jt.count(b), sent.count(b));
    for (size_t i = 0; i < dy.size(); i++) if (dy[i].now_) out.push_back(Rec{dy[i].now_, dy[i].now_->gone, dyn_own[i]});
    for (auto& p : fixed) out.push_back(p);
    s.destroy();
    for (auto& p : out) { if (p.own && !*p.g) fail("page-leaked", "a page was handed over to the server, which did not delete it"); if (!p.own && *p.g) fail("page-deleted", "the server deletes a page it does not own"); if (!p.own) delete p.p; }
    for (bool* g : gn) delete g;
    teardown_check({1, 2, 3, 4, 5, 11});
}
SCENARIO(c21_pages, "many pages come and go, by several threads, while HTTP clients ask for pages and for the list of them") {
    world_init(); Site st; site = &st; std::vector<Dyn> dy(Wr(2, 8)); dyn = &dy; deep_paths = W(4); if (W(4)) dense(Wr(1, 4) * 40); std::vector<bool*> gn; gone = &gn; std::multiset<std::string> jt; jots = &jt; net.lat_min = Wlog(US, 200 * US); net.lat_max = net.lat_min * 2;
    RpcServerOptions o = small_server(); o.work_thread_num = Wr(2, 6); Server s(11, 8000, o); std::vector<Page*> fixed; std::vector<Page*> all;
    auto reg = [&](const char* path) { NodeScope ns(11); Page* p = new_page(); if (!s.s->RegisterWebServlet(path, p, false)) fail("register", "RegisterWebServlet(%s) fails", path); all.push_back(p); };
    reg("/page"); reg("/page/one"); reg("/pa/ge"); static const char* const dn[] = { "/dyn0", "/b", "/m", "/pz", "/q", "/zz", "/sa", "/home2" }; for (size_t i = 0; i < dy.size(); i++) { dy[i].path = dn[i]; dy[i].changes = 0; dy[i].changing = false; dy[i].now_ = NULL; }
    if (!s.start()) fail("start", "Start() failed"); if (W(4)) { sys.fiber_stall = Wlog(100, 30000); sys.fiber_stall_max = Wlog(10 * US, 5 * MS); }
    bool stop = false; int A = Wr(1, 2); ns_t pace = Wlog(US, 2 * MS); std::vector<int> fs, as;
    for (int a = 0; a < A; a++) as.push_back(spawn(11, "admin", [&, a] { int n = Wr(5, 120); for (int i = 0; i < n && !stop; i++) { sleep_ns(Wlog(1, pace)); int k = W(dy.size()); if (k % A != a) continue; Dyn& d = dy[k]; d.changing = true; d.changes++; ApiScope api;
        if (d.now_) { Page* p = d.now_; Servlet g = s.s->UnregisterWebServlet(d.path); if (g != p) fail("register", "UnregisterWebServlet(%s) gives back something else", d.path.c_str()); d.now_ = NULL; probe("unregister"); }
        else { Page* p = new_page(); all.push_back(p); d.ever.insert(p->no); if (!s.s->RegisterWebServlet(d.path, p, false)) fail("register", "RegisterWebServlet(%s) fails", d.path.c_str()); d.now_ = p; probe("register"); }
        d.changes++; d.changing = false; } }));
    int clients = Wr(1, 6);
    for (int ci = 0; ci < clients; ci++) { int rounds = Wr(3, 40); fs.push_back(spawn(1 + ci, "http", [&, rounds] {
        Http h; h.slow = 0; static const int kinds[] = { 3, 3, 5, 6, 6, 6, 6, 4 };
        for (int i = 0; i < rounds; i++) {
            if (h.ended && !h.open(11)) fail("connect", "the server does not accept a connection");
            Req r = make(kinds[W(8)], false); if (r.t) r.t->size = std::min<size_t>(r.t->size, 500); DynView v; if (r.kind == 6) v = view(r.slot);
            if (!h.send(r.bytes)) fail("connection-lost", "the connection ends while %s is sent", r.what.c_str());
            Reply a; if (!h.reply(&a, 30 * SEC + 2 * stalled_total(), r.what.c_str())) fail("connection-lost", "the server ends the connection instead of answering %s", r.what.c_str());
            match(r, a); answered(r); if (r.kind == 6) check_dyn(r, v);
        } h.drop(); })); }
    for (int f : fs) join(f); stop = true; for (int f : as) join(f); sys.fiber_stall = 0;
    s.destroy(); for (Page* p : all) { if (*p->gone) fail("page-deleted", "the server deletes a page it does not own"); delete p; } for (bool* g : gn) delete g; teardown_check({1, 2, 3, 4, 5, 6, 11});
}
