// Script interpreter driving servers, clients and raw peers under vsched.
//   iqhost <scenario file> <output prefix> <jobs> [settle_us]
// Each scenario runs in its own forked process; its events go to
// <output prefix>.<slot>, one per line, bracketed by "BEGIN sid" / "END sid status".
#include <sanitizer/common_interface_defs.h>
#include "vsched.h"
#include "valtext.h"
#include "tlspeer.h"
#include <libiqxmlrpc/libiqxmlrpc.h>
#include <libiqxmlrpc/http_server.h>
#include <libiqxmlrpc/https_server.h>
#include <libiqxmlrpc/http_client.h>
#include <libiqxmlrpc/https_client.h>
#include <libiqxmlrpc/http_errors.h>
#include <libiqxmlrpc/auth_plugin.h>
#include <libiqxmlrpc/executor.h>
#include <libiqxmlrpc/firewall.h>
#include <libiqxmlrpc/method.h>
#include <libiqxmlrpc/reactor.h>
#include <arpa/inet.h>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <sys/syscall.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <memory>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sched.h>
#include <signal.h>
#include <sstream>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

using namespace iqxmlrpc;
typedef std::string S;
using vt::hex;
using vt::unhex;

static int out_fd = -1;
static std::string out_buf;
static void flush_out() { size_t o = 0; while (o < out_buf.size()) { ssize_t r = vs::real::write(out_fd, out_buf.data() + o, out_buf.size() - o); if (r <= 0) break; o += r; } out_buf.clear(); }
static void ev(const S& s) { out_buf += s; out_buf += '\n'; if (out_buf.size() > (1 << 20)) flush_out(); }
void vs::on_event(const S& l) { ev(l); flush_out(); }

static std::vector<S> split(const S& s, char sep)
{
  std::vector<S> r; S cur;
  for (char c : s) if (c == sep) { r.push_back(cur); cur.clear(); } else cur += c;
  r.push_back(cur);
  return r;
}
static long num(const S& s) { return atol(s.c_str()); }

// ------------------------------------------------------------------ server side objects
static long m_live = 0, m_made = 0;
static int m_running = 0;

// the port of a peer, if the rest of its address is right too
static std::map<int, S> hosts;
static int seen(const iqnet::Inet_addr& a)
{
  auto h = hosts.find(a.get_port());
  return h == hosts.end() || h->second == a.get_host_name() ? a.get_port() : 0;
}

class HMethod: public Method {
public:
  S src;
  HMethod(const S& s = ""): src(s) { ++m_live; ++m_made; }
  ~HMethod() { --m_live; if (m_live < 0) ev("overrelease"); }
private:
  void execute(const Param_list& p, Value& res)
  {
    S tag = p.size() > 0 && p[0].is_string() ? p[0].get_string() : "-";
    S act = p.size() > 1 && p[1].is_string() ? p[1].get_string() : "tag";
    S args;
    for (size_t i = 0; i < p.size(); ++i) { if (i) args += ","; args += vt::dump(p[i]); }
    S xh;
    XHeaders& x = xheaders();
    for (XHeaders::const_iterator i = x.begin(); i != x.end(); ++i) { if (!xh.empty()) xh += ","; xh += hex(i->first) + "=" + hex(i->second); }
    for (XHeaders::const_iterator i = x.begin(); i != x.end(); ++i) {      // however a name is spelled
      S u = i->first;
      for (size_t j = 0; j < u.size(); j += 1 + (tag.size() & 1)) u[j] = (char)toupper((unsigned char)u[j]);
      XHeaders::const_iterator f = x.find(u), g = x.find(i->first);
      if (f == x.end() || f->second != i->second || g != f || x[u] != i->second) { xh += "!" + hex(u); break; }
    }
    if (xheaders().find("content-length") != x.end() || xheaders().find("Host") != x.end()) xh += "!";
    ++m_running;
    ev("exec " + tag + " name=" + hex(name()) + " src=" + src + " auth=" + hex(authname()) + " authd=" + (authenticated() ? "1" : "0") +
       " xh=" + xh + " port=" + std::to_string(seen(peer_addr())) + " args=[" + args + "]");
    x["X-Left-By-Method"] = tag;      // must not be seen by any other call
    vs::yield();
    struct Leave { S t; ~Leave() { --m_running; ev("done " + t); } } leave{tag};
    std::vector<S> a = split(act, ':');
    if (a[0] == "echo") {
      Array r;
      for (size_t i = 0; i < p.size(); ++i) r.push_back(p[i]);
      res = Value(r);
    }
    else if (a[0] == "big") { S b(num(a[1]), 'x'); for (size_t i = 0; i < b.size(); ++i) b[i] = 'a' + (i * 7 + i / 251) % 26; res = Value(tag + ":" + b); }
    else if (a[0] == "fault") throw Fault(num(a[1]), unhex(a[2]));
    else if (a[0] == "iqexc") throw Exception(unhex(a[2]), num(a[1]));
    else if (a[0] == "stdexc") throw std::runtime_error(unhex(a[2]));
    else if (a[0] == "logic") throw std::logic_error(unhex(a[2]));
    else if (a[0] == "params") throw Invalid_meth_params();
    else if (a[0] == "int") throw 42;
    else if (a[0] == "cstr") throw "cstr";
    else if (a[0] == "httperr") throw http::Bad_request();
    else if (a[0] == "unknown") throw Unknown_method("zzz");
    else if (a[0] == "badcast") { Value v(1); v.get_string(); }
    else if (a[0] == "block") { vs::gate_wait(tag); res = Value(tag); }
    else if (a[0] == "blockfault") { vs::gate_wait(tag); throw Fault(7, tag); }
    else if (a[0] == "stop") { server().set_exit_flag(); res = Value(tag); }
    else if (a[0] == "log" || a[0] == "logfault") {
      for (size_t i = 1; i < a.size(); ++i) { ev("log " + a[i]); server().log_message(unhex(a[i])); ev("logged " + a[i]); vs::yield(); }
      if (a[0] == "logfault") throw Fault(7, tag);
      res = Value(tag);
    }
    else if (a[0] == "src") res = Value(tag + ":" + src);
    else res = Value(tag);
    vs::yield();
  }
};

class HFactory: public Method_factory_base {
  S src;
public:
  explicit HFactory(const S& s): src(s) {}
  Method* create() { return new HMethod(src); }
};

class HDispatcher: public Method_dispatcher_base {
  S src; std::vector<S> names;
public:
  HDispatcher(const S& s, const std::vector<S>& n): src(s), names(n) {}
private:
  Method* do_create_method(const S& n)
  {
    for (auto& x : names) if (x == n) return new HMethod(src);
    return 0;
  }
  void do_get_methods_list(Array& a) const { for (auto& x : names) a.push_back(Value(x)); }
};

class HInterceptor: public Interceptor {
  S id, prog;
public:
  HInterceptor(const S& i, const S& p): id(i), prog(p) {}
  void process(Method* m, const Param_list& p, Value& r)
  {
    S tag = p.size() > 0 && p[0].is_string() ? p[0].get_string() : "-";
    ev("ic " + tag + " " + id + " enter");
    struct L { S t, i; ~L() { ev("ic " + t + " " + i + " leave"); } } l{tag, id};
    if (prog == "pass") yield(m, p, r);
    else if (prog == "swallow") r = Value("sw" + id);
    else if (prog == "throwb") throw Fault(100 + num(id), "tb" + id);
    else if (prog == "throwa") { yield(m, p, r); throw Fault(200 + num(id), "ta" + id); }
    else if (prog == "alter") { yield(m, p, r); S old = r.is_string() ? r.get_string() : "?"; r = Value(old + "+" + id); }
    else if (prog == "catch") { try { yield(m, p, r); } catch (const Fault& f) { r = Value("c" + id + ":" + f.what()); } catch (...) { r = Value("c" + id + ":other"); } }
    else if (prog == "conv") { try { yield(m, p, r); } catch (...) { throw Fault(300 + num(id), "cv" + id); } }
    else if (prog == "params") { Param_list q(p); q.push_back(Value("p" + id)); yield(m, q, r); }
    else if (prog == "twice") { yield(m, p, r); yield(m, p, r); }
    else if (prog == "std") throw std::runtime_error("st" + id);
  }
};

class HAuth: public Auth_Plugin_base {
public:
  std::map<S, S> users; bool anon = false; S thrower;
private:
  bool do_authenticate(const S& u, const S& p) const
  {
    auto i = users.find(u);
    bool ok = i != users.end() && i->second == p;
    ev("authcall " + hex(u) + " " + hex(p) + " " + (ok ? "1" : "0"));
    if (!thrower.empty() && u == thrower) throw std::runtime_error("auth backend down");
    return ok;
  }
  bool do_authenticate_anonymous() const { ev(S("authanon ") + (anon ? "1" : "0")); return anon; }
};

struct Peer;
static std::map<int, int> denied_ports;   // port -> 1
class HFirewall: public iqnet::Firewall_base {
public:
  S msg; bool dflt = false;
  bool grant(const iqnet::Inet_addr& a)
  {
    bool ok = !denied_ports.count(seen(a));
    ev("fw " + std::to_string(seen(a)) + " " + (ok ? "1" : "0"));
    return ok;
  }
  S message() { return dflt ? Firewall_base::message() : msg; }
};

class HVerifier: public iqnet::ssl::ConnectionVerifier {
public:
  S id, policy;  // accept refuse throw pre late objects
private:
  int do_verify(bool pre, X509_STORE_CTX* c) const
  {
    S fp = cert_finger_sha256(c);
    bool ok = policy == "accept" || (policy == "pre" && pre) || ((policy == "late" || policy == "objects") && !pre) || (policy.compare(0, 3, "fp:") == 0 && (policy.substr(3) + "+").find(fp + "+") != S::npos);
    ev("verify " + id + " " + policy + " pre=" + (pre ? "1" : "0") + " ok=" + (ok ? "1" : "0") + " fp=" + fp);
    if (policy == "throw" || (policy == "objects" && pre)) throw std::runtime_error("verifier");
    return ok ? 1 : 0;
  }
};

// a log to which every write takes a while and that passes on what it was given only when told to
struct LogBuf: std::streambuf {
  S pend, line;
  int overflow(int c) { vs::yield(); if (c != EOF) pend += (char)c; return 0; }
  std::streamsize xsputn(const char* s, std::streamsize n)
  {
    for (std::streamsize i = 0; i < n; ++i) { if (i == 0 || i == n / 2) vs::yield(); pend += s[i]; }
    vs::yield();
    return n;
  }
  int sync()
  {
    vs::yield();
    S p; p.swap(pend);
    for (char c : p) if (c == '\n') { ev("line " + hex(line)); line.clear(); } else line += c;
    return 0;
  }
};

// ------------------------------------------------------------------ scenario state
struct Srv {
  LogBuf logbuf;
  std::ostream log{&logbuf};
  std::unique_ptr<Executor_factory_base> ef;
  Server* srv = 0;
  HAuth auth;
  HFirewall fw;
  int work_actor = -1;
  S work_state = "idle";   // idle running returned threw
  bool pool = false, pool_gone = false;
  int port = 0;
};
static std::map<S, Srv*> srvs;

struct Peer {
  int id; int fd = -1; int port = 0; bool eof = false, dead = false, paused = false, announced = false;
  bool listener = false; int naccepted = 0; bool refuse = false;
  int lid = 0; long last = 0;   // accepted by listener lid; last activity
  std::unique_ptr<TlsPeer> tls; bool tls_server = false; long tls_cut = 0; bool tls_reported = false;
  S outq;     // ciphertext waiting (tls) when cut
  int tun = 0; S tunbuf; S tun_cert; long tun_cut = 0;   // a proxy: how it answers requests for a tunnel (0 = none expected)
};
static std::map<int, Peer*> peers;
static int next_acc = 1000;
static long activity = 0;
static std::map<S, int> actors;   // label -> actor id
static S tls_cert_dir;

struct Cli {
  std::unique_ptr<Client_base> c;
  int port = 0;
  bool busy = false;
};
static std::map<S, Cli*> clis;
static HVerifier* v_srv = 0; static HVerifier* v_cli = 0;

static void nonblock(int fd) { fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK); int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); }

static bool raw_send(Peer* p, const S& d)
{
  size_t o = 0; int tries = 0;
  while (o < d.size()) {
    ssize_t r = vs::real::send(p->fd, d.data() + o, d.size() - o, MSG_NOSIGNAL);
    if (r > 0) { o += r; continue; }
    if (errno == EAGAIN) {
      // the receiver must take bytes before more can be sent
      if (++tries > 2000) { ev("txfull " + std::to_string(p->id)); return false; }
      vs::quiet();
      continue;
    }
    ev("txerr " + std::to_string(p->id) + " " + std::to_string(errno));
    return false;
  }
  return true;
}

static void tls_pump(Peer* p)
{
  for (;;) {
    S o = p->tls->take_output();
    if (o.empty()) break;
    if (p->tls_cut > 0) {
      for (size_t i = 0; i < o.size(); i += p->tls_cut) { if (!raw_send(p, o.substr(i, p->tls_cut))) return; vs::quiet(); }
    } else raw_send(p, o);
  }
}

// what a proxy does with the bytes it gets before a tunnel is up
static void tunnel(Peer* p, const S& d)
{
  p->tunbuf += d;
  if (p->tunbuf.find("\r\n\r\n") == S::npos) { ev("rx " + std::to_string(p->id) + " "); return; }
  int code = p->tun;
  ev("tunnel " + std::to_string(p->id) + " " + std::to_string(code) + " " + hex(p->tunbuf));
  if (code < 0) { p->dead = true; vs::real::shutdown(p->fd, SHUT_RDWR); return; }
  S a = "HTTP/1.0 " + std::to_string(code) + (code == 200 ? " Connection established\r\nProxy-agent: x\r\n\r\n" : " No way\r\n\r\n");
  for (size_t i = 0, n = p->tun_cut > 0 ? p->tun_cut : a.size(); i < a.size(); i += n) { if (!raw_send(p, a.substr(i, n))) return; if (p->tun_cut > 0) vs::quiet(); }
  if (code == 200) { p->tun = 0; p->tls.reset(new TlsPeer(true, p->tun_cert, false)); }
}

static bool drain()
{
  bool any = false;
  std::vector<Peer*> ps;
  for (auto& kv : peers) ps.push_back(kv.second);
  for (auto p : ps) {
    if (p->fd < 0 || (p->paused && !p->listener)) continue;
    if (p->listener) {
      if (p->refuse) continue;
      for (;;) {
        sockaddr_in sa; socklen_t sl = sizeof sa;
        int fd = vs::real::accept(p->fd, (sockaddr*)&sa, &sl);
        if (fd < 0) break;
        vs::own(fd); nonblock(fd);
        Peer* q = new Peer; q->id = next_acc++; q->fd = fd; q->port = ntohs(sa.sin_port);
        q->lid = p->id; q->last = ++activity; q->paused = p->paused;
        peers[q->id] = q;
        ev("acc " + std::to_string(p->id) + " " + std::to_string(q->id));
        q->tun = p->tun; q->tun_cert = p->tun_cert; q->tun_cut = p->tun_cut;
        if (p->tls_server) { q->tls.reset(new TlsPeer(true, p->tls->cert, p->tls->want_client_cert)); q->tls_cut = p->tls_cut; }
        any = true;
      }
      continue;
    }
    if (p->eof || p->dead) continue;
    S got;
    char buf[65536];
    for (;;) {
      ssize_t r = vs::real::recv(p->fd, buf, sizeof buf, 0);
      if (r > 0) { got.append(buf, r); continue; }
      if (r == 0) { p->eof = true; any = true; break; }
      if (errno == EAGAIN) break;
      p->dead = true; any = true; break;
    }
    if (!got.empty()) {
      any = true;
      p->last = ++activity;
      if (p->tun) tunnel(p, got);
      else if (p->tls) {
        p->tls->feed(got);
        S plain = p->tls->take_plain();
        if (!plain.empty()) ev("rx " + std::to_string(p->id) + " " + hex(plain));
        if (!p->tls_reported && (p->tls->established() || p->tls->failed())) {
          p->tls_reported = true;
          ev("tls " + std::to_string(p->id) + (p->tls->failed() ? " failed" : " up"));
        }
        if (p->tls->closed_notified()) ev("tlsclose " + std::to_string(p->id));
        tls_pump(p);
      } else ev("rx " + std::to_string(p->id) + " " + hex(got));
    } else if (p->tls && !p->eof && !p->dead) tls_pump(p);
    if (p->eof) ev("eof " + std::to_string(p->id));
    if (p->dead) ev("reset " + std::to_string(p->id));
  }
  return any;
}

static S status()
{
  S s;
  for (auto& kv : srvs) s += " work." + kv.first + "=" + kv.second->work_state;
  for (auto& kv : actors) s += " act." + kv.first + "=" + (vs::actor_done(kv.second) ? "done" : "pending");
  return s;
}

static void run()
{
  for (int round = 0; round < 10000; ++round) {
    if (!vs::quiet()) { ev("spin"); flush_out(); }
    if (!drain()) break;
  }
  ev("quiet t=" + std::to_string(vs::now_ms()) + " running=" + std::to_string(m_running) + status());
}

static void close_peer(Peer* p, bool rst)
{
  if (p->fd < 0) return;
  if (rst) { struct linger l = { 1, 0 }; setsockopt(p->fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
  vs::conn_budget_add(p->port, -1);   // a socket whose peer is gone never holds a writer up
  vs::real::close(p->fd);
  p->fd = -1;
}

static S exc_class(S& what, long& code)
{
  try { throw; }
  catch (const Client_timeout& e) { what = e.what(); code = e.code(); return "timeout"; }
  catch (const http::Error_response& e) { what = e.what(); code = e.response_header() ? e.response_header()->code() : -1; return "http"; }
  catch (const http::Malformed_packet& e) { what = e.what(); code = e.code(); return "malformed"; }
  catch (const iqnet::ssl::exception& e) { what = e.what(); code = 0; return "ssl"; }
  catch (const iqnet::network_error& e) { what = e.what(); code = 0; return "net"; }
  catch (const Parse_error& e) { what = e.what(); code = e.code(); return "parse"; }
  catch (const XML_RPC_violation& e) { what = e.what(); code = e.code(); return "violation"; }
  catch (const Fault& e) { what = e.what(); code = e.code(); return "fault"; }
  catch (const Exception& e) { what = e.what(); code = e.code(); return "iq"; }
  catch (const std::exception& e) { what = e.what(); code = 0; return "std"; }
  catch (...) { what = ""; code = 0; return "other"; }
}

typedef std::map<S, S> Opt;
static Opt opts(const std::vector<S>& w, size_t from)
{
  Opt o;
  for (size_t i = from; i < w.size(); ++i) {
    size_t e = w[i].find('=');
    if (e == S::npos) o[w[i]] = "1"; else o[w[i].substr(0, e)] = w[i].substr(e + 1);
  }
  return o;
}

static int port_arg(const S& a)
{
  if (srvs.count(a)) return srvs[a]->port;
  if (a[0] == 'p' && peers.count(num(a.substr(1)))) return peers[num(a.substr(1))]->port;
  return num(a);
}

static XHeaders xheaders_of(const S& t)
{
  XHeaders x;
  if (t.empty()) return x;
  for (auto& kv : split(t, ',')) { auto p = split(kv, '='); x[unhex(p[0])] = unhex(p[1]); }
  return x;
}
static XHeaders xheaders_map(const S& t)
{
  XHeaders x;
  x["x-before"] = "1";     // an assignment replaces everything
  std::map<S, S> m;
  if (!t.empty()) for (auto& kv : split(t, ',')) { auto p = split(kv, '='); m[unhex(p[0])] = unhex(p[1]); }
  x = m;
  return x;
}

#include "reactorcmd.h"
#include "addrcmd.h"
#include "parcmd.h"

static void do_server(const S& name, const Opt& o)
{
  Srv* s = new Srv;
  srvs[name] = s;
  auto get = [&](const S& k, const S& d = "") { auto i = o.find(k); return i == o.end() ? d : i->second; };
  S ex = get("exec", "serial");
  if (ex == "serial") s->ef.reset(new Serial_executor_factory);
  else { s->ef.reset(new Pool_executor_factory(num(ex))); s->pool = true; }
  iqnet::Inet_addr addr("127.0.0.1", port_arg(get("port", "0")));
  if (get("tls") != "") s->srv = new Https_server(addr, s->ef.get());
  else s->srv = new Http_server(addr, s->ef.get());
  if (get("max") != "") s->srv->set_max_request_sz(num(get("max")));
  if (get("strict") == "1") s->srv->set_verification_level(http::HTTP_CHECK_STRICT);
  if (get("nom") == "") s->srv->register_method("m", new HFactory("m"));
  if (get("auth") != "") {
    for (auto& up : split(get("auth"), ',')) if (up != "-") { auto v = split(up, ':'); s->auth.users[unhex(v[0])] = unhex(v[1]); }
    s->auth.anon = get("anon") == "1";
    s->auth.thrower = unhex(get("auththrow"));
    s->srv->set_auth_plugin(s->auth);
  }
  if (o.count("fw")) { if (get("fw") == "default") s->fw.dflt = true; else s->fw.msg = unhex(get("fw")); s->srv->set_firewall(&s->fw); }
  if (get("intro") == "1") s->srv->enable_introspection();
}

static void do_work(const S& name)
{
  Srv* s = srvs[name];
  s->work_state = "running";
  int before = vs::last_listen_port();
  (void)before;
  s->work_actor = vs::spawn([s, name] {
    try { s->srv->work(); s->work_state = "returned"; ev("workret " + name); }
    catch (...) { S w; long c; S k = exc_class(w, c); s->work_state = "threw"; ev("workexc " + name + " " + k + " " + hex(w)); }
  });
}

static void actor(const S& label, const std::function<void()>& f)
{
  actors[label] = vs::spawn([label, f] {
    try { f(); ev("actdone " + label); }
    catch (...) { S w; long c; S k = exc_class(w, c); ev("actexc " + label + " " + k + " " + hex(w)); }
  });
}

static void do_call(const S& k, const S& id, const S& method, const S& params, const S& xh, bool xm = false, bool one = false)
{
  Cli* c = clis[k];
  c->busy = true;
  actors["call" + id] = vs::spawn([=] {
    S w; long code = 0;
    struct Idle { Cli* c; ~Idle() { c->busy = false; } } idle = { c };
    try {
      Param_list pl;
      Value pv = vt::parse(params);
      if (pv.is_array()) for (Array::const_iterator i = pv.arr_begin(); i != pv.arr_end(); ++i) pl.push_back(*i);
      Response r = one ? c->c->execute(method, pl[0]) : xh.empty() && !xm ? c->c->execute(method, pl) : c->c->execute(method, pl, xm ? xheaders_map(xh) : xheaders_of(xh));
      if (r.is_fault()) ev("ret " + id + " fault " + std::to_string(r.fault_code()) + " " + hex(r.fault_string()));
      else ev("ret " + id + " ok " + vt::dump(r.value()));
    }
    catch (...) { S cl = exc_class(w, code); ev("ret " + id + " exc " + cl + " " + std::to_string(code) + " " + hex(w) + " t=" + std::to_string(vs::now_ms())); }
  });
}

// A socket bound to a local port but not listening: connections are refused.
static int bound(int port)
{
  int fd = vs::real::socket(AF_INET, SOCK_STREAM, 0), one = 1;
  vs::own(fd); nonblock(fd);
  setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
  sockaddr_in sa; memset(&sa, 0, sizeof sa); sa.sin_family = AF_INET; sa.sin_addr.s_addr = inet_addr("127.0.0.1"); sa.sin_port = htons(port);
  if (vs::real::bind(fd, (sockaddr*)&sa, sizeof sa) != 0) ev("cmdexc bind " + std::to_string(errno));
  return fd;
}

static vs::Config vcfg;

// record of memory accesses, if this program has one
extern "C" { void hb_start() __attribute__((weak)); void hb_dump(const std::function<void(const std::string&)>&) __attribute__((weak)); }

static void command(const S& line)
{
  std::vector<S> w = split(line, ' ');
  const S& c = w[0];
  if (c == "sched") {
    Opt o = opts(w, 1);
    if (o.count("seed")) vcfg.seed = num(o["seed"]);
    if (o.count("mode")) vcfg.mode = o["mode"] == "rand" ? 1 : o["mode"] == "pct" ? 2 : o["mode"] == "seq" ? 3 : 0;
    vcfg.at.clear();
    if (o.count("at") && !o["at"].empty()) for (auto& x : split(o["at"], ',')) { auto v = split(x, ':'); vcfg.at.push_back({num(v[0]), v.size() > 1 ? (int)num(v[1]) : 0}); }
    if (o.count("sw")) vcfg.switch_pct = num(o["sw"]);
    if (o.count("bb")) vcfg.bb_mean = num(o["bb"]);
    if (o.count("depth")) vcfg.depth = num(o["depth"]);
    if (o.count("horizon")) vcfg.horizon = num(o["horizon"]);
    if (o.count("spurious")) vcfg.spurious_pct = num(o["spurious"]);
    vs::reseed(vcfg);
  }
  else if (c == "hb") { if (w[1] == "on") { if (hb_start) hb_start(); } else if (hb_dump) hb_dump([](const S& l) { ev(l); }); }
  else if (c == "server") do_server(w[1], opts(w, 2));
  else if (c == "work") {
    // the loop listens before it waits: run until it does
    if (srvs[w[1]]->work_state == "running") { ev("busy"); return; }
    do_work(w[1]);
    if (w.size() < 3) { vs::quiet(); srvs[w[1]]->port = vs::last_listen_port(); ev("up " + w[1]); }
  }
  else if (c == "ensure") {
    Srv* s = srvs[w[1]];
    if (s->work_state != "running") { ev("restart"); do_work(w[1]); vs::quiet(); s->port = vs::last_listen_port(); }
  }
  else if (c == "join") {          // let threads run until the loop has returned, no longer
    Srv* s = srvs[w[1]];
    for (long i = 0; i < 100000 && s->work_state == "running"; ++i) vs::steps(1);
  }
  else if (c == "port") srvs[w[1]]->port = vs::last_listen_port();
  else if (c == "stop") { srvs[w[1]]->srv->set_exit_flag(); ev("stopped " + w[1]); }
  else if (c == "astop") { Srv* s = srvs[w[1]]; S n = w[1], x = w[2]; actor("stop" + w[2], [s, n, x] { ev("stopbeg " + x); s->srv->set_exit_flag(); ev("stopend " + x); }); }
  else if (c == "ainterrupt") { Srv* s = srvs[w[1]]; actor("int" + w[2], [s] { s->srv->interrupt(); }); }
  else if (c == "dserver") { Srv* s = srvs[w[1]]; actor("dserver" + w[1], [s] { delete s->srv; s->srv = 0; ev("servergone"); }); }
  else if (c == "dpool") { Srv* s = srvs[w[1]]; actor("dpool" + w[1], [s] { s->ef.reset(); s->pool_gone = true; ev("poolgone"); }); }
  else if (c == "aaddthreads") { Srv* s = srvs[w[1]]; long n = num(w[2]); actor("add" + w[3], [s, n] { static_cast<Pool_executor_factory*>(s->ef.get())->add_threads(n); }); }
  else if (c == "addthreads") { Srv* s = srvs[w[1]]; static_cast<Pool_executor_factory*>(s->ef.get())->add_threads(num(w[2])); }
  else if (c == "reg") srvs[w[1]]->srv->register_method(unhex(w[2]), new HFactory(w[3]));
  else if (c == "disp") { std::vector<S> n; if (w.size() > 3) for (auto& x : split(w[3], ',')) n.push_back(unhex(x)); srvs[w[1]]->srv->push_dispatcher(new HDispatcher(w[2], n)); }
  else if (c == "intro") srvs[w[1]]->srv->enable_introspection();
  else if (c == "icpt") srvs[w[1]]->srv->push_interceptor(new HInterceptor(w[2], w[3]));
  else if (c == "max") srvs[w[1]]->srv->set_max_request_sz(num(w[2]));
  else if (c == "strict") srvs[w[1]]->srv->set_verification_level(num(w[2]) ? http::HTTP_CHECK_STRICT : http::HTTP_CHECK_WEAK);
  // ---- raw client peers
  else if (c == "open") {          // open <id> <server> [deny] [tls[:cert]] [cut=n] [rcvbuf=n]
    Opt o = opts(w, 3);
    Peer* p = new Peer; p->id = num(w[1]);
    // peers are told apart by their ports, so a port is not used twice in a scenario
    static std::set<int> used_ports;
    used_ports.insert(port_arg(w[2]));    // nor does a peer connect to itself
    std::vector<int> spare;
    sockaddr_in sa;
    for (;;) {
      p->fd = vs::real::socket(AF_INET, SOCK_STREAM, 0);
      memset(&sa, 0, sizeof sa);
      sa.sin_family = AF_INET; sa.sin_addr.s_addr = inet_addr(("127.0.0." + std::to_string(1 + p->id % 3)).c_str());
      if (vs::real::bind(p->fd, (sockaddr*)&sa, sizeof sa) != 0) {
        sa.sin_addr.s_addr = inet_addr("127.0.0.1");
        vs::real::bind(p->fd, (sockaddr*)&sa, sizeof sa);
      }
      socklen_t sl = sizeof sa; getsockname(p->fd, (sockaddr*)&sa, &sl);
      p->port = ntohs(sa.sin_port);
      if (used_ports.insert(p->port).second || spare.size() > 200) break;
      spare.push_back(p->fd);
    }
    for (size_t i = 0; i < spare.size(); ++i) vs::real::close(spare[i]);
    vs::own(p->fd);
    if (o.count("rcvbuf")) { int b = num(o["rcvbuf"]); setsockopt(p->fd, SOL_SOCKET, SO_RCVBUF, &b, sizeof b); }
    peers[p->id] = p;
    hosts[p->port] = inet_ntoa(sa.sin_addr);
    denied_ports.erase(p->port);
    if (o.count("deny")) denied_ports[p->port] = 1;
    if (o.count("cap") || o.count("budget")) vs::conn_limit(p->port, o.count("cap") ? num(o["cap"]) : -1, o.count("budget") ? num(o["budget"]) : -1);
    sa.sin_addr.s_addr = inet_addr("127.0.0.1");
    sa.sin_port = htons(port_arg(w[2]));
    nonblock(p->fd);
    int r = vs::real::connect(p->fd, (sockaddr*)&sa, sizeof sa);
    if (r != 0 && errno == EINPROGRESS) {
      pollfd pf = { p->fd, POLLOUT, 0 }; vs::real::poll(&pf, 1, 500);
      int e = 0; socklen_t el = sizeof e; getsockopt(p->fd, SOL_SOCKET, SO_ERROR, &e, &el);
      r = e ? -1 : 0; errno = e;
    }
    ev("open " + w[1] + " " + std::to_string(p->port) + " " + (r == 0 ? "ok" : "fail"));
    if (o.count("tls")) {
      p->tls.reset(new TlsPeer(false, o["tls"] == "1" ? "" : tls_cert_dir + "/" + o["tls"], false, o.count("v12") ? 12 : 0, o.count("resume") > 0));
      if (o.count("cut")) p->tls_cut = num(o["cut"]);
      if (!o.count("lazy")) { p->tls->start(); tls_pump(p); }
    }
  }
  else if (c == "tlssave") { Peer* p = peers[num(w[1])]; p->tls->save(); }
  else if (c == "tlsresumed") { Peer* p = peers[num(w[1])]; ev("resumed " + w[1] + " " + (p->tls->resumed() ? "1" : "0")); }
  else if (c == "tlskey") { Peer* p = peers[num(w[1])]; if (p->fd >= 0) { p->tls->new_key(); tls_pump(p); } }
  else if (c == "tlsstart") { Peer* p = peers[num(w[1])]; p->tls->start(); tls_pump(p); }
  else if (c == "tx") {
    Peer* p = peers[num(w[1])];
    if (p->fd >= 0) {
      if (p->tls) { p->tls->send_plain(unhex(w[2])); tls_pump(p); } else raw_send(p, unhex(w[2]));
    }
  }
  else if (c == "txraw") { Peer* p = peers[num(w[1])]; if (p->fd >= 0) raw_send(p, unhex(w[2])); }
  else if (c == "tlsclose") { Peer* p = peers[num(w[1])]; if (p->fd >= 0) { p->tls->shutdown(); tls_pump(p); } }
  else if (c == "fin") { Peer* p = peers[num(w[1])]; if (p->fd >= 0) vs::real::shutdown(p->fd, SHUT_WR); }
  else if (c == "close") close_peer(peers[num(w[1])], false);
  else if (c == "rst") close_peer(peers[num(w[1])], true);
  else if (c == "pause") peers[num(w[1])]->paused = true;
  else if (c == "resume") peers[num(w[1])]->paused = false;
  else if (c == "cap") vs::conn_limit(peers[num(w[1])]->port, num(w[2]), w.size() > 3 ? num(w[3]) : -1);
  else if (c == "budget") vs::conn_budget_add(peers[num(w[1])]->port, num(w[2]));
  else if (c == "ccap") vs::lib_limit(num(w[1]));
  else if (c == "run") run();
  else if (c == "steps") vs::steps(num(w[1]));
  else if (c == "tick") { vs::advance(num(w[1])); }
  else if (c == "eintr") vs::set_eintr(num(w[1]));
  else if (c == "failaccept") vs::fail_accept(num(w[1]));
  else if (c == "release") vs::gate_open(w[1]);
  else if (c == "fds") ev("fds " + std::to_string(vs::lib_fds()) + " listen=" + std::to_string(vs::listening()) + " " + vs::lib_fd_list());
  else if (c == "objs") ev("objs live=" + std::to_string(m_live) + " made=" + std::to_string(m_made));
  else if (c == "mark") ev(line);
  else if (c == "threads") ev("threads " + std::to_string(vs::lib_threads()));
  else if (c == "opps") ev("opps " + std::to_string(vs::opportunities()));
  // ---- scripted server peers
  else if (c == "listen") {        // listen <id> [tls=cert] [reqcert]
    Opt o = opts(w, 2);
    Peer* p = new Peer; p->id = num(w[1]); p->listener = true;
    p->fd = bound(0);
    sockaddr_in sa; socklen_t sl = sizeof sa;
    getsockname(p->fd, (sockaddr*)&sa, &sl); p->port = ntohs(sa.sin_port);
    if (!o.count("nolisten")) vs::real::listen(p->fd, 20);
    else p->refuse = true;
    if (o.count("tls")) { p->tls_server = true; p->tls.reset(new TlsPeer(true, tls_cert_dir + "/" + o["tls"], o.count("reqcert") > 0)); if (o.count("cut")) p->tls_cut = num(o["cut"]); }
    if (o.count("tun")) { p->tun = num(o["tun"]); p->tun_cert = tls_cert_dir + "/a"; if (o.count("cut")) p->tun_cut = num(o["cut"]); }
    peers[p->id] = p;
    ev("lport " + w[1] + " " + std::to_string(p->port));
  }
  // what a scripted server does on the connection it last heard from
  else if (c == "lans" || c == "lfin" || c == "lclose" || c == "lrst" || c == "ltlsclose") {
    Peer* p = 0;
    for (auto& kv : peers) if (kv.second->lid == num(w[1]) && kv.second->fd >= 0 && !(c == "lans" && kv.second->tun) && (!p || kv.second->last > p->last)) p = kv.second;
    ev("lact " + w[1] + " " + (p ? std::to_string(p->id) : S("-")));
    if (p) {
      if (c == "lans") { if (p->tls) { p->tls->send_plain(unhex(w[2])); tls_pump(p); } else raw_send(p, unhex(w[2])); }
      else if (c == "lfin") vs::real::shutdown(p->fd, SHUT_WR);
      else if (c == "ltlsclose") { if (p->tls) { p->tls->shutdown(); tls_pump(p); } vs::real::shutdown(p->fd, SHUT_WR); }
      else close_peer(p, c == "lrst");
    }
  }
  else if (c == "lpause" || c == "lresume") { for (auto& kv : peers) if (kv.second->lid == num(w[1]) || kv.second->id == num(w[1])) kv.second->paused = c == "lpause"; }
  else if (c == "ldown") { Peer* p = peers[num(w[1])]; close_peer(p, false); p->fd = bound(p->port); }
  else if (c == "free") { Peer* p = peers[num(w[1])]; close_peer(p, false); }
  else if (c == "lup") { Peer* p = peers[num(w[1])]; if (vs::real::listen(p->fd, 20) != 0) ev("cmdexc lup"); }
  else if (c == "conhang") vs::hang_connect(true);
  else if (c == "congo") vs::hang_connect(false);
  // ---- library clients
  else if (c == "client") {        // client <k> http|https <port> uri=<hex> vhost=<hex> [ka] [to=n] [auth=u:p hex] [proxy=port] [xh=..]
    Opt o = opts(w, 4);
    Cli* k = new Cli; clis[w[1]] = k;
    iqnet::Inet_addr a("127.0.0.1", port_arg(w[3]));
    S uri = o.count("uri") ? unhex(o["uri"]) : "/RPC", vh = o.count("vhost") ? unhex(o["vhost"]) : "";
    if (w[2] == "http") k->c.reset(new Client<Http_client_connection>(a, uri, vh));
    else k->c.reset(new Client<Https_client_connection>(a, uri, vh));
  }
  else if ((c == "cset" || c == "call" || c == "dclient") && clis[w[1]]->busy) ev("busy");    // one call at a time
  else if (c == "cset") {          // cset <k> opt=val
    Opt o = opts(w, 2); Client_base& k = *clis[w[1]]->c;
    if (o.count("ka")) k.set_keep_alive(o["ka"] == "1");
    if (o.count("to")) k.set_timeout(num(o["to"]));
    if (o.count("auth")) { auto v = split(o["auth"] + ":", ':'); k.set_authinfo(unhex(v[0]), unhex(v[1])); }
    if (o.count("proxy")) k.set_proxy(iqnet::Inet_addr("127.0.0.1", port_arg(o["proxy"])));
    if (o.count("xm")) k.set_xheaders(xheaders_map(o["xm"]));
    if (o.count("xh")) {
      try { k.set_xheaders(xheaders_of(o["xh"])); ev("xhset " + w[1] + " ok"); }
      catch (const std::exception& e) { ev("xhset " + w[1] + " exc"); }
    }
  }
  else if (c == "call") { Opt o = opts(w, 5); do_call(w[1], w[2], unhex(w[3]), w[4], o.count("xh") ? o["xh"] : o.count("xm") ? o["xm"] : "", o.count("xm") > 0, o.count("one") > 0); }
  else if (c == "dclient") { Cli* k = clis[w[1]]; actor("dclient" + w[1], [k] { k->c.reset(); }); }
  // ---- TLS context
  else if (c == "tlsctx") {        // tlsctx server|client|both cert=.. vs=policy vc=policy req=0|1
    Opt o = opts(w, 2);
    delete iqnet::ssl::ctx; iqnet::ssl::ctx = 0;
    S b = tls_cert_dir + "/" + (o.count("cert") ? o["cert"] : "a");
    if (w[1] == "server") iqnet::ssl::ctx = iqnet::ssl::Ctx::server_only(b + ".crt", b + ".key");
    else if (w[1] == "client") iqnet::ssl::ctx = iqnet::ssl::Ctx::client_only();
    else iqnet::ssl::ctx = iqnet::ssl::Ctx::client_server(b + ".crt", b + ".key");
    if (o.count("vs")) { v_srv = new HVerifier; v_srv->id = "server"; v_srv->policy = o["vs"]; iqnet::ssl::ctx->verify_server(v_srv); }
    if (o.count("vc")) { v_cli = new HVerifier; v_cli->id = "client"; v_cli->policy = o["vc"]; iqnet::ssl::ctx->verify_client(o["req"] == "1", v_cli); }
  }
  else if (c == "tlsver") {        // another verifier in the same context
    Opt o = opts(w, 1);
    if (o.count("vs")) { v_srv = new HVerifier; v_srv->id = "server"; v_srv->policy = o["vs"]; iqnet::ssl::ctx->verify_server(o["vs"] == "none" ? 0 : v_srv); }
    if (o.count("vc")) { v_cli = new HVerifier; v_cli->id = "client"; v_cli->policy = o["vc"]; iqnet::ssl::ctx->verify_client(o["req"] == "1", o["vc"] == "none" ? 0 : v_cli); }
  }
  else if (c == "slog") srvs[w[1]]->srv->log_errors(w[2] == "on" ? &srvs[w[1]]->log : 0);
  else if (!reactor_command(w) && !addr_command(w) && !par_command(w)) { ev("badcmd " + line); }
}

static void run_scenario(const std::vector<S>& lines, long settle)
{
  vcfg.settle_us = settle;
  vs::start(vcfg);
  __sanitizer_set_death_callback(flush_out);
  int no = 0;
  for (auto& l : lines) {
    if (l.empty()) continue;
    ev("# " + std::to_string(no++));
    try { command(l); }
    catch (...) { S w; long c; S k = exc_class(w, c); ev("cmdexc " + k + " " + hex(w) + " " + split(l, ' ')[0]); }
  }
  flush_out();
}


static void on_alarm(int) { static const char m[] = "watchdog\n"; flush_out(); vs::real::write(out_fd, m, sizeof m - 1); _exit(97); }

int main(int argc, char** argv)
{
  if (argc < 4) { fprintf(stderr, "usage: iqhost scenarios outprefix jobs [settle_us]\n"); return 2; }
  signal(SIGPIPE, SIG_IGN);
  std::ifstream in(argv[1]);
  S prefix = argv[2];
  int jobs = atoi(argv[3]);
  long settle = argc > 4 ? atol(argv[4]) : 60;
  const char* cd = getenv("IQ_CERTS"); tls_cert_dir = cd ? cd : ".";
  std::vector<std::pair<S, std::vector<S>>> sc;
  S l;
  while (std::getline(in, l)) {
    if (l.compare(0, 3, "#S ") == 0) sc.push_back({l.substr(3), {}});
    else if (!sc.empty() && !l.empty()) sc.back().second.push_back(l);
  }
  // static partition over worker processes, each forking one child per scenario
  std::vector<pid_t> ws;
  for (int j = 0; j < jobs; ++j) {
    pid_t w = fork();
    if (w) { ws.push_back(w); continue; }
    cpu_set_t cs; CPU_ZERO(&cs);
    long ncpu = sysconf(_SC_NPROCESSORS_ONLN);
    CPU_SET(j % ncpu, &cs); sched_setaffinity(0, sizeof cs, &cs);
    S on = prefix + "." + std::to_string(j);
    out_fd = open(on.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
    int err = open((on + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
    dup2(err, 2); dup2(err, 1); vs::real::close(err);
    for (size_t i = j; i < sc.size(); i += jobs) {
      ev("BEGIN " + sc[i].first); flush_out();
      pid_t c = fork();
      if (!c) {
        vs::own(0); vs::own(1); vs::own(2); vs::own(out_fd);
        for (int fd = 3; fd < 64; ++fd) if (fcntl(fd, F_GETFD) != -1) vs::own(fd);
        struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
        signal(SIGALRM, on_alarm); alarm(25);
        run_scenario(sc[i].second, settle);
        _exit(0);
      }
      int st = 0;
      waitpid(c, &st, 0);
      S s = WIFEXITED(st) ? "exit" + std::to_string(WEXITSTATUS(st)) : "sig" + std::to_string(WTERMSIG(st));
      ev("END " + sc[i].first + " " + s); flush_out();
    }
    _exit(0);
  }
  int bad = 0;
  for (auto w : ws) { int st; waitpid(w, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = 1; }
  return bad;
}
