#include <libiqxmlrpc/reactor_impl.h>
#include <deque>
// Commands for reactors with handlers of their own (in scenarios of E01).
//   rnew mutex|null                    a reactor
//   rh <i> [catch] [stop] [rpipe|wpipe] handler i on a socket or an end of a pipe of its own
//   rprog <i> <act,act,...>            what handler i does in its next call not yet provided for
//   rop reg|unreg|fake.<i>.in|out, unregall.<i>, data|hup|fill|drain.<i>
//   rwait <ms>, rlate                  wait once; let the time of a wait run out
struct RHand;
struct RState { RHand* h = 0; int fd = -1, peer = -1; bool over = false, pipe = false; std::deque<S> progs; bool catches = false, stop = false; };
static std::map<S, RState> rs;
static iqnet::Reactor_base* rr = 0;
static bool r_waiting = false; static long r_ms = 0;
static void r_act(const S& a);
static long r_put(const RState& r, int fd, const char* b, size_t n) { return r.pipe ? syscall(SYS_write, fd, b, n) : vs::real::send(fd, b, n, MSG_NOSIGNAL | MSG_DONTWAIT); }
static long r_get(const RState& r, int fd, char* b, size_t n) { return r.pipe ? syscall(SYS_read, fd, b, n) : vs::real::recv(fd, b, n, MSG_DONTWAIT); }
struct RThrow: std::runtime_error { RThrow(): std::runtime_error("handler") {} };

struct RHand: iqnet::Event_handler {
  S id; int fd; bool c, s;
  RHand(const S& i, RState& r): id(i), fd(r.fd), c(r.catches), s(r.stop) {}
  bool is_stopper() const { return s; }
  bool catch_in_reactor() const { return c; }
  iqnet::Socket::Handler get_handler() const { return fd; }
  void log_exception(const std::exception&) { ev("r log " + id + " std"); }
  void log_unknown_exception() { ev("r log " + id + " unk"); }
  void finish() { ev("r fin " + id); RState& r = rs[id]; r.over = true; r.h = 0; delete this; }
  void handle_input(bool& t) { called("in", t); }
  void handle_output(bool& t) { called("out", t); }
  void called(const char* e, bool& t)
  {
    ev("r call " + id + " " + e);
    RState& r = rs[id];
    S p = r.progs.empty() ? S("") : r.progs.front();
    if (!r.progs.empty()) r.progs.pop_front();
    for (auto& a : split(p, ',')) {
      if (a == "term") { t = true; ev("r end " + id + " term"); return; }
      if (a == "std") { ev("r end " + id + " std"); throw RThrow(); }
      if (a == "unk") { ev("r end " + id + " unk"); throw 42; }
      if (a == "read") { char b; ev("r read " + id); r_get(r, fd, &b, 1); }
      else if (!a.empty()) r_act(a);
    }
    ev("r end " + id + " ok");
  }
};

static void r_act(const S& a)
{
  auto v = split(a, '.');
  RState& r = rs[v[1]];
  if (r.over) return;
  iqnet::Reactor_base::Event_mask m = v.size() > 2 && v[2] == "out" ? iqnet::Reactor_base::OUTPUT : iqnet::Reactor_base::INPUT;
  S l = "r " + v[0] + " " + v[1] + (v.size() > 2 ? " " + v[2] : S(""));
  if (v[0] == "reg") { ev(l); rr->register_handler(r.h, m); }
  else if (v[0] == "unreg") { ev(l); rr->unregister_handler(r.h, m); }
  else if (v[0] == "unregall") { ev(l); rr->unregister_handler(r.h); }
  else if (v[0] == "fake") { ev(l); rr->fake_event(r.h, m); }
  else if (v[0] == "data") { if (r.peer < 0) return; ev(l); if (r_put(r, r.peer, "x", 1) != 1) ev("cmdexc data"); }
  else if (v[0] == "hup") { if (r.peer < 0) return; ev(l); vs::real::close(r.peer); r.peer = -1; }
  else if (v[0] == "fill") { if (r.peer < 0) return; ev(l); char b[4096] = {}; while (r_put(r, r.fd, b, sizeof b) > 0) {} while (r_put(r, r.fd, b, 1) > 0) {} }
  else if (v[0] == "drain") { if (r.peer < 0) return; ev(l); char b[4096]; while (r_get(r, r.peer, b, sizeof b) > 0) {} }
  else ev("badcmd " + a);
}

static bool reactor_command(const std::vector<S>& w)
{
  const S& c = w[0];
  if (c == "rnew") {
    if (w[1] == "null") rr = new iqnet::Reactor<iqnet::Null_lock>; else rr = new iqnet::Reactor<boost::mutex>;
  }
  else if (c == "rh") {
    RState& r = rs[w[1]];
    int p[2];
    S kind = "sock";
    for (size_t i = 2; i < w.size(); ++i) if (w[i] == "rpipe" || w[i] == "wpipe") kind = w[i];
    if ((kind == "sock" ? socketpair(AF_UNIX, SOCK_STREAM, 0, p) : pipe2(p, O_NONBLOCK)) != 0) { ev("cmdexc socketpair"); return true; }
    r.fd = p[kind == "wpipe"]; r.peer = p[kind != "wpipe"]; r.pipe = kind != "sock";
    for (size_t i = 2; i < w.size(); ++i) { if (w[i] == "catch") r.catches = true; if (w[i] == "stop") r.stop = true; }
    r.h = new RHand(w[1], r);
    ev("r new " + w[1] + (r.stop ? " 1" : " 0") + (r.catches ? " 1 " : " 0 ") + kind);
  }
  else if (c == "rprog") rs[w[1]].progs.push_back(w.size() > 2 ? w[2] : S(""));
  else if (c == "rop") { S a = w[1]; vs::spawn([a] { r_act(a); }); vs::quiet(); }
  else if (c == "rwait") {
    if (r_waiting) return true;
    r_waiting = true; r_ms = num(w[1]);
    ev("r wait " + w[1]);
    vs::spawn([] {
      S x;
      try { x = rr->handle_events(r_ms) ? "1" : "0"; }
      catch (const iqnet::Reactor_base::No_handlers&) { x = "nohandlers"; }
      catch (const RThrow&) { x = "std"; }
      catch (int) { x = "unk"; }
      catch (const std::exception& e) { x = S("other:") + e.what(); }
      r_waiting = false;
      ev("r wret " + x);
    });
    vs::quiet();
  }
  else if (c == "reintr") { ev("r eintr " + w[1]); vs::set_eintr(num(w[1])); }
  else if (c == "rlate") { if (r_waiting && r_ms > 0) { ev("r late"); vs::advance(r_ms); vs::quiet(); } }
  else return false;
  return true;
}
