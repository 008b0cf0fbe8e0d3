// Commands working on address objects and names (N01).
//   aname <hexname> <answer,...>   what lookups of a name answer: an IP address or "fail"; the last one repeats
//   anew <o> <hexname> <port|pick> an address object
//   acopy <o> <of>
//   ause <u> <o> sock|call         in a thread of its own
//   awork <u> <o>                  serve on the address, then stop
#include <libiqxmlrpc/net_except.h>

struct AName { std::vector<S> answers; size_t n = 0; };
static std::map<S, AName> a_names;
static std::map<S, iqnet::Inet_addr*> a_objs;
static std::map<S, Client_base*> a_clis;
static std::map<S, Srv*> a_srvs;

static bool a_resolve(const S& name, S& ip)
{
  auto i = a_names.find(name);
  if (i == a_names.end()) return false;
  AName& a = i->second;
  S x = a.answers[std::min(a.n, a.answers.size() - 1)];
  ++a.n;
  ev("a look " + hex(name) + " " + x);
  ip = x == "fail" ? S() : x;
  return true;
}

static int pick_port()
{
  int fd = vs::real::socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in sa; memset(&sa, 0, sizeof sa); sa.sin_family = AF_INET;
  vs::real::bind(fd, (sockaddr*)&sa, sizeof sa);
  socklen_t sl = sizeof sa; getsockname(fd, (sockaddr*)&sa, &sl);
  vs::real::close(fd);
  return ntohs(sa.sin_port);
}

static void a_got(const S& u, int fam, const S& ip, int port)
{
  ev("a got " + u + " " + std::to_string(fam) + " " + ip + " " + std::to_string(port));
}

static bool addr_command(const std::vector<S>& w)
{
  const S& c = w[0];
  if (c == "aname") { vs::resolver = a_resolve; a_names[unhex(w[1])].answers = split(w[2], ','); }
  else if (c == "anew") {
    int port = w[3] == "pick" ? pick_port() : port_arg(w[3]);
    if (w[2] == "-") a_objs[w[1]] = new iqnet::Inet_addr(port);
    else a_objs[w[1]] = new iqnet::Inet_addr(unhex(w[2]), port);
    ev("a new " + w[1] + " " + w[2] + " " + std::to_string(port) + " " +
       (hex(a_objs[w[1]]->get_host_name()) == (w[2] == "-" ? hex("0.0.0.0") : w[2]) && a_objs[w[1]]->get_port() == port ? "1" : "0"));
  }
  else if (c == "acopy") { a_objs[w[1]] = new iqnet::Inet_addr(*a_objs[w[2]]); ev("a copy " + w[1] + " " + w[2]); }
  else if (c == "ause") {
    S u = w[1], o = w[2], k = w[3];
    iqnet::Inet_addr* a = a_objs[o];
    if (k == "call" && !a_clis[o]) a_clis[o] = new Client<Http_client_connection>(*a);
    Client_base* cl = a_clis[o];
    ev("a use " + u + " " + o);
    vs::spawn([=] {
      try {
        if (k == "call") {
          Response r = cl->execute("m", Value(u));
          if (r.is_fault() || r.value().get_string() != u) ev("a bad " + u); else a_got(u, 2, "127.0.0.1", a->get_port());
        } else {
          const sockaddr_in* s = a->get_sockaddr();
          a_got(u, s->sin_family, inet_ntoa(s->sin_addr), ntohs(s->sin_port));
        }
      }
      catch (const iqnet::network_error& e) { ev("a err " + u + " " + hex(e.what())); }
      catch (const std::exception& e) { ev("a bad " + u + " " + hex(e.what())); }
    });
  }
  else if (c == "awork") {
    S u = w[1], o = w[2], n = "W" + w[2];
    if (!a_srvs[o]) {
      Srv* s = a_srvs[o] = new Srv;
      s->ef.reset(new Serial_executor_factory);
      s->srv = new Http_server(*a_objs[o], s->ef.get());
    }
    Srv* s = a_srvs[o];
    ev("a use " + u + " " + o);
    s->work_state = "running";
    vs::spawn([s, u] {
      try { s->srv->work(); s->work_state = "returned"; }
      catch (const iqnet::network_error& e) { s->work_state = "threw"; ev("a err " + u + " " + hex(e.what())); }
      catch (const std::exception& e) { s->work_state = "threw"; ev("a bad " + u + " " + hex(e.what())); }
    });
    vs::quiet();
    if (s->work_state == "running") {
      a_got(u, 2, vs::last_listen_ip(), vs::last_listen_port());
      s->srv->set_exit_flag();
      vs::quiet();
      if (s->work_state != "returned") ev("a bad " + u);
    }
  }
  else return false;
  return true;
}
