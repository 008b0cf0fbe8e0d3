// Commands running programs of independent threads (P01).
//   pstep <s> <kind> <arg>    a step
//   prun <u> <s,s,...> [server]  a thread of its own doing these steps with objects of its own
#include <libiqxmlrpc/request.h>
#include <libiqxmlrpc/response.h>
#include <libiqxmlrpc/xheaders.h>

struct PStep { S kind, arg; };
static std::map<S, PStep> p_steps;

static S p_do(const PStep& p, Client_base* cl)
{
  const S& k = p.kind;
  if (k == "enc") { std::unique_ptr<Binary_data> b(Binary_data::from_data(unhex(p.arg))); return hex(b->get_base64()) + "." + hex(b->get_data()); }
  if (k == "dec") { std::unique_ptr<Binary_data> b(Binary_data::from_base64(unhex(p.arg))); return hex(b->get_data()); }
  if (k == "date") { Date_time d(unhex(p.arg)); Date_time e(&d.get_tm()); return hex(d.to_string() + e.to_string()); }
  if (k == "val") { Value v(vt::parse(p.arg)); Value w(v); Array a; a.push_back(v); a.push_back(w); Value x(a); v = x; return hex(vt::dump(v) + vt::dump(w)); }
  if (k == "dreq") { Param_list l; l.push_back(vt::parse(p.arg)); l.push_back(vt::parse(p.arg)); Request r("m", l); return hex(dump_request(r)); }
  if (k == "drsp") { Response r(new Value(vt::parse(p.arg))); return hex(dump_response(r)); }
  if (k == "dflt") { Response r(atoi(p.arg.c_str()), "fault " + p.arg); return hex(dump_response(r)); }
  if (k == "preq") {
    std::unique_ptr<Request> r(parse_request(unhex(p.arg)));
    S t = r->get_name();
    for (size_t i = 0; i < r->get_params().size(); ++i) t += " " + vt::dump(r->get_params()[i]);
    return hex(t);
  }
  if (k == "prsp") { Response r(parse_response(unhex(p.arg))); return hex(r.is_fault() ? std::to_string(r.fault_code()) + r.fault_string() : vt::dump(r.value())); }
  if (k == "xh") {
    XHeaders x; std::map<S, S> m; m["X-" + p.arg] = p.arg; x = m; x["x-Two"] = p.arg;
    S t; for (auto i = x.begin(); i != x.end(); ++i) t += i->first + "=" + i->second + ";";
    return hex(t);
  }
  if (k == "call") { Response r = cl->execute("m", Value(p.arg)); return r.is_fault() ? "fault" : hex(r.value().get_string()); }
  throw std::logic_error("step " + k);
}

static bool par_command(const std::vector<S>& w)
{
  const S& c = w[0];
  if (c == "pstep") { PStep p; p.kind = w[2]; p.arg = w.size() > 3 ? w[3] : ""; p_steps[w[1]] = p; }
  else if (c == "prun") {
    S u = w[1]; std::vector<S> ss = split(w[2], ',');
    int port = w.size() > 3 ? port_arg(w[3]) : 0;
    ev("p begin " + u);
    vs::spawn([=] {
      std::unique_ptr<Client_base> cl;
      if (port) { cl.reset(new Client<Http_client_connection>(iqnet::Inet_addr("127.0.0.1", port))); cl->set_keep_alive(ss.size() > 1); }
      for (const S& s : ss) {
        S r;
        try { r = "ok " + p_do(p_steps[s], cl.get()); }
        catch (const std::exception& e) { r = "exc " + hex(e.what()); }
        ev("p did " + u + " " + s + " " + r);
      }
      cl.reset();
      ev("p end " + u);
    });
  }
  else return false;
  return true;
}
