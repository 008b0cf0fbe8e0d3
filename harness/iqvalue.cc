// Runs scripts of operations on values, documents and codecs of the library and prints what they give.
//   iqvalue <script> <output prefix> <processes> [unused]
#include "libiqxmlrpc/libiqxmlrpc.h"
#include "libiqxmlrpc/request.h"
#include "libiqxmlrpc/response.h"
#include "libiqxmlrpc/value.h"
#include "libiqxmlrpc/value_type.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <sanitizer/common_interface_defs.h>
#include "valtext.h"

using namespace iqxmlrpc;
typedef std::string S;

extern "C" __attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc() {}

// ---- what the library allocates and opens
static long live = 0, io = 0;
static bool watch = false;
static S io_what;

void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++live; return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) --live; free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

static void touch(const char* what, const char* arg) { if (watch) { ++io; io_what = S(what) + ":" + (arg ? arg : ""); } }
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }

extern "C" {
int open(const char* p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); touch("open", p); static auto r = real<int (*)(const char*, int, ...)>("open"); return r(p, f, m); }
int open64(const char* p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); touch("open", p); static auto r = real<int (*)(const char*, int, ...)>("open64"); return r(p, f, m); }
int openat(int d, const char* p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); touch("openat", p); static auto r = real<int (*)(int, const char*, int, ...)>("openat"); return r(d, p, f, m); }
FILE* fopen(const char* p, const char* m) { touch("fopen", p); static auto r = real<FILE* (*)(const char*, const char*)>("fopen"); return r(p, m); }
FILE* fopen64(const char* p, const char* m) { touch("fopen", p); static auto r = real<FILE* (*)(const char*, const char*)>("fopen64"); return r(p, m); }
int stat(const char* p, struct stat* s) { touch("stat", p); static auto r = real<int (*)(const char*, struct stat*)>("stat"); return r(p, s); }
int access(const char* p, int m) { touch("access", p); static auto r = real<int (*)(const char*, int)>("access"); return r(p, m); }
int socket(int a, int b, int c) { touch("socket", ""); static auto r = real<int (*)(int, int, int)>("socket"); return r(a, b, c); }
int connect(int f, const sockaddr* s, socklen_t l) { touch("connect", ""); static auto r = real<int (*)(int, const sockaddr*, socklen_t)>("connect"); return r(f, s, l); }
}

// ---- output
static int out_fd = -1;
static S out_buf;
static void flush_out() { size_t o = 0; while (o < out_buf.size()) { ssize_t r = write(out_fd, out_buf.data() + o, out_buf.size() - o); if (r <= 0) break; o += r; } out_buf.clear(); }
static void ev(const S& s) { out_buf += s; out_buf += '\n'; }
static void on_alarm(int) { flush_out(); static const char m[] = "watchdog\n"; if (write(out_fd, m, sizeof m - 1)) {} _exit(97); }

static std::vector<S> split(const S& s, char c) { std::vector<S> r(1); for (char x : s) if (x == c) r.push_back(S()); else r.back() += x; return r; }

static S exc_class()
{
  try { throw; }
  catch (const Parse_error&) { return "parse"; }
  catch (const XML_RPC_violation&) { return "violation"; }
  catch (const Value::Bad_cast&) { return "cast"; }
  catch (const Array::Out_of_range&) { return "range"; }
  catch (const Struct::No_field&) { return "nofield"; }
  catch (const Binary_data::Malformed_base64&) { return "base64"; }
  catch (const Date_time::Malformed_iso8601&) { return "date"; }
  catch (const Exception&) { return "iq"; }
  catch (const std::exception&) { return "std"; }
  catch (...) { return "other"; }
}

static S params_text(const Param_list& l)
{
  S r = "[";
  for (size_t i = 0; i < l.size(); ++i) { if (i) r += ","; r += vt::dump(l[i]); }
  return r + "]";
}

// What a document parses to, and what that leaves behind.
static void parse_doc(bool req, const S& doc, const char* what)
{
  S res;
  io = 0; io_what.clear();
  long before = live, delta;
  {
    std::unique_ptr<Request> rq; std::unique_ptr<Response> rs;
    const char* cls = 0; S keep;
    try {
      watch = true;
      if (req) rq.reset(parse_request(doc)); else rs.reset(new Response(parse_response(doc)));
      watch = false;
    }
    catch (...) { watch = false; keep = exc_class(); cls = keep.c_str(); }
    if (cls) res = S("exc ") + cls;
    else if (req) res = "ok " + vt::hex(rq->get_name()) + " " + params_text(rq->get_params());
    else if (rs->is_fault()) res = "fault " + std::to_string(rs->fault_code()) + " " + vt::hex(rs->fault_string());
    else res = "ok " + vt::dump(rs->value());
  }
  S tmp; tmp.swap(res);
  delta = live - before - (tmp.capacity() > 15 ? 1 : 0) - (io_what.capacity() > 15 ? 1 : 0);
  ev(S(what) + " " + tmp + " | live=" + std::to_string(delta) + " io=" + std::to_string(io) + (io ? " " + vt::hex(io_what) : ""));
}

// ---- values
static std::map<int, Value*> vars;

// Members are named by a string or by characters, in turn.
static unsigned turn;
template <class V> static V& member(V& v, const S& n)
{
  if (++turn % 2 && n.find('\0') == S::npos) return v[n.c_str()];
  return v[n];
}

static Value& ref(const S& path)      // var[/i<index>|/f<hex name>]...
{
  std::vector<S> w = split(path, '/');
  Value* v = vars[atoi(w[0].c_str())];
  if (!v) throw std::logic_error("no variable");
  for (size_t i = 1; i < w.size(); ++i)
    v = w[i][0] == 'i' ? &(*v)[atoi(w[i].c_str() + 1)] : &member(*v, vt::unhex(w[i].substr(1)));
  return *v;
}
static const Value& cref(const S& path)
{
  std::vector<S> w = split(path, '/');
  const Value* v = vars[atoi(w[0].c_str())];
  if (!v) throw std::logic_error("no variable");
  for (size_t i = 1; i < w.size(); ++i)
    v = w[i][0] == 'i' ? &(*v)[atoi(w[i].c_str() + 1)] : &member(*v, vt::unhex(w[i].substr(1)));
  return *v;
}

static S tm_text(const struct tm& t)
{
  return std::to_string(t.tm_year + 1900) + " " + std::to_string(t.tm_mon + 1) + " " + std::to_string(t.tm_mday) + " " +
         std::to_string(t.tm_hour) + " " + std::to_string(t.tm_min) + " " + std::to_string(t.tm_sec);
}

static S get_as(const Value& v, const S& t)
{
  if (t == "int") return "i" + std::to_string(v.get_int());
  if (t == "int64") return "l" + std::to_string((long long)v.get_int64());
  if (t == "bool") return v.get_bool() ? "T" : "F";
  if (t == "double") return vt::dump(Value(v.get_double()));
  if (t == "string") return "s" + vt::hex(v.get_string());
  if (t == "binary") return "b" + vt::hex(v.get_binary().get_data());
  if (t == "datetime") return "D" + v.get_datetime().to_string();
  if (t == "array") return vt::dump(Value(v.the_array()));
  if (t == "struct") return vt::dump(Value(v.the_struct()));
  if (t == "cint") return "i" + std::to_string((int)v);
  if (t == "cint64") return "l" + std::to_string((long long)(int64_t)v);
  if (t == "cbool") return (bool)v ? "T" : "F";
  if (t == "cdouble") return vt::dump(Value((double)v));
  if (t == "cstring") return "s" + vt::hex((std::string)v);
  if (t == "cbinary") return "b" + vt::hex(((Binary_data)v).get_data());
  if (t == "ctm") {
    struct tm m = v; char b[64];
    snprintf(b, sizeof b, "D%04d%02d%02dT%02d:%02d:%02d", m.tm_year + 1900, m.tm_mon + 1, m.tm_mday, m.tm_hour, m.tm_min, m.tm_sec);
    return b;
  }
  if (t == "iter") { S r; for (Array::const_iterator i = v.arr_begin(), e = v.arr_end(); !(i == e);) { const Value* p = i.operator->(); r += (r.empty() ? "" : ",") + vt::dump(*p); i++; } return "[" + r + "]"; }
  if (t == "elems") { const Array& a = v.the_array(); S r; for (unsigned i = 0; i < a.size(); ++i) r += (i ? "," : "") + vt::dump(a[i]); return "[" + r + "]"; }
  if (t == "fields") {
    const Struct& s = v.the_struct(); S r;
    for (Struct::const_iterator i = s.begin(); i != s.end(); ++i) { if (!s.has_field(i->first)) return "?"; r += (r.empty() ? "" : ",") + vt::hex(i->first) + "=" + vt::dump(s[i->first]); }
    return "{" + r + "}";
  }
  if (t == "print") { std::ostringstream o; print_value(v, o); if (o.str().empty()) return "?"; return vt::dump(v); }
  if (t == "size") return std::to_string(v.size());
  if (t == "ssize") return std::to_string(v.the_struct().size());
  if (t == "type") return v.type_name();
  if (t == "kinds") {
    S r;
    if (v.is_nil()) r += "n"; if (v.is_int()) r += "i"; if (v.is_int64()) r += "l"; if (v.is_bool()) r += "t"; if (v.is_double()) r += "d";
    if (v.is_string()) r += "s"; if (v.is_binary()) r += "b"; if (v.is_datetime()) r += "D"; if (v.is_array()) r += "a"; if (v.is_struct()) r += "m";
    return r;
  }
  if (t[0] == 'h') return v.has_field(vt::unhex(t.substr(1))) ? "T" : "F";
  return "?";
}

static S value_op(const std::vector<S>& w)
{
  const S& o = w[1];
  int k = atoi(w[2].c_str());
  if (o == "set") { delete vars[k]; vars[k] = 0; vars[k] = new Value(vt::parse(w[3])); }
  else if (o == "del") { Value* v = vars[k]; vars[k] = 0; delete v; }
  else if (o == "copy") { Value* v = new Value(cref(w[3])); delete vars[k]; vars[k] = v; }
  else if (o == "asg") ref(w[2]) = ref(w[3]);
  else if (o == "lit") ref(w[2]) = vt::parse(w[3]);
  else if (o == "push") ref(w[2]).push_back(ref(w[3]));
  else if (o == "pushp") { Value_ptr p(new Value(ref(w[3]))); ref(w[2]).the_array().push_back(p); }
  else if (o == "ins") ref(w[2]).insert(vt::unhex(w[3]), ref(w[4]));
  else if (o == "insp") { Value_ptr p(new Value(ref(w[4]))); ref(w[2]).the_struct().insert(vt::unhex(w[3]), p); }
  else if (o == "erase") ref(w[2]).the_struct().erase(vt::unhex(w[3]));
  else if (o == "aclear") ref(w[2]).the_array().clear();
  else if (o == "sclear") ref(w[2]).the_struct().clear();
  else if (o == "aasg") ref(w[2]).the_array() = ref(w[3]).the_array();
  else if (o == "sasg") ref(w[2]).the_struct() = ref(w[3]).the_struct();
  else if (o == "aswap") { Array& a = ref(w[2]).the_array(); Array& b = ref(w[3]).the_array(); a.swap(b); }
  else if (o == "sswap") { Struct& a = ref(w[2]).the_struct(); Struct& b = ref(w[3]).the_struct(); a.swap(b); }
  else if (o == "assign") { const Array& a = ref(w[3]).the_array(); ref(w[2]).the_array().assign(a.begin(), a.end()); }
  else if (o == "acopy") { Array a(ref(w[3]).the_array()); Value* v = new Value(a); a.clear(); delete vars[k]; vars[k] = v; }
  else if (o == "scopy") { Struct a(ref(w[3]).the_struct()); Value* v = new Value(a); a.clear(); delete vars[k]; vars[k] = v; }
  else if (o == "get") return get_as(cref(w[2]), w[3]);
  else if (o == "mget") return get_as(ref(w[2]), w[3]);
  else if (o == "find") { const Struct& s = cref(w[2]).the_struct(); Struct::const_iterator i = s.find(vt::unhex(w[3])); return i == s.end() ? "-" : vt::dump(*i->second); }
  else if (o == "back") { const Value& v = cref(w[2]); S r; Array::const_iterator i = v.arr_end(); while (i != v.arr_begin()) { --i; r += vt::dump(*i) + ";"; } return r; }
  else return "badop";
  return "-";
}

static S all_vars()
{
  S r;
  for (auto& kv : vars) r += " " + (kv.second ? vt::dump(*kv.second) : S("-"));
  return r;
}

static void command(const S& line)
{
  std::vector<S> w = split(line, ' ');
  const S& c = w[0];
  if (c == "opt") {
    for (size_t i = 1; i < w.size(); ++i) {
      size_t e = w[i].find('='); S k = w[i].substr(0, e), v = w[i].substr(e + 1);
      if (k == "dint") { if (v == "-") Value::drop_default_int(); else Value::set_default_int(atoi(v.c_str())); }
      if (k == "d64") { if (v == "-") Value::drop_default_int64(); else Value::set_default_int64(atoll(v.c_str())); }
      if (k == "omit") Value::omit_string_tag_in_responses(v == "1");
    }
  }
  else if (c == "preq") parse_doc(true, vt::unhex(w[1]), "res");
  else if (c == "prsp") parse_doc(false, vt::unhex(w.size() > 1 ? w[1] : ""), "res");
  else if (c == "dreq" || c == "drsp") {
    S doc;
    try {
      if (c == "dreq") {
        Value a = vt::parse(w[2]);
        Param_list pl;
        for (Array::const_iterator i = a.arr_begin(); i != a.arr_end(); ++i) pl.push_back(*i);
        doc = dump_request(Request(vt::unhex(w[1]), pl));
      }
      else if (w[1] == "ok") doc = dump_response(Response(new Value(vt::parse(w[2]))));
      else doc = dump_response(Response(atoi(w[2].c_str()), vt::unhex(w[3])));
    }
    catch (...) { ev("doc exc " + exc_class()); return; }
    ev("doc " + vt::hex(doc));
    parse_doc(c == "dreq", doc, "back");
  }
  else if (c == "b64e") { std::unique_ptr<Binary_data> b(Binary_data::from_data(vt::unhex(w[1]))); ev("res ok " + vt::hex(b->get_base64()) + " " + vt::hex(b->get_data())); }
  else if (c == "b64d") {
    try { std::unique_ptr<Binary_data> b(Binary_data::from_base64(vt::unhex(w[1]))); ev("res ok " + vt::hex(b->get_data())); }
    catch (...) { ev("res exc " + exc_class()); }
  }
  else if (c == "date") {
    try { Date_time d(vt::unhex(w[1])); ev("res ok " + tm_text(d.get_tm()) + " " + vt::hex(d.to_string())); }
    catch (...) { ev("res exc " + exc_class()); }
  }
  else if (c == "tm") {
    struct tm t; memset(&t, 0, sizeof t);
    t.tm_year = atoi(w[1].c_str()) - 1900; t.tm_mon = atoi(w[2].c_str()) - 1; t.tm_mday = atoi(w[3].c_str());
    t.tm_hour = atoi(w[4].c_str()); t.tm_min = atoi(w[5].c_str()); t.tm_sec = atoi(w[6].c_str());
    Date_time d(&t);
    ev("res ok " + vt::hex(d.to_string()));
  }
  else if (c == "v") {
    S r;
    try { r = "ok " + value_op(w); } catch (...) { r = "exc " + exc_class(); }
    ev("res " + r + " |" + all_vars());
  }
  else if (c == "vbegin") { for (auto& kv : vars) delete kv.second; vars.clear(); for (int i = 0; i < atoi(w[1].c_str()); ++i) vars[i] = 0; static long base; base = live; (void)base; ev("live " + std::to_string(live)); }
  else if (c == "vend") { for (auto& kv : vars) { delete kv.second; kv.second = 0; } ev("live " + std::to_string(live)); }
  else ev("badcmd " + line);
}

static void run_scenario(const std::vector<S>& lines)
{
  __sanitizer_set_death_callback(flush_out);
  // allocations made once are made now
  S warm = "<methodCall><methodName>a</methodName><params><param><value><double>1.5</double></value></param></params></methodCall>";
  delete parse_request(warm);
  try { delete parse_request(warm + "<"); } catch (...) {}
  try { parse_response("<a"); } catch (...) {}
  out_buf.reserve(1 << 22);
  int no = 0;
  for (auto& l : lines) {
    if (l.empty()) continue;
    ev("# " + std::to_string(no++));
    try { command(l); } catch (...) { ev("cmdexc " + exc_class()); }
    if (out_buf.size() > (1 << 21)) flush_out();
  }
  flush_out();
}

int main(int argc, char** argv)
{
  if (argc < 4) return 2;
  signal(SIGPIPE, SIG_IGN);
  std::vector<std::pair<S, std::vector<S> > > sc;
  {
    std::ifstream f(argv[1]); S l;
    while (std::getline(f, l)) {
      if (l.compare(0, 3, "#S ") == 0) sc.push_back(std::make_pair(l.substr(3), std::vector<S>()));
      else if (!sc.empty()) sc.back().second.push_back(l);
    }
  }
  int jobs = atoi(argv[3]);
  std::vector<pid_t> ws;
  for (int j = 0; j < jobs; ++j) {
    pid_t w = fork();
    if (w) { ws.push_back(w); continue; }
    S on = S(argv[2]) + "." + std::to_string(j);
    out_fd = open(on.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
    int err = open((on + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
    dup2(err, 2); dup2(err, 1); close(err);
    for (size_t i = j; i < sc.size(); i += jobs) {
      ev("BEGIN " + sc[i].first); flush_out();
      pid_t c = fork();
      if (!c) {
        signal(SIGALRM, on_alarm); alarm(30);
        run_scenario(sc[i].second);
        _exit(0);
      }
      int st = 0; waitpid(c, &st, 0);
      ev("END " + sc[i].first + " " + (WIFEXITED(st) ? "exit" + std::to_string(WEXITSTATUS(st)) : "sig" + std::to_string(WTERMSIG(st)))); flush_out();
    }
    _exit(0);
  }
  int bad = 0;
  for (pid_t w : ws) { int st = 0; waitpid(w, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = 1; }
  return bad;
}
