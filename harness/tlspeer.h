// TLS endpoint over memory buffers; the harness moves the bytes.
#ifndef TLSPEER_H
#define TLSPEER_H
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <string>

class TlsPeer {
  SSL_CTX* ctx; SSL* ssl; BIO* in; BIO* out;
  std::string pending, plain;
  bool server, up = false, bad = false, notified = false, started = false;
  static int any(int, X509_STORE_CTX*) { return 1; }
public:
  std::string cert; bool want_client_cert;
  TlsPeer(bool srv, const std::string& cert_, bool reqcert, int version = 0, bool resume = false): server(srv), cert(cert_), want_client_cert(reqcert)
  {
    ctx = SSL_CTX_new(srv ? TLS_server_method() : TLS_client_method());
    if (!cert.empty()) {
      SSL_CTX_use_certificate_chain_file(ctx, (cert + ".crt").c_str());
      SSL_CTX_use_PrivateKey_file(ctx, (cert + ".key").c_str(), SSL_FILETYPE_PEM);
    }
    if (srv && reqcert) SSL_CTX_set_verify(ctx, SSL_VERIFY_PEER, any);
    if (srv) SSL_CTX_set_num_tickets(ctx, 0);
    if (version == 12) SSL_CTX_set_max_proto_version(ctx, TLS1_2_VERSION);
    ssl = SSL_new(ctx);
    if (resume && last()) SSL_set_session(ssl, last());
    in = BIO_new(BIO_s_mem()); out = BIO_new(BIO_s_mem());
    SSL_set_bio(ssl, in, out);
    if (srv) SSL_set_accept_state(ssl); else SSL_set_connect_state(ssl);
  }
  ~TlsPeer() { SSL_free(ssl); SSL_CTX_free(ctx); }
  static SSL_SESSION*& last() { static SSL_SESSION* l = 0; return l; }
  void save() { if (SSL_SESSION* n = SSL_get1_session(ssl)) last() = n; }
  bool resumed() { return SSL_session_reused(ssl); }
  void new_key() { SSL_key_update(ssl, SSL_KEY_UPDATE_REQUESTED); step(); SSL_do_handshake(ssl); step(); }
  void start() { started = true; step(); }
  void feed(const std::string& d) { started = true; BIO_write(in, d.data(), d.size()); step(); }
  void send_plain(const std::string& d) { pending += d; if (started) step(); }
  void shutdown() { SSL_shutdown(ssl); }
  bool established() const { return up; }
  bool failed() const { return bad; }
  bool closed_notified() { bool r = notified; notified = false; return r; }
  std::string take_plain() { std::string r; r.swap(plain); return r; }
  std::string take_output()
  {
    std::string r; char b[16384]; int n;
    while ((n = BIO_read(out, b, sizeof b)) > 0) r.append(b, n);
    return r;
  }
private:
  void step()
  {
    ERR_clear_error();
    if (!up && !bad) {
      int r = SSL_do_handshake(ssl);
      if (r == 1) up = true;
      else { int e = SSL_get_error(ssl, r); if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) { bad = true; return; } }
    }
    if (!up || bad) return;
    if (!pending.empty()) { int r = SSL_write(ssl, pending.data(), pending.size()); if (r > 0) pending.erase(0, r); }
    char b[16384]; int n;
    while ((n = SSL_read(ssl, b, sizeof b)) > 0) plain.append(b, n);
    int e = SSL_get_error(ssl, n);
    if (e == SSL_ERROR_ZERO_RETURN) notified = true;
    else if (e == SSL_ERROR_SSL) bad = true;
  }
};
#endif
