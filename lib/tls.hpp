// A TLS client over memory BIOs (so that the ciphertext can be cut anywhere),
// with the interface of srv::client, and a self-signed certificate.
#pragma once
#include "srv.hpp"

#include <boost/asio/ssl.hpp>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <openssl/ssl.h>
#include <openssl/x509.h>

namespace tls {

namespace net = boost::asio;

struct identity {
  std::string cert, key; // PEM
};
inline identity make_identity()
{
  auto* k = EVP_EC_gen("P-256");
  auto* x = X509_new();
  X509_set_version(x, 2);
  ASN1_INTEGER_set(X509_get_serialNumber(x), 1);
  X509_gmtime_adj(X509_getm_notBefore(x), -86400);
  X509_gmtime_adj(X509_getm_notAfter(x), 86400 * 365);
  X509_set_pubkey(x, k);
  auto* n = X509_get_subject_name(x);
  X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, reinterpret_cast<const unsigned char*>("localhost"), -1, -1, 0);
  X509_set_issuer_name(x, n);
  X509_sign(x, k, EVP_sha256());
  auto pem = [](auto write) {
    auto* b = BIO_new(BIO_s_mem());
    write(b);
    char* p = nullptr;
    auto len = BIO_get_mem_data(b, &p);
    std::string s(p, std::size_t(len));
    BIO_free(b);
    return s;
  };
  identity i;
  i.cert = pem([&](BIO* b) { PEM_write_bio_X509(b, x); });
  i.key = pem([&](BIO* b) { PEM_write_bio_PrivateKey(b, k, nullptr, nullptr, 0, nullptr, nullptr); });
  X509_free(x);
  EVP_PKEY_free(k);
  return i;
}
inline net::ssl::context server_context()
{
  static const identity id = make_identity();
  net::ssl::context c(net::ssl::context::tls_server);
  c.use_certificate_chain(net::buffer(id.cert));
  c.use_private_key(net::buffer(id.key), net::ssl::context::pem);
  return c;
}

class client {
public:
  client() = default;
  // takes over the connection; cut: splits what goes to the socket
  client(srv::client&& raw, int version = 0, vh::rng* cut = nullptr)
      : raw_(std::move(raw))
      , cut_(cut)
  {
    ctx_ = SSL_CTX_new(TLS_client_method());
    SSL_CTX_set_verify(ctx_, SSL_VERIFY_NONE, nullptr);
    if (version) {
      SSL_CTX_set_min_proto_version(ctx_, version);
      SSL_CTX_set_max_proto_version(ctx_, version);
    }
    ssl_ = SSL_new(ctx_);
    rb_ = BIO_new(BIO_s_mem());
    wb_ = BIO_new(BIO_s_mem());
    SSL_set_bio(ssl_, rb_, wb_);
    SSL_set_connect_state(ssl_);
  }
  client(client&& o) noexcept { *this = std::move(o); }
  client& operator=(client&& o) noexcept
  {
    std::swap(raw_, o.raw_);
    std::swap(ctx_, o.ctx_);
    std::swap(ssl_, o.ssl_);
    std::swap(rb_, o.rb_);
    std::swap(wb_, o.wb_);
    std::swap(in_, o.in_);
    std::swap(eof_, o.eof_);
    std::swap(clean_, o.clean_);
    std::swap(cut_, o.cut_);
    return *this;
  }
  ~client()
  {
    if (ssl_) SSL_free(ssl_);
    if (ctx_) SSL_CTX_free(ctx_);
  }
  explicit operator bool() const { return bool(raw_); }
  srv::client& raw() { return raw_; }
  bool handshake(int timeout_ms = 10000)
  {
    auto until = std::chrono::steady_clock::now() + std::chrono::milliseconds(timeout_ms);
    for (;;) {
      ERR_clear_error();
      int n = SSL_do_handshake(ssl_);
      flush();
      if (n == 1) return true;
      if (SSL_get_error(ssl_, n) != SSL_ERROR_WANT_READ || std::chrono::steady_clock::now() > until) return false;
      if (!fetch(50) && raw_.eof()) return false;
    }
  }
  bool send(std::string_view s, int timeout_ms = 10000)
  {
    (void)timeout_ms;
    while (!s.empty()) {
      auto n = std::min<std::size_t>(s.size(), cut_ && cut_->flip() ? 1 + cut_->below(s.size()) : s.size());
      ERR_clear_error();
      int k = SSL_write(ssl_, s.data(), int(n));
      if (k <= 0) return false;
      s.remove_prefix(std::size_t(k));
    }
    return flush();
  }
  // decrypts what is there within the time; false on end of stream or timeout
  bool pump(int timeout_ms)
  {
    if (eof_) return false;
    bool any = decrypt();
    if (any || eof_) return any;
    fetch(timeout_ms);
    any = decrypt();
    flush();
    if (!any && raw_.eof() && raw_.in().empty()) eof_ = true;
    return any;
  }
  bool drain(int timeout_ms = 10000)
  {
    auto until = std::chrono::steady_clock::now() + std::chrono::milliseconds(timeout_ms);
    while (!eof_ && std::chrono::steady_clock::now() < until) pump(50);
    return eof_;
  }
  // close_notify, the connection stays open for reading
  void half_close()
  {
    ERR_clear_error();
    if (SSL_is_init_finished(ssl_)) SSL_shutdown(ssl_);
    flush();
  }
  void close()
  {
    if (raw_) half_close();
    raw_.close();
    eof_ = true;
  }
  void reset()
  {
    raw_.reset();
    eof_ = true;
  }
  std::string& in() { return in_; }
  bool eof() const { return eof_; }
  bool clean() const { return clean_; } // ended by close_notify
  std::string version() const { return ssl_ ? SSL_get_version(ssl_) : ""; }

private:
  bool flush()
  {
    char* p = nullptr;
    auto n = BIO_get_mem_data(wb_, &p);
    if (n <= 0) return true;
    std::string s(p, std::size_t(n));
    (void)BIO_reset(wb_);
    if (cut_ && cut_->flip()) {
      for (auto& c : aio::chop(*cut_, s, false)) {
        if (!raw_.send(c)) return false;
        if (s.size() < 2000 && cut_->chance(1, 4)) std::this_thread::sleep_for(std::chrono::microseconds(cut_->below(300)));
      }
      return true;
    }
    return raw_.send(s);
  }
  bool fetch(int timeout_ms)
  {
    if (raw_.in().empty()) raw_.pump(timeout_ms);
    if (raw_.in().empty()) return false;
    BIO_write(rb_, raw_.in().data(), int(raw_.in().size()));
    raw_.in().clear();
    return true;
  }
  bool decrypt()
  {
    bool any = false;
    char b[20000];
    for (;;) {
      ERR_clear_error();
      int n = SSL_read(ssl_, b, sizeof b);
      if (n > 0) {
        in_.append(b, std::size_t(n));
        any = true;
        continue;
      }
      int e = SSL_get_error(ssl_, n);
      if (e == SSL_ERROR_ZERO_RETURN) clean_ = eof_ = true;
      else if (e == SSL_ERROR_SSL) eof_ = true;
      return any;
    }
  }
  srv::client raw_;
  SSL_CTX* ctx_ = nullptr;
  SSL* ssl_ = nullptr;
  BIO *rb_ = nullptr, *wb_ = nullptr;
  std::string in_;
  bool eof_ = false, clean_ = false;
  vh::rng* cut_ = nullptr;
};

} // namespace tls
