#include "tlsc.hpp"

#include <openssl/bio.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rand.h>
#include <openssl/ssl.h>
#include <openssl/x509.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>

namespace tlsc {
namespace {
uint64_t rng = 1;
int r_bytes(unsigned char* b, int n) {
    for (int i = 0; i < n; ++i) {
        rng = rng * 6364136223846793005ULL + 1442695040888963407ULL;
        b[i] = static_cast<unsigned char>(rng >> 40);
    }
    return 1;
}
int r_status() { return 1; }
int r_seed(const void*, int) { return 1; }
int r_add(const void*, int, double) { return 1; }
void r_clean() {}
const RAND_METHOD method = {r_seed, r_bytes, r_clean, r_add, r_bytes, r_status};

void make(const std::string& cert, const std::string& key, long serial) {
    EVP_PKEY* k = EVP_PKEY_Q_keygen(nullptr, nullptr, "ED25519");
    X509* x = X509_new();
    X509_set_version(x, 2);
    ASN1_INTEGER_set(X509_get_serialNumber(x), serial);
    X509_gmtime_adj(X509_getm_notBefore(x), -86400);
    X509_gmtime_adj(X509_getm_notAfter(x), 86400L * 3650);
    X509_set_pubkey(x, k);
    X509_NAME* n = X509_get_subject_name(x);
    X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, reinterpret_cast<const unsigned char*>("localhost"), -1, -1, 0);
    X509_set_issuer_name(x, n);
    X509_sign(x, k, nullptr);
    FILE* f = fopen(cert.c_str(), "w");
    PEM_write_X509(f, x);
    fclose(f);
    f = fopen(key.c_str(), "w");
    PEM_write_PrivateKey(f, k, nullptr, nullptr, 0, nullptr, nullptr);
    fclose(f);
    X509_free(x);
    EVP_PKEY_free(k);
}
Files made;
pid_t owner;
void cleanup() {
    if (made.dir.empty() || getpid() != owner) return;
    for (auto& p : {made.cert, made.key, made.cert2, made.key2, made.garbage, made.empty}) ::unlink(p.c_str());
    ::rmdir(made.dir.c_str());
}
}  // namespace

void reset_random() {
    static const bool once = [] {
        RAND_set_rand_method(&method);
        return true;
    }();
    (void)once;
    rng = 42;
}
const Files& files() {
    if (!made.dir.empty()) return made;
    reset_random();
    char t[] = "/tmp/ion-mc-tls-XXXXXX";
    if (!mkdtemp(t)) abort();
    made.dir = t;
    made.cert = made.dir + "/cert.pem";
    made.key = made.dir + "/key.pem";
    made.cert2 = made.dir + "/cert2.pem";
    made.key2 = made.dir + "/key2.pem";
    made.garbage = made.dir + "/garbage.pem";
    made.empty = made.dir + "/empty.pem";
    made.missing = made.dir + "/missing.pem";
    make(made.cert, made.key, 1);
    make(made.cert2, made.key2, 2);
    FILE* f = fopen(made.garbage.c_str(), "w");
    fputs("-----BEGIN CERTIFICATE-----\nbm90IGEgY2VydGlmaWNhdGU=\n-----END CERTIFICATE-----\n", f);
    fclose(f);
    fclose(fopen(made.empty.c_str(), "w"));
    owner = getpid();
    atexit(cleanup);
    return made;
}

static SSL_CTX* ctx() {
    static SSL_CTX* c = [] {
        SSL_CTX* c = SSL_CTX_new(TLS_client_method());
        SSL_CTX_set_verify(c, SSL_VERIFY_NONE, nullptr);
        return c;
    }();
    return c;
}
Client::Client(int version, const std::string& alpn_list) {
    ssl = SSL_new(ctx());
    SSL_set_min_proto_version(ssl, version == 12 ? TLS1_2_VERSION : TLS1_3_VERSION);
    SSL_set_max_proto_version(ssl, version == 12 ? TLS1_2_VERSION : TLS1_3_VERSION);
    if (!alpn_list.empty()) SSL_set_alpn_protos(ssl, reinterpret_cast<const unsigned char*>(alpn_list.data()), static_cast<unsigned>(alpn_list.size()));
    SSL_set_tlsext_host_name(ssl, "localhost");
    BIO* r = BIO_new(BIO_s_mem());
    BIO* w = BIO_new(BIO_s_mem());
    BIO_set_mem_eof_return(r, -1);
    SSL_set_bio(ssl, r, w);
    SSL_set_connect_state(ssl);
}
Client::~Client() { SSL_free(ssl); }

namespace {
// The server under test runs in this thread: what it left in OpenSSL's error queue must stay there.
struct KeepErrors {
    std::vector<unsigned long> e;
    KeepErrors() {
        while (unsigned long x = ERR_get_error()) e.push_back(x);
    }
    ~KeepErrors() {
        ERR_clear_error();
        for (unsigned long x : e) ERR_raise(ERR_GET_LIB(x), ERR_GET_REASON(x));
    }
};
}  // namespace
Bytes Client::step() {
    KeepErrors keep;
    if (conn && conn->tx.size() > taken) {
        BIO_write(SSL_get_rbio(ssl), conn->tx.data() + taken, static_cast<int>(conn->tx.size() - taken));
        taken = conn->tx.size();
    }
    if (!failed && !handshaken) {
        ERR_clear_error();
        const int r = SSL_do_handshake(ssl);
        if (r == 1) {
            handshaken = true;
            const unsigned char* p = nullptr;
            unsigned n = 0;
            SSL_get0_alpn_selected(ssl, &p, &n);
            alpn.assign(reinterpret_cast<const char*>(p), n);
        } else {
            const int e = SSL_get_error(ssl, r);
            if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) {
                failed = true;
                char b[200];
                ERR_error_string_n(ERR_peek_error(), b, sizeof b);
                error = std::string("handshake: ") + b;
            }
        }
    }
    if (handshaken && !failed) {
        if (!pending.empty()) {
            SSL_write(ssl, pending.data(), static_cast<int>(pending.size()));
            pending.clear();
        }
        if (want_close) {
            want_close = false;
            SSL_shutdown(ssl);
        }
        uint8_t buf[16384];
        for (;;) {
            ERR_clear_error();
            const int r = SSL_read(ssl, buf, sizeof buf);
            if (r > 0) {
                plain.insert(plain.end(), buf, buf + r);
                continue;
            }
            const int e = SSL_get_error(ssl, r);
            if (e == SSL_ERROR_ZERO_RETURN) closed = true;
            else if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) {
                failed = true;
                char b[200];
                ERR_error_string_n(ERR_peek_error(), b, sizeof b);
                error = std::string("read: ") + b;
            }
            break;
        }
    }
    Bytes out;
    uint8_t buf[16384];
    int n;
    while ((n = BIO_read(SSL_get_wbio(ssl), buf, sizeof buf)) > 0) out.insert(out.end(), buf, buf + n);
    return out;
}
long Client::serial() const {
    X509* x = SSL_get0_peer_certificate(ssl);
    return x ? ASN1_INTEGER_get(X509_get0_serialNumber(x)) : -1;
}
void Client::write(const Bytes& data) { pending.insert(pending.end(), data.begin(), data.end()); }
void Client::key_update(bool answer) { SSL_key_update(ssl, answer ? SSL_KEY_UPDATE_REQUESTED : SSL_KEY_UPDATE_NOT_REQUESTED), SSL_do_handshake(ssl); }
void Client::close_notify() { want_close = true; }
}  // namespace tlsc
