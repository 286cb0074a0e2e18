// C31: names and addresses a certificate is accepted for. The certificates are real ones, handled by the real OpenSSL,
// whose memory requests can fail like the library's own.
#include "common.h"
#include <malloc.h>
#include <unordered_map>
#include <unordered_set>
#include <arpa/inet.h>
#include <openssl/crypto.h>
#include <openssl/err.h>
#include <openssl/x509.h>
#include <openssl/x509v3.h>

extern "C" bool as_tls_match_name(X509*, const char*, bool);
extern "C" bool as_tls_match_san(X509*, const char*);

// Calls of the library under test into others are scheduling points before and after.
extern "C" {
int sim_inet_pton(int f, const char* s, void* d) { yield(); int r = inet_pton(f, s, d); yield(); return r; }
const char* sim_inet_ntop(int f, const void* s, char* d, socklen_t n) { yield(); const char* r = inet_ntop(f, s, d, n); yield(); return r; }
X509_NAME* sim_X509_get_subject_name(const X509* x) { yield(); X509_NAME* r = X509_get_subject_name(x); yield(); return r; }
void* sim_X509_get_ext_d2i(const X509* x, int nid, int* crit, int* idx) { yield(); void* r = X509_get_ext_d2i(x, nid, crit, idx); yield(); return r; }
BIO* sim_BIO_new(const BIO_METHOD* m) { yield(); BIO* r = BIO_new(m); yield(); return r; }
int sim_BIO_read(BIO* b, void* d, int n) { yield(); int r = BIO_read(b, d, n); yield(); return r; }
int sim_ASN1_STRING_print_ex(BIO* b, const ASN1_STRING* s, unsigned long f) { yield(); int r = ASN1_STRING_print_ex(b, s, f); yield(); return r; }
X509_NAME_ENTRY* sim_X509_NAME_get_entry(const X509_NAME* n, int i) { yield(); X509_NAME_ENTRY* r = X509_NAME_get_entry(n, i); yield(); return r; }
void* sim_OPENSSL_sk_value(const OPENSSL_STACK* s, int i) { yield(); void* r = OPENSSL_sk_value(s, i); yield(); return r; }
const unsigned char* sim_ASN1_STRING_get0_data(const ASN1_STRING* s) { yield(); const unsigned char* r = ASN1_STRING_get0_data(s); yield(); return r; }
}

namespace {

bool trackings[3]; std::unordered_map<void*, std::string>* helds;
#define tracking trackings[copy_of()]
#define held (&helds[copy_of()])
// OpenSSL keeps the text buffers of its error queue from one run to the next.
bool errors(const char* f) { return strstr(f, "/err/") || strstr(f, "/err_"); }
// Freed memory is spoilt and kept until the next run, so that a stray use of it is the same in every process.
std::unordered_set<void*>* freed;
void* fresh(size_t n) { void* p = malloc(n); if (p) memset(p, 0xa5, n); return p; }
void* t_malloc(size_t n, const char* f, int l) {
	if (!tracking || errors(f)) return fresh(n);
	if (alloc_fails()) return nullptr;
	void* p = fresh(n);
	(*held)[p] = (strrchr(f, '/') ? strrchr(f, '/') + 1 : f) + (":" + std::to_string(l));
	return p;
}
void t_free(void* p, const char*, int) {
	if (!p) return;
	if (freed->count(p)) { tracking = false; ::sim::fail("double-free", "an object of OpenSSL is released twice"); }
	if (tracking) held->erase(p);
	freed->insert(p);
	memset(p, 0xdd, malloc_usable_size(p));
}
void* t_realloc(void* p, size_t n, const char* f, int l) {
	if (!p) return t_malloc(n, f, l);
	if (!n) { t_free(p, f, l); return nullptr; }
	if (tracking && !errors(f) && alloc_fails()) return nullptr;
	std::string at; bool mine = tracking && held->count(p);
	if (mine) at = (*held)[p];
	void* q = fresh(n);
	memcpy(q, p, std::min(n, malloc_usable_size(p)));
	t_free(p, f, l);
	if (mine) (*held)[q] = at;
	return q;
}
const bool hooked = (freed = new std::unordered_set<void*>, helds = new std::unordered_map<void*, std::string>[3], CRYPTO_set_mem_functions(t_malloc, t_realloc, t_free) == 1);

enum { E_DNS, E_CN, E_EMAIL, E_IP4, E_IP6, E_URI, E_IPODD, Q_NAME, Q_SAN, Q_NOCERT, N_OPS };
const char* tls_op(int c) { static const char* n[] = { "dns_name", "common_name", "email", "ipv4", "ipv6", "uri", "odd_address", "match_name", "match_san", "match_no_certificate" }; return c >= 0 && c < N_OPS ? n[c] : "?"; }
const char* labels[] = { "a", "b", "www", "example", "com", "org", "evil", "x-y", "db1", "B" };

struct Entry { int kind; std::string raw; std::string text; };
std::string host(i64 seed) { Rng r((u64)seed * 77 + 5); std::string s; int k = 1 + (int)r.below(4); for (int i = 0; i < k; i++) s += (i ? "." : "") + std::string(labels[r.below(10)]); return s; }
std::string escaped(const std::string& s) {
	std::string o; char b[8];
	for (char ch : s) { u8 c = (u8)ch; if (c < 0x20 || c == 0x7f) { snprintf(b, sizeof b, "\\%02X", c); o += b; } else if (c == '\\') o += "\\\\"; else o += ch; }
	return o;
}
const size_t lengths[] = { 200, 63, 250, 256, 512, 1024, 4096, 5000 };
std::string raw_of(const Op& op) {
	std::string h = host(op.a & 255);
	switch (op.b) {
	case 1: return "*." + h;
	case 2: return h + std::string(1, '\0') + ".evil.org";
	case 3: return h + "\n";
	case 4: for (auto& c : h) c = (char)toupper(c); return h;
	case 5: return "w*." + h;
	case 6: return h + "\\00";
	case 7: return "";
	case 8: { std::string s = h; while (s.size() < lengths[(op.a >> 8) & 7]) s += "." + h; return s; }
	case 9: return "*";
	case 10: return h + ".";
	default: return h;
	}
}
std::string address(const Op& op) { Rng r((u64)op.a + 3); std::string s; size_t n = op.code == E_IP4 ? 4 : op.code == E_IP6 ? 16 : r.pick<size_t>({ 0, 1, 3, 5, 8, 15, 17, 32 }); for (size_t i = 0; i < n; i++) s += op.b & 1 ? (char)r.below(256) : (char)(r.one_in(3) ? r.below(3) : 0); return s; }
std::string printed(const std::string& ip) { char b[64] = ""; inet_ntop(ip.size() == 4 ? AF_INET : AF_INET6, ip.data(), b, sizeof b); return b; }
bool same_nocase(const std::string& a, const std::string& b) { return a.size() == b.size() && !strcasecmp(a.c_str(), b.c_str()); }

struct Cert { X509* x = nullptr; std::vector<Entry> e; bool san = true; };
void make(Cert& c, const std::vector<Op>& ops, i64 broken) {
	c.x = X509_new();
	GENERAL_NAMES* gens = sk_GENERAL_NAME_new_null();
	for (auto& op : ops) {
		if (op.code > E_IPODD) continue;
		Entry e; e.kind = op.code;
		e.raw = op.code == E_IP4 || op.code == E_IP6 || op.code == E_IPODD ? address(op) : raw_of(op);
		e.text = escaped(e.raw);
		if (op.code == E_CN) X509_NAME_add_entry_by_NID(X509_get_subject_name(c.x), NID_commonName, op.c & 1 ? V_ASN1_UTF8STRING : V_ASN1_PRINTABLESTRING, (const u8*)e.raw.data(), (int)e.raw.size(), -1, 0);
		else {
			GENERAL_NAME* g = GENERAL_NAME_new();
			ASN1_STRING* s = ASN1_STRING_type_new(op.code == E_IP4 || op.code == E_IP6 || op.code == E_IPODD ? V_ASN1_OCTET_STRING : V_ASN1_IA5STRING);
			ASN1_STRING_set(s, e.raw.data(), (int)e.raw.size());
			GENERAL_NAME_set0_value(g, op.code == E_DNS ? GEN_DNS : op.code == E_EMAIL ? GEN_EMAIL : op.code == E_URI ? GEN_URI : GEN_IPADD, s);
			sk_GENERAL_NAME_push(gens, g);
		}
		c.e.push_back(e);
	}
	if (broken) {
		ASN1_OCTET_STRING* o = ASN1_OCTET_STRING_new(); u8 junk[] = { 0x30, 0x09, 0x82, 0x20, 'a' };
		ASN1_OCTET_STRING_set(o, junk, (int)(broken % 6));
		X509_EXTENSION* x = X509_EXTENSION_create_by_NID(nullptr, NID_subject_alt_name, 0, o);
		X509_add_ext(c.x, x, -1); X509_EXTENSION_free(x); ASN1_OCTET_STRING_free(o);
		c.san = false;
	} else if (sk_GENERAL_NAME_num(gens)) X509_add1_ext_i2d(c.x, NID_subject_alt_name, gens, 0, X509V3_ADD_APPEND);
	sk_GENERAL_NAME_pop_free(gens, GENERAL_NAME_free);
}
bool names(const Cert& c, const std::string& q, bool wild) {
	for (auto& e : c.e) {
		if (e.kind != E_CN && !(e.kind == E_DNS && c.san)) continue;
		if (same_nocase(e.text, q) && e.text.size()) return true;
		size_t dot = q.find('.');
		if (wild && e.text.compare(0, 2, "*.") == 0 && dot != std::string::npos && same_nocase(e.text.substr(1), q.substr(dot))) return true;
	}
	return false;
}
bool sans(const Cert& c, const std::string& q) {
	in6_addr six; bool is6 = inet_pton(AF_INET6, q.c_str(), &six) == 1;
	if (c.san) for (auto& e : c.e) {
		if (e.kind == E_DNS && e.raw == q) return true;
		if (e.kind == E_IP4 && printed(e.raw) == q) return true;
		if (e.kind == E_IP6 && is6 && !memcmp(&six, e.raw.data(), 16)) return true;
	}
	return false;
}
// What to ask for: mostly something close to an entry.
std::string question(const Cert& c, const Op& op) {
	Rng r((u64)op.c * 31 + 7);
	if (c.e.empty() || op.a % 9 == 8) return host(op.c);
	const Entry& e = c.e[(size_t)op.a % c.e.size()];
	if (e.kind == E_IP4) { std::string s = printed(e.raw); if (op.b % 3 == 1) s += "0"; if (op.b % 3 == 2) s = "0" + s; return s; }
	if (e.kind == E_IP6) {
		if (op.b % 4 == 0) return printed(e.raw);
		char b[64]; const u8* p = (const u8*)e.raw.data(); std::string s;
		for (int i = 0; i < 8; i++) { snprintf(b, sizeof b, op.b % 4 == 1 ? "%s%04x" : op.b % 4 == 2 ? "%s%X" : "%s%x", i ? ":" : "", p[2 * i] << 8 | p[2 * i + 1]); s += b; }
		if (op.b % 4 == 3) s.back() = s.back() == '1' ? '2' : '1';
		return s;
	}
	if (e.kind == E_IPODD) { if (e.raw.empty()) return "1.2.3.4"; std::string s = e.raw; s.resize(op.b & 1 ? 4 : 16); return printed(s); }      // its beginning, or it with zeros
	std::string s = e.raw, up = s.c_str();
	switch (op.b) {
	case 0: case 1: return up;                                // everything before an embedded null
	case 2: for (auto& ch : up) if (r.one_in(2)) ch = (char)(isupper(ch) ? tolower(ch) : toupper(ch)); return up;
	case 3: return "w." + up;
	case 4: return up + ".org";
	case 5: { size_t d = up.find('.'); return d == std::string::npos || d + 1 >= up.size() ? up : up.substr(d + 1); }
	case 6: { size_t d = up.find('.'); return d == std::string::npos ? up : "qq" + up.substr(d); }
	case 7: { size_t d = up.find('.'); return d == std::string::npos ? up : "q.q" + up.substr(d); }
	case 8: return up.empty() ? up : up.substr(0, r.below(up.size()));
	case 9: return e.text;
	case 10: return up + "x";
	default: return up.empty() ? up : up.substr(up[0] == '*' ? 1 : 0);
	}
}
void body_tls(const Prog& p) {
	CHECK(hooked, "setup", "OpenSSL does not take the simulated allocator");
	static bool warm; static u64 run;
	if (run != run_number()) { for (void* q : *freed) free(q); freed->clear(); memset(trackings, 0, sizeof trackings); run = run_number(); }
	if (!warm) {       // first use of OpenSSL in this process sets up tables that stay
		for (i64 broken : { 0, 3 }) {
			Cert w; make(w, { Op{ E_DNS, 1, 3, 0 }, Op{ E_CN, 2, 0, 1 }, Op{ E_IP4, 1, 1, 0 } }, broken);
			GENERAL_NAMES* n = (GENERAL_NAMES*)X509_get_ext_d2i(w.x, NID_subject_alt_name, nullptr, nullptr);
			BIO* b = BIO_new(BIO_s_mem()); char t[8];
			ASN1_STRING_print_ex(b, X509_NAME_ENTRY_get_data(X509_NAME_get_entry(X509_get_subject_name(w.x), 0)), ASN1_STRFLGS_ESC_CTRL | ASN1_STRFLGS_UTF8_CONVERT);
			BIO_read(b, t, sizeof t); BIO_free(b); OBJ_txt2nid("msUPN");
			if (n) sk_GENERAL_NAME_pop_free(n, GENERAL_NAME_free);
			X509_free(w.x);
		}
		ERR_clear_error(); warm = true;
	}
	Cert c; make(c, p.thr[0], p.cfg[0]);
	held->clear(); 
	for (size_t t = 1; t < p.thr.size(); t++) {
		const std::vector<Op>* o = &p.thr[t]; const Cert* cp = &c;
		spawn([o, cp] {
			for (auto& op : *o) {
				std::string q = question(*cp, op);
				if (q.find('\0') != std::string::npos || (q.size() && q[0] == '.')) continue;
				char* s = (char*)halloc_end(q.size() + 1); memcpy(s, q.c_str(), q.size() + 1);
				u64 f0 = my_faults(F_ALLOC);
				tracking = true; faults(true);
				bool wild = op.c & 1, got = op.code == Q_NAME ? as_tls_match_name(cp->x, s, wild) : op.code == Q_SAN ? as_tls_match_san(cp->x, s) : as_tls_match_name(nullptr, s, wild);
				u64 f = my_faults(F_ALLOC) - f0;
				bool exp = op.code == Q_NAME ? names(*cp, q, wild) : op.code == Q_SAN ? sans(*cp, q) : false;
				logf("%s \"%s\"%s: %d (%d)", tls_op(op.code), q.c_str(), wild ? " wildcards" : "", got, exp);
				note(0x6000 + op.code * 4 + got * 2 + exp);
				probe(got ? "accepted" : "refused");
				if (got) CHECK(exp, "false-accept", "a certificate is accepted for \"%.60s\", which it does not name%s", q.c_str(), f ? " (memory ran out)" : "");
				else CHECK(!exp || f, "false-refuse", "a certificate is refused for \"%.60s\", which it names", q.c_str());
				CHECK(!memcmp(s, q.c_str(), q.size() + 1), "changed", "the name asked for was changed");
				hfree(s);
			}
		});
	}
	join_all();
	faults(false);
	ERR_clear_error();
	tracking = false;
	std::string first; for (auto& h : *held) if (first.empty() || h.second < first) first = h.second;
	CHECK(held->empty(), "leak", "%zu objects of OpenSSL were not released (%s)", held->size(), first.c_str());
	X509_free(c.x);
	check_no_leak("after matching");
}
void gen_c31(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	p.cfg.push_back(r.one_in(12) ? 1 + (i64)r.below(5) : 0);
	std::vector<Op> e; int n = r.one_in(1500) ? r.pick({ 63, 64, 65, 100, 127, 129, 255, 257, 300 }) : r.one_in(12) ? 15 + (int)r.below(20) : (int)r.below(5);
	for (int i = 0; i < n; i++) e.push_back(Op{ (i32)(r.one_in(3) ? (i64)r.below(E_IPODD + 1) : r.pick<int>({ E_DNS, E_DNS, E_CN, E_IP6 })), (i64)r.below(30), r.one_in(2) ? 0 : (i64)r.below(11), (i64)r.below(4) });
	for (auto& o : e) if (o.b == 8 && o.code <= E_EMAIL && r.one_in(4)) o.a |= (i64)r.below(8) << 8;
	p.thr.push_back(e);
	int nt = r.one_in(4) ? 2 : 1;
	for (int t = 0; t < nt; t++) {
		std::vector<Op> o; int k = 1 + (int)r.below(5);
		for (int i = 0; i < k; i++) o.push_back(Op{ (i32)(r.one_in(20) ? Q_NOCERT : r.one_in(2) ? Q_NAME : Q_SAN), (i64)r.below(40), (i64)r.below(12), (i64)r.below(8) });
		p.thr.push_back(o);
	}
	gen_sched(r, s, 300);
	if (r.one_in(2)) gen_oom(r, s, r.one_in(2) ? 40 : 300);
	p.env.cap = 8000000;
}
Reg r31({ "certificate", "C31", 16, gen_c31, body_tls, tls_op });
Reg r31b({ "two_certificates", "C31", 2, gen_two<gen_c31>, body_two<body_tls>, tls_op });

}
