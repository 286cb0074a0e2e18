// C29, C30: calls with private arguments at the same time; texts of values.
#include "common.h"
#include "glue_hooks.h"
#include "glue.h"
#include <aerospike/as_val.h>
#include <aerospike/as_arraylist.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_boolean.h>
#include <aerospike/as_bytes.h>
#include <aerospike/as_double.h>
#include <aerospike/as_geojson.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_nil.h>
#include <aerospike/as_pair.h>
#include <aerospike/as_rec.h>
#include <aerospike/as_string.h>
#include <aerospike/as_string_builder.h>
#include <aerospike/as_msgpack.h>
#include <aerospike/as_msgpack_ext.h>
#include <citrusleaf/alloc.h>
#include <citrusleaf/cf_b64.h>
#include <citrusleaf/cf_crypto.h>

namespace {

// ------------------------------------------------------------------ values and the texts they should have
// A value is built by a small stack program, so that a failing one can be cut down operation by operation.
enum { B_INT, B_DOUBLE, B_STR, B_LONG, B_BYTES, B_GEO, B_TRUE, B_FALSE, B_BOOL, B_NIL, B_WILD, B_INF, B_REC, B_NOBYTES, B_NOSTR, B_LIST, B_MAP, B_PAIR, B_DROP, B_NOPS };
const char* b_op(int c) { static const char* n[] = { "integer", "double", "string", "long_string", "bytes", "geojson", "true", "false", "boolean", "nil", "wildcard", "infinity", "record", "empty_bytes", "null_string", "list", "map", "pair", "forget" }; return c >= 0 && c < B_NOPS ? n[c] : "?"; }

struct Node { as_val* v = nullptr; int kind = B_INT; bool has = true; std::string text; std::vector<Node> kids; i64 key = 0; };
const std::string NONE = "<NULL>";
std::string shown(const Node& n) { return n.has ? n.text : NONE; }
bool rec_gone(as_rec*) { return true; }
as_rec_hooks rec_hooks_make() { as_rec_hooks h; memset(&h, 0, sizeof h); h.destroy = rec_gone; return h; }
const as_rec_hooks rec_hooks = rec_hooks_make();
const i64 ints[] = { 0, 1, -1, 42, 127, 128, -129, 65535, 65536, 2147483647ll, -2147483648ll, 4294967296ll, 9223372036854775807ll, (i64)0x8000000000000000ull };
const double doubles[] = { 0, -0.0, 1.5, -2.25, 1e300, 1e-300, 0.1, 123456789.125, 1.0 / 3, -5e-324, 1e16, 1e17 };

std::string letters(i64 seed, size_t n) { std::string s; for (size_t i = 0; i < n; i++) s += (char)('a' + (u64)(seed + (i64)i * 7 + (i64)(i / 26)) % 26); return s; }
void build(const std::vector<Op>& ops, std::vector<Node>& st) {
	for (auto& op : ops) {
		Node n; n.kind = op.code; char b[64];
		u64 a = (u64)op.a;
		auto take = [&](size_t want) { size_t k = std::min(want, st.size()); std::vector<Node> r(st.end() - (long)k, st.end()); st.resize(st.size() - k); return r; };
		switch (op.code) {
		case B_INT: { i64 x = op.b & 1 ? op.a : ints[a % 14]; n.v = (as_val*)as_integer_new(x); snprintf(b, sizeof b, "%lld", (long long)x); n.text = b; break; }
		case B_DOUBLE: { double x = doubles[a % 12]; n.v = (as_val*)as_double_new(x); snprintf(b, sizeof b, "%.16g", x); n.text = b; break; }
		case B_STR: case B_LONG: {
			std::string s = letters(op.a, (size_t)op.b);
			if (op.c % 3 == 0) n.v = (as_val*)as_string_new_strdup(s.c_str());
			else { char* p = (char*)cf_malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); n.v = op.c % 3 == 1 ? (as_val*)as_string_new(p, true) : (as_val*)as_string_new_wlen(p, s.size(), true); }
			n.text = "\"" + s + "\""; break; }
		case B_GEO: { std::string s = letters(op.a, (size_t)op.b); n.v = (as_val*)as_geojson_new_strdup(s.c_str()); n.text = "\"" + s + "\""; break; }
		case B_BYTES: {
			size_t k = (size_t)op.b ? (size_t)op.b : 1; u8* p = (u8*)cf_malloc(k);
			for (size_t i = 0; i < k; i++) { p[i] = (u8)(op.a + (i64)i * 37); snprintf(b, sizeof b, i ? " %02X" : "%02X", p[i]); n.text += b; }
			n.v = (as_val*)as_bytes_new_wrap(p, (u32)k, true); break; }
		case B_TRUE: n.v = (as_val*)&as_true; n.text = "true"; break;
		case B_FALSE: n.v = (as_val*)&as_false; n.text = "false"; break;
		case B_BOOL: n.v = (as_val*)as_boolean_new(op.a & 1); n.text = op.a & 1 ? "true" : "false"; break;
		case B_NIL: n.v = (as_val*)&as_nil; n.text = "NIL"; break;
		case B_WILD: n.v = (as_val*)&as_cmp_wildcard; n.text = "*"; break;
		case B_INF: n.v = (as_val*)&as_cmp_inf; n.text = "INF"; break;
		case B_REC: n.v = (as_val*)as_rec_new(nullptr, &rec_hooks); n.text = "[ REC ]"; break;
		case B_NOBYTES: n.v = (as_val*)as_bytes_new(4); n.has = false; break;
		case B_NOSTR: n.v = (as_val*)as_string_new(nullptr, false); n.has = false; break;
		case B_LIST: {
			n.kids = take((size_t)op.a);
			as_arraylist* l = as_arraylist_new((u32)(op.b % 5), (u32)(1 + op.c % 4));
			n.text = "[";
			for (size_t i = 0; i < n.kids.size(); i++) { CHECK(as_arraylist_append(l, n.kids[i].v) == 0, "setup", "a list could not be filled"); n.text += (i ? ", " : "") + shown(n.kids[i]); }
			n.text += "]"; n.v = (as_val*)l; break; }
		case B_MAP: {
			std::vector<Node> vals = take((size_t)op.a);
			as_orderedmap* m = as_orderedmap_new((u32)(1 + op.b % 8));
			std::vector<Node>& uniq = vals;
			for (size_t i = 0; i < uniq.size(); i++) uniq[i].key = (i64)i * 3 - 6;
			std::vector<size_t> ord; for (size_t i = 0; i < uniq.size(); i++) ord.push_back(i);
			if (op.c & 1) std::reverse(ord.begin(), ord.end());
			if (op.c & 2) for (size_t i = 0; i + 2 < ord.size(); i += 2) std::swap(ord[i], ord[i + 2]);
			bool names = op.c & 4; char kb[24];
			for (size_t i : ord) {
				snprintf(kb, sizeof kb, "k%08lld", (long long)uniq[i].key + 10);
				CHECK(as_orderedmap_set(m, names ? (as_val*)as_string_new_strdup(kb) : (as_val*)as_integer_new(uniq[i].key), uniq[i].v) == 0, "setup", "a map could not be filled");
			}
			n.text = "{";
			for (size_t i = 0; i < uniq.size(); i++) {
				Node k; if (names) snprintf(kb, sizeof kb, "\"k%08lld\"", (long long)uniq[i].key + 10); else snprintf(kb, sizeof kb, "%lld", (long long)uniq[i].key);
				k.text = kb; n.kids.push_back(k); n.kids.push_back(uniq[i]);
				n.text += (i ? ", " : "") + k.text + ":" + shown(uniq[i]);
			}
			n.text += "}"; n.v = (as_val*)m; break; }
		case B_PAIR: {
			n.kids = take(2);
			while (n.kids.size() < 2) { Node k; k.v = (as_val*)as_integer_new(7); k.text = "7"; n.kids.push_back(k); }
			n.v = (as_val*)as_pair_new(n.kids[0].v, n.kids[1].v); n.text = "(" + shown(n.kids[0]) + ", " + shown(n.kids[1]) + ")"; break; }
		case B_DROP: { for (auto& x : take(1)) as_val_val_destroy(x.v); continue; }
		default: continue;
		}
		CHECK(n.v, "setup", "a value could not be created");
		st.push_back(n);
	}
}
void gen_build(Rng& r, std::vector<Op>& ops, int most, size_t longest) {
	int n = 1 + (int)r.below((u64)most);
	for (int i = 0; i < n; i++) {
		int c; i64 a = (i64)r.below(1u << 20), b = 0;
		u64 w = r.below(12);
		if (w < 6) c = (int)r.below(B_LIST);
		else if (w < 8) c = r.pick<int>({ B_STR, B_STR, B_INT, B_NOBYTES });
		else if (w == 8) c = B_LONG;
		else c = r.pick<int>({ B_LIST, B_LIST, B_MAP, B_MAP, B_PAIR });
		if (c == B_LONG) b = (i64)(longest > 600 && r.one_in(2) ? r.pick<i64>({ 250, 500, 1000, 1010, 760 }) + (i64)r.below(24) : (i64)r.below(longest));
		else if (c == B_STR || c == B_GEO || c == B_BYTES) b = (i64)r.below(r.one_in(4) ? 60 : 9);
		else b = (i64)r.below(100);
		if (c == B_LIST || c == B_MAP) a = (i64)(r.one_in(4) ? r.below(60) : r.below(5));
		ops.push_back(Op{ (i32)c, a, b, (i64)r.below(8) });
		if (r.one_in(6)) { int k = (int)r.below(40); i32 cc = (i32)r.below(B_LIST); if (cc == B_LONG) cc = B_INT; for (int j = 0; j < k; j++) ops.push_back(Op{ cc, (i64)r.below(1000), (i64)r.below(9), (i64)r.below(3) }); }
	}
	if (r.one_in(2)) ops.push_back(Op{ (i32)(r.one_in(2) ? B_LIST : B_MAP), 60, 3, (i64)r.below(8) });
}

// ------------------------------------------------------------------ C30
// Does the text from pos on show this part, when some parts inside it may have been left out for want of memory?
bool shows(const Node& n, const std::string& t, size_t& pos, int& left_out, bool top) {
	std::string e = shown(n);
	if (t.compare(pos, e.size(), e) == 0) { pos += e.size(); return true; }
	if (!top && t.compare(pos, NONE.size(), NONE) == 0) { pos += NONE.size(); left_out++; return true; }
	if (n.kind != B_LIST && n.kind != B_MAP && n.kind != B_PAIR) return false;
	auto lit = [&](const char* s) { size_t k = strlen(s); if (t.compare(pos, k, s)) return false; pos += k; return true; };
	const char *open = n.kind == B_LIST ? "[" : n.kind == B_MAP ? "{" : "(", *close = n.kind == B_LIST ? "]" : n.kind == B_MAP ? "}" : ")";
	if (!lit(open)) return false;
	for (size_t i = 0; i < n.kids.size(); i++) {
		if (i && !lit(n.kind == B_MAP && i % 2 ? ":" : ", ")) return false;
		if (!shows(n.kids[i], t, pos, left_out, false)) return false;
	}
	return lit(close);
}
void ask(const Node& n, bool settled) {
	u64 f0 = my_faults(F_ALLOC);
	char* s = as_val_val_tostring(n.v);
	u64 f = my_faults(F_ALLOC) - f0;
	note(0x3000 + (s ? 1 : 0) + (f ? 2 : 0));
	if (!s) { CHECK(f || !n.has, "no-text", "a value has no text though memory was available%s", settled ? " (asked again)" : ""); return; }
	CHECK(is_live(s), "wrong-text", "the text of a value is not memory its caller can release");
	std::string t = text_at(s, "the text of a value");
	cf_free(s);
	CHECK(n.has, "wrong-text", "a value without contents has the text \"%.40s\"", t.c_str());
	if (t == n.text) return;
	size_t pos = 0; int left = 0;
	size_t d = 0; while (d < t.size() && d < n.text.size() && t[d] == n.text[d]) d++;
	CHECK(f, "wrong-text", "the text of a value (%zu characters) differs from what it holds (%zu characters) at %zu: \"%.24s\" for \"%.24s\"%s", t.size(), n.text.size(), d, t.c_str() + d, n.text.c_str() + d, settled ? " (asked again)" : "");
	CHECK(shows(n, t, pos, left, true) && pos == t.size(), "wrong-text", "after memory ran out the text of a value is neither missing nor complete: at %zu \"%.24s\" for \"%.24s\"", d, t.c_str() + d, n.text.c_str() + d);
	CHECK((u64)left <= f, "wrong-text", "%d parts are missing from a text though memory ran out %llu times", left, (unsigned long long)f);
}
void body_text(const Prog& p) {
	std::vector<Node> st; std::vector<u32> hash;
	build(p.thr[0], st);
	for (auto& n : st) hash.push_back(n.kind == B_REC ? 0 : as_val_val_hashcode(n.v));
	int nt = (int)p.cfg[0];
	std::vector<Node>* all = &st;
	for (int t = 0; t < nt; t++) spawn([all] { faults(true); for (auto& n : *all) ask(n, false); faults(false); });
	join_all();
	for (size_t i = 0; i < st.size(); i++) {
		ask(st[i], true);
		if (st[i].kind != B_REC) CHECK(as_val_val_hashcode(st[i].v) == hash[i], "changed", "asking a value for its text changed its hash");
	}
	for (auto& n : st) as_val_val_destroy(n.v);
	check_no_leak("after the texts and the values were released");
}
void gen_c30(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	p.cfg.push_back(r.one_in(3) ? 2 + (i64)r.below(2) : 1);
	p.thr.push_back({});
	gen_build(r, p.thr[0], r.one_in(3) ? 12 : 5, r.one_in(2) ? 1100 : 60);
	p.env.cap = 2000000;
	if (r.one_in(400)) {      // long texts, large lists and maps, deep nesting
		auto& o = p.thr[0]; o.resize(std::min<size_t>(o.size(), 4));
		switch (r.below(3)) {
		case 0: o.push_back(Op{ (i32)r.pick<int>({ B_LONG, B_LONG, B_BYTES, B_GEO }), (i64)r.below(100), r.one_in(4) ? r.pick<i64>({ 16384, 32768, 65533, 65534, 65535, 65536, 66000 }) : r.pick<i64>({ 1020, 1022, 1024, 2048, 4094, 4096, 5000, 8192 }), (i64)r.below(8) }); break;
		case 1: {
			i64 k = r.one_in(5) ? r.pick<i64>({ 1000, 1025, 2049 }) : r.pick<i64>({ 63, 64, 65, 127, 128, 129, 255, 256, 257, 300 });
			i32 cc = (i32)r.pick<int>({ B_INT, B_STR, B_TRUE, B_NIL, B_NOSTR, B_DOUBLE }); for (i64 j = 0; j < k; j++) o.push_back(Op{ cc, (i64)r.below(1000), (i64)r.below(9), (i64)r.below(3) });
			o.push_back(Op{ (i32)r.pick<int>({ B_LIST, B_MAP }), k + (i64)r.below(4), 3, (i64)r.below(8) });
			break; }
		default: for (i64 k = r.pick<i64>({ 8, 16, 17, 32, 33, 60 }); k; k--) o.push_back(Op{ (i32)r.pick<int>({ B_LIST, B_LIST, B_MAP, B_PAIR }), 1 + (i64)r.below(2), 1, (i64)r.below(8) });
		}
		if (r.one_in(2)) o.push_back(Op{ (i32)r.pick<int>({ B_LIST, B_MAP, B_PAIR }), 2, 3, (i64)r.below(8) });
		p.env.cap = 40000000;
	}
	gen_sched(r, s, 3000);
	if (!r.one_in(4)) gen_oom(r, s, 4 + p.thr[0].size() * 2);
}
Reg r30({ "text", "C30", 10, gen_c30, body_text, b_op });

// Base names of paths: a copy is needed when the path ends in separators.
void body_base(const Prog& p) {
	for (auto& ops : p.thr) {
		const std::vector<Op>* o = &ops;
		spawn([o] {
			faults(true);
			for (auto& op : *o) {
				std::string path(op.a & 1 ? "/" : ""), e;
				for (i64 i = 0; i < op.b; i++) { e = letters((op.a & 4095) + i, i == (op.a & 1) && op.a >= 4096 ? (size_t)(op.a >> 12) : 1 + (size_t)(((op.a & 4095) >> 3) + i) % 40); path += (i ? "/" : "") + e; }
				if (op.b) path += std::string((size_t)op.c, '/');
				if (path.empty()) e = "."; else if (!op.b) e = "/";
				char* s = (char*)halloc_end(path.size() + 1); memcpy(s, path.c_str(), path.size() + 1);
				as_string* f = (as_string*)halloc(sizeof *f);
				u64 f0 = my_faults(F_ALLOC);
				const char* q = as_basename(f, s);
				u64 k = my_faults(F_ALLOC) - f0;
				if (!q) {
					CHECK(k, "no-text", "a path has no base name though memory was available");
					CHECK(as_string_get(f) == nullptr, "wrong-text", "a base name that could not be made left a string");
				} else {
					std::string t = text_at(q, "a base name");
					CHECK(t == e && as_string_get(f) == q && as_string_len(f) == e.size(), "wrong-text", "the base name of \"%s\" is \"%s\" for \"%s\"", path.c_str(), t.c_str(), e.c_str());
				}
				as_val_val_destroy((as_val*)f);
				CHECK(!memcmp(s, path.c_str(), path.size() + 1), "changed", "taking a base name changed the path");
				hfree(f); hfree(s);
			}
			faults(false);
		});
	}
	join_all();
	check_no_leak("after the base names were released");
}
void gen_base(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	for (u64 t = 1 + r.below(2); t; t--) {
		std::vector<Op> o;
		for (u64 n = 1 + r.below(4); n; n--) o.push_back(Op{ 0, (i64)r.below(4096), (i64)r.below(4), (i64)r.below(4) });
		if (r.one_in(200)) for (auto& op : o) if (r.one_in(2)) { op.b = 1 + (i64)r.below(3); op.a |= r.pick<i64>({ 250, 255, 256, 257, 1000, 1024, 4095, 4096, 4097, 66000 }) << 12; }
		p.thr.push_back(o);
	}
	gen_sched(r, s, 200);
	gen_oom(r, s, 4);
	p.env.cap = 4000000;
}
const char* base_op(int) { return "basename"; }
Reg r30b({ "basename", "C30", 1, gen_base, body_base, base_op });

// ------------------------------------------------------------------ C29
enum { K_SHA1, K_RIPEMD, K_RIPEMD_PARTS, K_B64, K_B64_BACK, K_B64_INPLACE, K_B64_CHECK, K_HEX, K_UNHEX, K_TEXT, K_HASH, K_PACK, K_SERIAL, K_COMPARE, K_SB, K_BASENAME, K_NCPY, K_HASHMATH, K_DIGEST, K_ORDER, K_NOPS };
const char* k_op(int c) { static const char* n[] = { "sha1", "ripemd160", "ripemd160_in_parts", "base64_encode", "base64_decode", "base64_decode_in_place", "base64_validate", "to_hex", "from_hex", "text_of_value", "hash_of_value", "pack_unpack", "serialize", "compare", "string_builder", "basename", "copy_string", "hash", "digest", "byte_order" }; return c >= 0 && c < K_NOPS ? n[c] : "?"; }

struct Buf { u8* p; size_t n; Buf(size_t k) : p((u8*)halloc_end(k ? k : 1)), n(k) {} Buf(const std::string& s) : p((u8*)halloc_end(s.size() ? s.size() : 1)), n(s.size()) { if (n) memcpy(p, s.data(), n); } ~Buf() { hfree(p); } Buf(const Buf&) = delete; };
std::string hex(const void* p, size_t n) { std::string s; char b[4]; for (size_t i = 0; i < n; i++) { snprintf(b, sizeof b, "%02X", ((const u8*)p)[i]); s += b; } return s; }
std::string b64(const std::string& in) {
	static const char* T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string o;
	for (size_t i = 0; i < in.size(); i += 3) {
		u32 x = (u32)(u8)in[i] << 16; if (i + 1 < in.size()) x |= (u32)(u8)in[i + 1] << 8; if (i + 2 < in.size()) x |= (u8)in[i + 2];
		o += T[x >> 18]; o += T[x >> 12 & 63]; o += i + 1 < in.size() ? T[x >> 6 & 63] : '='; o += i + 2 < in.size() ? T[x & 63] : '=';
	}
	return o;
}
std::string bytes_of(Rng& r, size_t n) { std::string s; for (size_t i = 0; i < n; i++) s += (char)r.next(); return s; }

// One call (or a few belonging together) on arguments of its own. Gives everything that came out.
std::string call(const Op& op) {
	Rng r((u64)op.a * 2654435761u + 17);
	size_t n = (size_t)op.b;
	std::string in = bytes_of(r, n), out;
	auto want = [&](const std::string& got, const std::string& exp) { CHECK(got == exp, "wrong-result", "%s of %zu bytes gave \"%.40s\" for \"%.40s\"", k_op(op.code), n, got.c_str(), exp.c_str()); };
	switch (op.code) {
	case K_SHA1: { Buf a(in), o(20); cf_SHA1(a.p, a.n, o.p); return hex(o.p, 20); }
	case K_RIPEMD: { Buf a(in), o(20); cf_RIPEMD160(a.p, a.n, o.p); return hex(o.p, 20); }
	case K_RIPEMD_PARTS: {
		Buf a(in), o(20); cf_RIPEMD160_CTX* c = (cf_RIPEMD160_CTX*)halloc(sizeof(cf_RIPEMD160_CTX));
		cf_RIPEMD160_Init(c);
		for (size_t at = 0; at < n;) { size_t k = 1 + r.below(n - at); cf_RIPEMD160_Update(c, a.p + at, k); at += k; }
		cf_RIPEMD160_Final(o.p, c); hfree(c);
		Op one = op; one.code = K_RIPEMD; std::string e = call(one), got = hex(o.p, 20);
		want(got, e); return got; }
	case K_B64: { Buf a(in), o(cf_b64_encoded_len((u32)n)); if (!n) return ""; cf_b64_encode(a.p, (u32)n, (char*)o.p); out.assign((char*)o.p, o.n); want(out, b64(in)); return out; }
	case K_B64_BACK: case K_B64_CHECK: {
		std::string e = b64(in);
		bool bad = false;
		if (op.code == K_B64_CHECK && op.c % 3 == 0 && e.size()) { e[r.below(e.size())] = r.pick<char>({ '!', '-', '_', ' ', '\n', (char)0x80 }); bad = true; }
		Buf a(e), o(cf_b64_decoded_buf_size((u32)e.size())); u32* k = (u32*)halloc(4); *k = 0;
		bool ok = true;
		if (op.code == K_B64_CHECK) ok = cf_b64_validate_and_decode((char*)a.p, (u32)a.n, o.p, k); else cf_b64_decode((char*)a.p, (u32)a.n, o.p, k);
		out = !ok ? "refused" : *k <= o.n ? hex(o.p, *k) : "too much"; hfree(k);
		if (n) want(out, bad ? "refused" : hex(in.data(), n));
		return out; }
	case K_B64_INPLACE: {
		Buf a(b64(in)); u32* k = (u32*)halloc(4); *k = 0;
		bool ok = true;
		if (op.c & 1) ok = cf_b64_validate_and_decode_in_place(a.p, (u32)a.n, k); else cf_b64_decode_in_place(a.p, (u32)a.n, k);
		out = !ok ? "refused" : *k <= a.n ? hex(a.p, *k) : "too much"; hfree(k);
		if (n) want(out, hex(in.data(), n));
		return out; }
	case K_HEX: {
		size_t need = n * 2 + 1 + (op.c & 1 ? 2 : 0), room = op.c & 2 ? r.below(need) : need + (op.c & 4 ? r.below(3) : 0);
		Buf a(in), o(room); if (room) memset(o.p, 'z', room);
		bool ok = op.c & 1 ? as_bytes_to_string_with_prefix(a.p, (u32)n, (char*)o.p, (u32)room) : as_bytes_to_string(a.p, (u32)n, (char*)o.p, (u32)room);
		out = ok ? text_at((char*)o.p, "a hexadecimal text") : "refused";
		if (!ok && room) CHECK(o.p[0] == 0, "wrong-result", "a refused hexadecimal text is not empty");
		want(out, room < need ? "refused" : (op.c & 1 ? "0x" : "") + hex(in.data(), n));
		return out; }
	case K_UNHEX: {
		std::string h = hex(in.data(), n); bool bad = false;
		if (op.c & 1) for (auto& c : h) if (r.one_in(2)) c = (char)tolower(c);
		size_t room = op.c & 2 && n ? r.below(n) : n; bad = room < n;
		if ((op.c & 4) && r.one_in(2)) { h += 'A'; bad = true; }
		else if ((op.c & 4) && n) { h[r.below(h.size())] = r.pick<char>({ 'g', 'G', '/', ':', '@', '`', ' ' }); bad = true; }
		if (r.one_in(2)) h = "0x" + h;
		Buf a(h + std::string(1, '\0')), o(room);
		int k = as_bytes_from_string(o.p, (u32)room, (char*)a.p);
		out = k < 0 ? "refused" : (size_t)k <= room ? hex(o.p, (size_t)k) : "too much";
		want(out, bad ? "refused" : hex(in.data(), n));
		return out; }
	case K_TEXT: case K_HASH: case K_PACK: case K_SERIAL: case K_COMPARE: {
		std::vector<Op> ops; gen_build(r, ops, 4, 40);
		bool packs = op.code == K_PACK || op.code == K_SERIAL || op.code == K_COMPARE;
		for (auto& o : ops) if (packs && (o.code == B_REC || o.code == B_NOSTR || o.code == B_PAIR || o.code == B_WILD || o.code == B_INF || o.code == B_NOBYTES || o.code == B_GEO)) o.code = B_INT;
		if ((op.code == K_PACK || op.code == K_SERIAL) && (op.c & 16)) {       // more than one of the packer's buffers
			for (int k = 0; k < 2; k++) ops.push_back(Op{ B_LONG, (i64)r.below(1000), 4200 + (i64)r.below(2000), 0 });
			ops.push_back(Op{ B_LIST, 60, 0, 0 });
		}
		std::vector<Node> st; build(ops, st);
		if (st.empty()) return "";
		for (size_t i = 0; i + 1 < st.size(); i++) { if (op.code == K_COMPARE) { out += std::to_string((int)as_val_cmp(st[i].v, st[i + 1].v)) + std::to_string((int)as_val_cmp(st[i].v, st[i].v)); } as_val_val_destroy(st[i].v); }
		Node n = st.back();
		if (op.code == K_TEXT) { char* t = as_val_val_tostring(n.v); out = t ? text_at(t, "a text") : NONE; cf_free(t); want(out, shown(n)); }
		else if (op.code == K_HASH) out = n.kind == B_REC ? "" : std::to_string(as_val_val_hashcode(n.v));
		else if (op.code != K_COMPARE) {
			as_val* back = nullptr; int rc;
			if (op.code == K_PACK) {
				u32 sz = x_pack_size(n.v); Buf b(sz);
				as_packer* pk = (as_packer*)halloc(sizeof *pk); memset(pk, 0, sizeof *pk); pk->buffer = b.p; pk->capacity = sz;
				rc = as_pack_val(pk, n.v); CHECK(rc == 0 && (u32)pk->offset == sz, "wrong-result", "packing a value gave %d and %u bytes of %u", rc, (u32)pk->offset, sz);
				out = hex(b.p, sz);
				as_unpacker* up = (as_unpacker*)halloc(sizeof *up); memset(up, 0, sizeof *up); up->buffer = b.p; up->length = (u32)sz;
				rc = as_unpack_val(up, &back); hfree(pk); hfree(up);
			} else {
				as_buffer* b = (as_buffer*)halloc(sizeof *b); memset(b, 0, sizeof *b);
				rc = x_serialize(n.v, b, op.c & 1); CHECK(rc == 0, "wrong-result", "serializing a value gave %d", rc);
				out = hex(b->data, b->size);
				rc = x_deserialize(b, &back, op.c & 1); cf_free(b->data); hfree(b);
			}
			CHECK(rc == 0 && back, "wrong-result", "decoding a packed value gave %d", rc);
			char* t = as_val_val_tostring(back); std::string bt = t ? text_at(t, "a text") : NONE; cf_free(t); as_val_val_destroy(back);
			want(bt, shown(n));
		}
		as_val_val_destroy(n.v);
		return out; }
	case K_SB: {
		as_string_builder* sb = (as_string_builder*)halloc(sizeof *sb);
		as_string_builder_init(sb, 1 + (u32)r.below(8), true);
		std::string e; int k = 1 + (int)r.below(4);
		for (int i = 0; i < k; i++) {
			i64 x = ints[r.below(14)]; std::string s = letters((i64)r.below(100), r.below(12));
			switch (r.below(5)) {
			case 0: as_string_builder_append_int(sb, (int)x); e += std::to_string((int)x); break;
			case 1: as_string_builder_append_uint64(sb, (u64)x); e += std::to_string((u64)x); break;
			case 2: as_string_builder_append_int64(sb, x); e += std::to_string(x); break;
			case 3: as_string_builder_append_char(sb, (char)('a' + i)); e += (char)('a' + i); break;
			default: { Buf b(s + std::string(1, '\0')); as_string_builder_append(sb, (char*)b.p); e += s; break; }
			}
		}
		out = text_at(sb->data, "a built string"); as_string_builder_destroy(sb); hfree(sb);
		want(out, e); return out; }
	case K_BASENAME: {
		std::string path = r.one_in(2) ? "/" : "", e;
		int parts = 1 + (int)r.below(3); for (int i = 0; i < parts; i++) { e = letters((i64)r.below(100), 1 + r.below(6)); path += (i ? "/" : "") + e; }
		for (u64 k = r.below(3); k; k--) path += "/";
		Buf b(path + std::string(1, '\0')); as_string* f = (as_string*)halloc(sizeof *f);
		const char* q = as_basename(f, (char*)b.p);
		CHECK(q, "wrong-result", "a path has no base name");
		out = text_at(q, "a base name"); CHECK(as_string_get(f) == q && as_string_len(f) == e.size(), "wrong-result", "a base name differs from the string that holds it");
		as_val_val_destroy((as_val*)f); hfree(f);
		want(out, e); return out; }
	case K_NCPY: {
		size_t most = op.b > 6000 ? (size_t)op.b : r.one_in(6) ? 400 : 20; std::string s = letters((i64)r.below(100), r.below(most)); size_t room = 1 + r.below(most + 4);
		Buf a(s + std::string(1, '\0')), o(room);
		bool cut = as_strncpy((char*)o.p, (char*)a.p, (int)room);
		out = text_at((char*)o.p, "a copied string") + (cut ? "..." : "");
		want(out, s.size() < room ? s : s.substr(0, room - 1) + "..."); return out; }
	case K_HASHMATH: {
		Buf a(in); u64 *two = (u64*)halloc(8), x = x_hash_math((int)(op.c % 7), a.p, a.n, two); out = hex(&x, 8) + hex(two, 8); hfree(two);
		u64 f = 0xcbf29ce484222325ull; for (char ch : in) { f ^= (u8)ch; f *= 0x100000001b3ull; }
		if (op.c % 7 == 1) want(hex(&x, 8), hex(&f, 8));
		return out; }
	case K_DIGEST: {
		size_t k = n ? r.below(n + 1) : 0; Buf a(in.substr(0, k)), b(in.substr(k)), o(20), w(20), t(43);
		if (n) cf_RIPEMD160((const u8*)in.data(), n, w.p); else { Buf none(0); cf_RIPEMD160(none.p, 0, w.p); }
		int c = x_digest2(a.p, a.n, b.p, b.n, o.p, (char*)t.p, w.p);
		CHECK(c == 0, "wrong-result", "the digest of a text in two parts differs from that of the whole");
		out = text_at((char*)t.p, "the text of a digest"); std::string e = hex(o.p, 20); for (char& ch : e) ch = (char)tolower(ch);
		want(out, "0x" + e); return out; }
	case K_ORDER: {
		u64 v = r.next(), x = x_byte_order((int)(op.a % 16), v), e = v; int q = (int)(op.a % 16), w = q < 2 || q == 10 || q == 11 ? 2 : q < 4 || q == 12 || q == 13 ? 4 : 8;
		e = 0; for (int i = 0; i < w; i++) { u64 byte = v >> (8 * i) & 255; e |= byte << (8 * (q < 8 ? w - 1 - i : i)); }
		out = hex(&x, 8); want(out, hex(&e, 8)); return out; }
	}
	return "";
}
void body_c29(const Prog& p) {
	std::vector<std::vector<std::string>> alone;
	for (auto& ops : p.thr) { alone.push_back({}); for (auto& op : ops) alone.back().push_back(call(op)); }
	for (size_t t = 0; t < p.thr.size(); t++) {
		const std::vector<Op>* o = &p.thr[t]; const std::vector<std::string>* e = &alone[t];
		spawn([o, e] {
			for (size_t i = 0; i < o->size(); i++) {
				logf("%s of %d bytes", k_op((*o)[i].code), (int)(*o)[i].b);
				note(0x5000 + (*o)[i].code);
				std::string got = call((*o)[i]);
				CHECK(got == (*e)[i], "differs", "%s gave \"%.44s\", and \"%.44s\" when called alone", k_op((*o)[i].code), got.c_str(), (*e)[i].c_str());
			}
		});
	}
	join_all();
	for (size_t t = 0; t < p.thr.size(); t++) for (size_t i = 0; i < p.thr[t].size(); i++) {
		std::string got = call(p.thr[t][i]);
		CHECK(got == alone[t][i], "differs", "%s gave \"%.44s\" afterwards, and \"%.44s\" at first", k_op(p.thr[t][i].code), got.c_str(), alone[t][i].c_str());
	}
	check_no_leak("after all calls");
}
void gen_c29(Rng& r, Prog& p, Strategy& s) {
	gen_env(r, p.env);
	int nt = 2 + (int)r.below(2), same = r.one_in(3) ? -1 : (int)r.below(K_NOPS);
	static const int kin[][4] = { { K_SHA1, K_SHA1, K_RIPEMD, K_RIPEMD_PARTS }, { K_B64, K_B64_BACK, K_B64_INPLACE, K_B64_CHECK }, { K_HEX, K_UNHEX, K_TEXT, K_SB }, { K_PACK, K_SERIAL, K_COMPARE, K_HASH } };
	int fam = r.one_in(3) ? (int)r.below(4) : -1; i64 big = 0;
	if (r.one_in(80)) { same = K_SERIAL; fam = -1; big = 16; }
	i64 len = r.one_in(4000) ? 80000 : r.one_in(50) ? 6000 : r.one_in(8) ? 300 : r.one_in(2) ? 70 : 12;
	for (int t = 0; t < nt; t++) {
		std::vector<Op> o; int n = big ? 1 : 1 + (int)r.below(3);
		for (int i = 0; i < n; i++) {
			int c = fam >= 0 ? kin[fam][r.below(4)] : same >= 0 && !r.one_in(8) ? same : (int)r.below(K_NOPS);
			o.push_back(Op{ (i32)c, (i64)r.below(1u << 30), (i64)(r.one_in(6) ? r.pick<i64>({ 55, 56, 63, 64, 65, 119, 120, 128 }) : (i64)r.below((u64)len)), (i64)r.below(8) | big });
		}
		p.thr.push_back(o);
	}
	gen_sched(r, s, r.pick<u64>({ 300, 2000, 20000 }));
	p.env.cap = len > 6000 ? 100000000 : 8000000;
}
Reg r29({ "private_args", "C29", 10, gen_c29, body_c29, k_op });

}
