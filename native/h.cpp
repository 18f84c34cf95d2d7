// Line-protocol harness over the real C++ library (compiled from /repo's current sources).
// Only used for concrete counterexample search and replay, never for proving.
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#define private public
#ifdef G_U
#include "Uint256.hpp"
#include "FieldInt.hpp"
#endif
#ifdef G_P
#include "CurvePoint.hpp"
#endif
#ifdef G_E
#include "Ecdsa.hpp"
#include "CurvePoint.hpp"
#endif
#ifdef G_H
#include "Sha256.hpp"
#include "Sha512.hpp"
#include "Ripemd160.hpp"
#include "Keccak256.hpp"
#include "Sha256Hash.hpp"
#endif
#ifdef G_B
#include "Base58Check.hpp"
#endif
#ifdef G_X
#include "ExtendedPrivateKey.hpp"
#endif
#ifdef G_C
#include "Sha256Hash.hpp"
#include "Utils.hpp"
#include "Uint256.hpp"
#include "FieldInt.hpp"
#endif
#ifdef G_A
#include "AsmX8664.hpp"
#endif
#undef private
#include "Uint256.hpp"
using std::string; using std::vector;
typedef vector<string> A;
typedef vector<uint8_t> By;
static int hx(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static By by(const string &s) { By r; if (s == "-") return r; for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back((uint8_t)(hx(s[i]) * 16 + hx(s[i + 1]))); return r; }
static string hex(const uint8_t *p, size_t n) { string r; const char *d = "0123456789abcdef"; for (size_t i = 0; i < n; i++) { r += d[p[i] >> 4]; r += d[p[i] & 15]; } return n ? r : "-"; }
static unsigned num(const string &s) { return (unsigned)strtoul(s.c_str(), nullptr, 0); }
// exact-size heap copies so that sanitizers see every overrun
struct Buf { uint8_t *p; size_t n; Buf(const By &b) : p((uint8_t*)malloc(b.size() ? b.size() : 1)), n(b.size()) { if (n) memcpy(p, b.data(), n); else { free(p); p = (uint8_t*)malloc(0); } } ~Buf() { free(p); } };
static void putw(uint32_t *w, const string &s, int n = 8) { for (int i = 0; i < n; i++) w[i] = (uint32_t)strtoul(s.substr(8 * (n - 1 - i), 8).c_str(), nullptr, 16); }
static string getw(const uint32_t *w, int n = 8) { string r; char b[9]; for (int i = n - 1; i >= 0; i--) { snprintf(b, 9, "%08x", w[i]); r += b; } return r; }
static string cstr(const char *p) { return hex((const uint8_t*)p, strlen(p)); }
static Uint256 U(const string &s) { Uint256 r; putw(r.value, s); return r; }

#ifdef G_U
static FieldInt F(const string &s) { FieldInt r((Uint256())); putw(r.value, s); return r; }
static string opU(const A &a) {
	const string &n = a[1];
	Uint256 x = U(a[2]); bool same = a.size() > 3 && a[3] == "="; Uint256 y0 = (a.size() > 3 && !same && a[3] != "-") ? U(a[3]) : Uint256();
	Uint256 &y = same ? x : y0; unsigned en = a.size() > 4 ? num(a[4]) : 1; unsigned r = 0;
	if (n == "add") r = x.add(y, en);
	else if (n == "sub") r = x.subtract(y, en);
	else if (n == "add1") r = x.add(y);
	else if (n == "sub1") r = x.subtract(y);
	else if (n == "shl") r = x.shiftLeft1();
	else if (n == "shr") x.shiftRight1(en);
	else if (n == "shr1") x.shiftRight1();
	else if (n == "inv") x.reciprocal(y);
	else if (n == "rep") x.replace(y, en);
	else if (n == "swap") x.swap(y, en);
	else if (n == "eq") r = x == y; else if (n == "ne") r = x != y;
	else if (n == "lt") r = x < y; else if (n == "le") r = x <= y;
	else if (n == "gt") r = x > y; else if (n == "ge") r = x >= y;
	else if (n == "consts") { x = Uint256::ZERO; y0 = Uint256::ONE; }
	else if (n == "def") { Uint256 z; x = z; }
	else if (n == "fromF") { Uint256 z(F(a[2])); x = z; }
	else return "?";
	return getw(x.value) + " " + getw(y.value) + " " + std::to_string(r);
}
static string opF(const A &a) {
	const string &n = a[1];
	if (n == "fromU") { FieldInt z(U(a[2])); return getw(z.value) + " - 0"; }
	FieldInt x = F(a[2]); bool same = a.size() > 3 && a[3] == "="; FieldInt y0 = (a.size() > 3 && !same && a[3] != "-") ? F(a[3]) : F(string(64, '0'));
	FieldInt &y = same ? x : y0; unsigned en = a.size() > 4 ? num(a[4]) : 1; unsigned r = 0;
	if (n == "add") x.add(y);
	else if (n == "sub") x.subtract(y);
	else if (n == "dbl") x.multiply2();
	else if (n == "sqr") x.square();
	else if (n == "mul") x.multiply(y);
	else if (n == "inv") x.reciprocal();
	else if (n == "rep") x.replace(y, en);
	else if (n == "eq") r = x == y; else if (n == "ne") r = x != y;
	else if (n == "lt") r = x < y; else if (n == "le") r = x <= y;
	else if (n == "gt") r = x > y; else if (n == "ge") r = x >= y;
	else return "?";
	return getw(x.value) + " " + getw(y.value) + " " + std::to_string(r);
}
#endif
#if defined(G_P) || defined(G_E)
static FieldInt FF(const string &s) { FieldInt r((Uint256())); putw(r.value, s); return r; }
static CurvePoint PT(const A &a, size_t i) { CurvePoint p(FF(a[i]), FF(a[i + 1])); p.z = FF(a[i + 2]); return p; }
static string pt(const CurvePoint &p) { return getw(p.x.value) + " " + getw(p.y.value) + " " + getw(p.z.value); }
#endif
#ifdef G_P
static string opP(const A &a) {
	const string &n = a[1];
	if (n == "consts") return pt(CurvePoint::G) + " " + pt(CurvePoint::ZERO) + " " + getw(CurvePoint::ORDER.value) + " " + getw(CurvePoint::A.value) + " " + getw(CurvePoint::B.value) + " " + getw(CurvePoint::FI_ZERO.value) + " " + getw(CurvePoint::FI_ONE.value);
	if (n == "pub") return pt(CurvePoint::privateExponentToPublicPoint(U(a[2])));
	CurvePoint p = PT(a, 2);
	if (n == "add") { CurvePoint q = PT(a, 5); p.add(q); return pt(p) + " " + pt(q); }
	if (n == "addself") { p.add(p); return pt(p) + " " + pt(p); }
	if (n == "dbl") { p.twice(); return pt(p); }
	if (n == "norm") { p.normalize(); return pt(p); }
	if (n == "mul") { Uint256 k = U(a[5]); p.multiply(k); return pt(p) + " " + getw(k.value); }
	if (n == "rep") { CurvePoint q = PT(a, 5); p.replace(q, num(a[8])); return pt(p) + " " + pt(q); }
	if (n == "eq") { CurvePoint q = PT(a, 5); return std::to_string(p == q) + " " + std::to_string(p != q); }
	if (n == "zero") return std::to_string(p.isZero());
	if (n == "curve") return std::to_string(p.isOnCurve());
	if (n == "comp") { uint8_t o[33]; p.toCompressedPoint(o); return hex(o, 33); }
	if (n == "ctor") { CurvePoint q(FF(a[2]), FF(a[3])); return pt(q); }
	return "?";
}
#endif
#ifdef G_E
static string opE(const A &a) {
	const string &n = a[1];
	if (n == "mulord") { Uint256 x = U(a[2]), y = U(a[3]); if (a.size() > 4) { Ecdsa::multiplyModOrder(x, x); return getw(x.value) + " -"; } Ecdsa::multiplyModOrder(x, y); return getw(x.value) + " " + getw(y.value); }
	if (n == "sign" || n == "hmac") {
		Uint256 d = U(a[2]); By hb = by(a[3]); Sha256Hash h(hb.data(), 32);
		Uint256 r = U(string(64, 'c')), s = U(string(64, 'd')); bool ok;
		string ks = "-";
		if (n == "sign") { Uint256 k = U(a[4]); ok = Ecdsa::sign(d, h, k, r, s); ks = getw(k.value); }
		else ok = Ecdsa::signWithHmacNonce(d, h, r, s);
		return std::to_string(ok) + " " + getw(r.value) + " " + getw(s.value) + " " + getw(d.value) + " " + ks + " " + hex(h.value, 32);
	}
	if (n == "ver") {
		CurvePoint q = PT(a, 2); By hb = by(a[5]); Sha256Hash h(hb.data(), 32); Uint256 r = U(a[6]), s = U(a[7]);
		bool ok = Ecdsa::verify(q, h, r, s);
		return std::to_string(ok);
	}
	return "?";
}
#endif
#ifdef G_H
static string opH(const A &a) {
	const string &n = a[1];
	if (n == "hmac256" || n == "hmac512") {
		Buf k(by(a[2])), m(by(a[3])); By k0(k.p, k.p + k.n), m0(m.p, m.p + m.n); string r;
		if (n == "hmac256") { Sha256Hash h = Sha256::getHmac(k.p, k.n, m.p, m.n); r = hex(h.value, 32); }
		else { uint8_t o[64]; Sha512::getHmac(k.p, k.n, m.p, m.n, o); r = hex(o, 64); }
		if (By(k.p, k.p + k.n) != k0 || By(m.p, m.p + m.n) != m0) r += " modified";
		return r;
	}
	if (n == "inc256" || n == "inc512") {
		Sha256 h; Sha512 g;
		for (size_t i = 2; i < a.size(); i++) { Buf m(by(a[i])); if (n == "inc256") h.append(m.p, m.n); else g.append(m.p, m.n); }
		if (n == "inc256") { Sha256Hash r = h.getHash(); return hex(r.value, 32); }
		uint8_t o[64]; g.getHash(o); return hex(o, 64);
	}
	Buf m(by(a[2])); By m0(m.p, m.p + m.n); string r;
	if (n == "sha256") { Sha256Hash h = Sha256::getHash(m.p, m.n); r = hex(h.value, 32); }
	else if (n == "sha256d") { Sha256Hash h = Sha256::getDoubleHash(m.p, m.n); r = hex(h.value, 32); }
	else if (n == "sha512") { uint8_t o[64]; Sha512::getHash(m.p, m.n, o); r = hex(o, 64); }
	else if (n == "ripemd") { uint8_t o[20]; Ripemd160::getHash(m.p, m.n, o); r = hex(o, 20); }
	else if (n == "keccak") { uint8_t o[32]; Keccak256::getHash(m.p, m.n, o); r = hex(o, 32); }
	else return "?";
	if (By(m.p, m.p + m.n) != m0) r += " modified";
	return r;
}
#endif
#if defined(G_B) || defined(G_X)
#include "ExtendedPrivateKey.hpp"
static string xk(const ExtendedPrivateKey &k) {
	return getw(k.privateKey.value) + " " + hex(k.chainCode, 32) + " " + std::to_string(k.depth) + " " + std::to_string(k.index) + " " + hex(k.parentPubkeyHash, 4)
		+ " " + getw(k.publicKey.x.value) + " " + getw(k.publicKey.y.value) + " " + getw(k.publicKey.z.value);
}
#endif
#ifdef G_B
static string opB(const A &a) {
	const string &n = a[1];
	if (n == "epub") { By h = by(a[2]); Buf o(By(36, 0xAA)); Base58Check::pubkeyHashToBase58Check(h.data(), (uint8_t)num(a[3]), (char*)o.p); return cstr((char*)o.p); }
	if (n == "epriv") { Uint256 k = U(a[2]); Buf o(By(53, 0xAA)); Base58Check::privateKeyToBase58Check(k, (uint8_t)num(a[3]), num(a[4]) != 0, (char*)o.p); return cstr((char*)o.p); }
	if (n == "exprv") { ExtendedPrivateKey k; k.privateKey = U(a[2]); By c = by(a[3]); memcpy(k.chainCode, c.data(), 32); k.depth = (uint8_t)num(a[4]); k.index = num(a[5]); By p = by(a[6]); memcpy(k.parentPubkeyHash, p.data(), 4);
		Buf o(By(112, 0xAA)); Base58Check::extendedPrivateKeyToBase58Check(k, (char*)o.p); return cstr((char*)o.p); }
	By sb = by(a[2]); sb.push_back(0); Buf s(sb); const char *st = (const char*)s.p;
	if (n == "dpub") { Buf o(By(20, 0xCC)); uint8_t v = 0xCC; bool nul = a.size() > 3; bool ok = Base58Check::pubkeyHashFromBase58Check(st, o.p, nul ? nullptr : &v); return std::to_string(ok) + " " + hex(o.p, 20) + " " + std::to_string(v); }
	if (n == "dpriv") { Uint256 k = U(string(64, 'c')); uint8_t v = 0xCC; uint8_t cb = 0xCC; bool c; memcpy(&c, "\1", 1); bool c2; memcpy(&c2, "\0", 1); bool nul = a.size() > 3;
		Uint256 k2 = U(string(64, '3')); uint8_t v2 = 0x33; (void)cb;
		bool ok = Base58Check::privateKeyFromBase58Check(st, k, nul ? nullptr : &v, nul ? nullptr : &c);
		bool ok2 = Base58Check::privateKeyFromBase58Check(st, k2, nul ? nullptr : &v2, nul ? nullptr : &c2);
		return std::to_string(ok) + " " + getw(k.value) + " " + std::to_string(v) + " " + std::to_string(c) + " " + std::to_string(ok2) + " " + getw(k2.value) + " " + std::to_string(v2) + " " + std::to_string(c2); }
	if (n == "dxprv") { ExtendedPrivateKey k; k.privateKey = U(string(64, 'c')); memset(k.chainCode, 0xCC, 32); k.depth = 0xCC; k.index = 0xCCCCCCCC; memset(k.parentPubkeyHash, 0xCC, 4);
		bool ok = Base58Check::extendedPrivateKeyFromBase58Check(st, k); return std::to_string(ok) + " " + xk(k); }
	return "?";
}
#endif
#ifdef G_X
static string opX(const A &a) {
	if (a[1] == "def") { ExtendedPrivateKey k; return xk(k); }
	By c = by(a[3]), p = by(a[6]);
	ExtendedPrivateKey k(U(a[2]), c.data(), (uint8_t)num(a[4]), num(a[5]), p.data());
	if (a[1] == "ctor") return xk(k);
	string before = xk(k);
	ExtendedPrivateKey r = k.getChildKey(num(a[7]));
	return xk(r) + (xk(k) == before ? "" : " modified");
}
#endif
#ifdef G_C
static string opC(const A &a) {
	const string &n = a[1];
	if (n == "hb") { Buf b(by(a[2])); Sha256Hash h(b.p, b.n); return hex(h.value, 32); }
	if (n == "hs") { By b = by(a[2]); b.push_back(0); Buf s(b); Sha256Hash h((const char*)s.p); return hex(h.value, 32); }
	if (n == "heq") { By b = by(a[2]), c = by(a[3]); Sha256Hash h(b.data(), 32), g(c.data(), 32); return std::to_string(h == g) + " " + std::to_string(h != g); }
	if (n == "us") { By b = by(a[2]); b.push_back(0); Buf s(b); Uint256 u((const char*)s.p); return getw(u.value); }
	if (n == "fs") { By b = by(a[2]); b.push_back(0); Buf s(b); FieldInt u((const char*)s.p); return getw(u.value); }
	if (n == "ub") { Buf b(by(a[2])); Uint256 u((const uint8_t*)b.p); return getw(u.value); }
	if (n == "gb") { Uint256 u = U(a[2]); Buf o(By(32, 0xAA)); u.getBigEndianBytes(o.p); return hex(o.p, 32); }
	if (n == "phd") return std::to_string(Utils::parseHexDigit((int)strtol(a[2].c_str(), nullptr, 0)));
	if (n == "sbu") { Buf o(By(4, 0xAA)); Utils::storeBigUint32(num(a[2]), o.p); return hex(o.p, 4); }
	if (n == "cpy") { Buf s(by(a[2])), d(By(s.n, 0xAA)); Utils::copyBytes(d.p, s.p, s.n); return hex(d.p, d.n); }
	return "?";
}
#endif
#ifdef G_A
static void fillw(uint32_t *w, const string &s, int n) { putw(w, s, n); }
static string opA(const A &a) {
	const string &n = a[1]; unsigned r = 0;
	if (n.compare(0, 1, "F") == 0) {
		uint32_t d[26], x[18], y[18]; size_t nx = a[2].size() / 8, ny = a.size() > 3 ? a[3].size() / 8 : 0;
		memset(d, 0xA5, sizeof d); memset(x, 0x5A, sizeof x); memset(y, 0x5A, sizeof y); fillw(x + 1, a[2], (int)nx); if (ny) fillw(y + 1, a[3], (int)ny);
		int nd = 0;
		if (n == "Fmul") { asm_FieldInt_multiply256x256eq512(d + 1, x + 1, y + 1); nd = 16; }
		else if (n == "F0") { asm_FieldInt_multiplyBarrettStep0(d + 1, x + 1); nd = 24; }
		else if (n == "F1") { asm_FieldInt_multiplyBarrettStep1(d + 1, x + 1); nd = 16; }
		else if (n == "F2") { asm_FieldInt_multiplyBarrettStep2(d + 1, x + 1, y + 1); nd = 9; }
		return getw(d + 1, nd) + " " + getw(x + 1, (int)nx) + " " + (ny ? getw(y + 1, (int)ny) : "-") + (d[0] == 0xA5A5A5A5u && d[nd + 1] == 0xA5A5A5A5u ? " ok" : " overrun");
	}
	uint32_t x[10], y0[10]; memset(x, 0xA5, sizeof x); memset(y0, 0x5A, sizeof y0); fillw(x + 1, a[2], 8);
	bool same = a.size() > 3 && a[3] == "="; if (a.size() > 3 && !same && a[3] != "-") fillw(y0 + 1, a[3], 8);
	uint32_t *p = x + 1, *q = same ? p : y0 + 1; unsigned en = a.size() > 4 ? num(a[4]) : 1;
	// callers may leave anything in the upper half of a 32-bit argument's register
	typedef uint32_t (*F3)(uint32_t*, const uint32_t*, uint64_t);
	volatile uint64_t junk = 0x5A5A5A5F00000000ull; uint64_t en64 = junk | en;
	if (n == "addj") r = ((F3)asm_Uint256_add)(p, q, en64); else if (n == "subj") r = ((F3)asm_Uint256_subtract)(p, q, en64);
	else if (n == "repj") ((F3)asm_Uint256_replace)(p, q, en64); else if (n == "swapj") ((F3)asm_Uint256_swap)(p, q, en64);
	else if (n == "shrj") ((void (*)(uint32_t*, uint64_t))asm_Uint256_shiftRight1)(p, en64);
	else if (n == "add") r = asm_Uint256_add(p, q, en); else if (n == "sub") r = asm_Uint256_subtract(p, q, en);
	else if (n == "shl") r = asm_Uint256_shiftLeft1(p); else if (n == "shr") asm_Uint256_shiftRight1(p, en);
	else if (n == "rep") asm_Uint256_replace(p, q, en); else if (n == "swap") asm_Uint256_swap(p, q, en);
	else if (n == "eq") r = asm_Uint256_equalTo(p, q); else if (n == "lt") r = asm_Uint256_lessThan(p, q);
	else return "?";
	return getw(p) + " " + getw(q) + " " + std::to_string(r) + (x[0] == 0xA5A5A5A5u && x[9] == 0xA5A5A5A5u && y0[0] == 0x5A5A5A5Au && y0[9] == 0x5A5A5A5Au ? "" : " overrun");
}
#endif
int main() {
	string line;
	while (std::getline(std::cin, line)) {
		std::istringstream is(line); A a; string w; while (is >> w) a.push_back(w);
		string r = "?";
		if (a.empty()) { std::cout << std::endl; continue; }
#ifdef G_U
		if (a[0] == "u") r = opU(a); if (a[0] == "f") r = opF(a);
#endif
#ifdef G_P
		if (a[0] == "p") r = opP(a);
#endif
#ifdef G_E
		if (a[0] == "e") r = opE(a);
#endif
#ifdef G_H
		if (a[0] == "h") r = opH(a);
#endif
#ifdef G_B
		if (a[0] == "b") r = opB(a);
#endif
#ifdef G_X
		if (a[0] == "x") r = opX(a);
#endif
#ifdef G_C
		if (a[0] == "c") r = opC(a);
#endif
#ifdef G_A
		if (a[0] == "a") r = opA(a);
#endif
		std::cout << r << std::endl;
	}
	return 0;
}
