// Constant-time replay: records every basic block entered and every address loaded from or stored to while an operation
// runs on two operand sets placed in the same memory, and compares the two traces.
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include "CurvePoint.hpp"
#include "Ecdsa.hpp"
#include "FieldInt.hpp"
#include "Sha256Hash.hpp"
#include "Uint256.hpp"
using namespace std;
static uint64_t hsh; static bool on; static uint64_t cnt;
static inline void mix(uint64_t v) { if (on) { hsh = (hsh ^ v) * 0x9E3779B97F4A7C15ULL; hsh ^= hsh >> 29; cnt++; } }
extern "C" {
void __sanitizer_cov_trace_pc() { mix((uint64_t)__builtin_return_address(0)); }
#define LS(n) void __sanitizer_cov_load##n(void *p) { mix((uint64_t)p * 2); } void __sanitizer_cov_store##n(void *p) { mix((uint64_t)p * 2 + 1); }
LS(1) LS(2) LS(4) LS(8) LS(16)
}
typedef vector<uint8_t> B;
static uint32_t W[64]; static uint32_t E;
static Uint256 *u(int i) { return reinterpret_cast<Uint256*>(&W[8 * i]); }
static FieldInt *f(int i) { return reinterpret_cast<FieldInt*>(&W[8 * i]); }
static CurvePoint *p(int i) { return reinterpret_cast<CurvePoint*>(&W[8 * i]); }
static Sha256Hash *h(int i) { return reinterpret_cast<Sha256Hash*>(&W[8 * i]); }
static const Uint256 PM("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F"), PN("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141");
static volatile int sink; static uint8_t out[64];
#define OP(n, e) if (op == n) { on = true; e; on = false; return 1; }
static int __attribute__((noinline)) run(const string &op) {
	OP("uadd", sink = u(0)->add(*u(1), E)) OP("usub", sink = u(0)->subtract(*u(1), E)) OP("ushl", sink = u(0)->shiftLeft1()) OP("ushr", u(0)->shiftRight1(E))
	OP("urep", u(0)->replace(*u(1), E)) OP("uswap", u(0)->swap(*u(1), E)) OP("ueq", sink = *u(0) == *u(1)) OP("une", sink = *u(0) != *u(1)) OP("ult", sink = *u(0) < *u(1)) OP("ule", sink = *u(0) <= *u(1)) OP("ugt", sink = *u(0) > *u(1)) OP("uge", sink = *u(0) >= *u(1))
	OP("urecip", u(0)->reciprocal(PM)) OP("ureciN", u(0)->reciprocal(PN)) OP("ugetbe", u(0)->getBigEndianBytes(out))
	OP("ufromb", Uint256 z(out); sink = z.value[0])
	OP("fadd", f(0)->add(*f(1))) OP("fsub", f(0)->subtract(*f(1))) OP("fdbl", f(0)->multiply2()) OP("fsqr", f(0)->square()) OP("fmul", f(0)->multiply(*f(1))) OP("finv", f(0)->reciprocal()) OP("frep", f(0)->replace(*f(1), E))
	OP("feq", sink = *f(0) == *f(1)) OP("fne", sink = *f(0) != *f(1)) OP("flt", sink = *f(0) < *f(1)) OP("fle", sink = *f(0) <= *f(1)) OP("fgt", sink = *f(0) > *f(1)) OP("fge", sink = *f(0) >= *f(1))
	OP("ffromu", FieldInt z(*u(0)); sink = z.value[0])
	OP("padd", p(0)->add(*p(3))) OP("ptwice", p(0)->twice()) OP("pnorm", p(0)->normalize()) OP("prep", p(0)->replace(*p(3), E)) OP("pzero", sink = p(0)->isZero()) OP("pcurve", sink = p(0)->isOnCurve()) OP("peq", sink = *p(0) == *p(3)) OP("pne", sink = *p(0) != *p(3))
	OP("pcomp", p(0)->toCompressedPoint(out)) OP("pmul", p(0)->multiply(*u(3))) OP("ppub", CurvePoint q = CurvePoint::privateExponentToPublicPoint(*u(0)); sink = q.x.value[0])
	OP("heq", sink = *h(0) == *h(1)) OP("hne", sink = *h(0) != *h(1)) OP("hctor", Sha256Hash q(out, 32); sink = q.value[0])
	if (op == "sign") { on = true; bool r = Ecdsa::sign(*u(0), *h(1), *u(2), *u(3), *u(4)); on = false; return r ? 1 : 2; }
	if (op == "signh") { on = true; bool r = Ecdsa::signWithHmacNonce(*u(0), *h(1), *u(3), *u(4)); on = false; return r ? 1 : 2; }
	return 0;
}
static int tr(const string &op, const string &w, uint32_t e, uint64_t &hs, uint64_t &n) {
	memset(W, 0, sizeof W); memset(out, 0, sizeof out);
	for (size_t i = 0; i + 8 <= w.size() && i < 512; i += 8) W[i / 8] = (uint32_t)stoul(w.substr(i, 8), 0, 16);
	memcpy(out, W, 64); E = e;
	hsh = 1; cnt = 0; int r = run(op); hs = hsh; n = cnt; return r;
}
int main() {
	string l;
	while (getline(cin, l)) {
		istringstream s(l); string op, a, b; uint32_t e1, e2; s >> op >> a >> e1 >> b >> e2;
		uint64_t h1, h2, n1, n2;
		int r1 = tr(op, a, e1, h1, n1), r2 = tr(op, b, e2, h2, n2);
		if (!r1) cout << "?" << endl;
		else if (r1 == 2 || r2 == 2) cout << "unsuccessful" << endl;
		else if (h1 == h2 && n1 == n2 && n1 > 0) cout << "same" << endl;
		else cout << "traces differ (" << n1 << " and " << n2 << " events)" << endl;
	}
}
