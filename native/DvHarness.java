package io.nayuki.bitcoin.crypto;

import java.io.*;
import java.lang.reflect.*;
import java.util.*;

// Line-protocol harness over the real Java library; concrete counterexample search and replay only.
public final class DvHarness {
	static byte[] by(String s) { if (s.equals("null")) return null; if (s.equals("-")) return new byte[0]; byte[] r = new byte[s.length() / 2]; for (int i = 0; i < r.length; i++) r[i] = (byte)Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16); return r; }
	static String hex(byte[] b) { if (b.length == 0) return "-"; StringBuilder sb = new StringBuilder(); for (byte x : b) sb.append(String.format("%02x", x & 0xFF)); return sb.toString(); }
	static final char[] D = "0123456789abcdef".toCharArray();
	static String whex(int[] b) { if (b.length == 0) return "-"; char[] r = new char[b.length * 8]; for (int i = 0; i < b.length; i++) for (int j = 0; j < 8; j++) r[i * 8 + j] = D[(b[i] >>> (28 - 4 * j)) & 15]; return new String(r); }
	static int[] wd(String s) { if (s.equals("null")) return null; if (s.equals("-")) return new int[0]; int[] r = new int[s.length() / 8]; for (int i = 0; i < r.length; i++) r[i] = (int)Long.parseLong(s.substring(8 * i, 8 * i + 8), 16); return r; }
	static String st(String s) { if (s.equals("null")) return null; if (s.equals("-")) return ""; StringBuilder sb = new StringBuilder(); for (int i = 0; i < s.length(); i += 4) sb.append((char)Integer.parseInt(s.substring(i, i + 4), 16)); return sb.toString(); }
	static String us(String s) { if (s.isEmpty()) return "-"; StringBuilder sb = new StringBuilder(); for (char c : s.toCharArray()) sb.append(String.format("%04x", (int)c)); return sb.toString(); }
	static String ret(Object o) {
		if (o == null) return "void";
		if (o instanceof byte[]) return hex((byte[])o);
		if (o instanceof int[]) return whex((int[])o);
		if (o instanceof String) return us((String)o);
		if (o instanceof Sha256Hash) return hex(((Sha256Hash)o).toBytes());
		if (o instanceof Object[]) { StringBuilder sb = new StringBuilder(); for (Object x : (Object[])o) { if (sb.length() > 0) sb.append(' '); sb.append(ret(x)); } return sb.toString(); }
		return o.toString();
	}
	static final Map<String, Method> cache = new HashMap<>();
	static Method find(String cls, String name, int n, Class<?> first) throws Exception {
		String key = cls + "." + name + "/" + n + "/" + first;
		Method m = cache.get(key);
		if (m == null) {
			for (Method c : Class.forName("io.nayuki.bitcoin.crypto." + cls).getDeclaredMethods())
				if (c.getName().equals(name) && c.getParameterCount() == n && (n == 0 || first == null || c.getParameterTypes()[0] == first)) m = c;
			if (m == null) throw new NoSuchMethodException(key);
			m.setAccessible(true);
			cache.put(key, m);
		}
		return m;
	}
	static String run(String[] a) throws Throwable {
		try {
			switch (a[0]) {
				case "w": {  // class method array ints... -> ret array
					int[] v = wd(a[3]);
					Object[] args = new Object[a.length - 3]; args[0] = v;
					for (int i = 4; i < a.length; i++) args[i - 3] = (int)Long.parseLong(a[i]);
					Object r = find(a[1], a[2], args.length, int[].class).invoke(null, args);
					return ret(r) + " " + whex(v);
				}
				case "W": {  // class method array off array off [ints]
					int[] v = wd(a[3]); int[] y = a[5].equals("=") ? v : wd(a[5]);
					Object[] args = new Object[a.length - 3]; args[0] = v; args[1] = Integer.parseInt(a[4]); args[2] = y;
					for (int i = 6; i < a.length; i++) args[i - 3] = Integer.parseInt(a[i]);
					Object r = find(a[1], a[2], args.length, int[].class).invoke(null, args);
					return ret(r) + " " + whex(v) + " " + whex(y);
				}
				case "b": {  // class method byte arrays -> ret, with modification check
					Object[] args = new Object[a.length - 3]; byte[][] cp = new byte[args.length][];
					for (int i = 0; i < args.length; i++) { args[i] = by(a[3 + i]); cp[i] = args[i] == null ? null : ((byte[])args[i]).clone(); }
					Object r = find(a[1], a[2], args.length, byte[].class).invoke(null, args);
					String s = ret(r);
					for (int i = 0; i < args.length; i++) if (!Arrays.equals((byte[])args[i], cp[i])) s += " modified";
					return s;
				}
				case "s": {  // class method string -> ret
					Object r = find(a[1], a[2], 1, String.class).invoke(null, st(a[3]));
					return ret(r);
				}
				case "sign": {
					int[] d = wd(a[1]), d0 = d == null ? null : d.clone(); int[] k = a[3].equals("hmac") ? null : wd(a[3]), k0 = k == null ? null : k.clone();
					byte[] hb = by(a[2]);
					Sha256Hash h = hb == null ? null : new Sha256Hash(hb);
					int n = a.length > 4 ? Integer.parseInt(a[4]) : 8;
					int[] r = new int[n], s = new int[n]; Arrays.fill(r, 0xCCCCCCCC); Arrays.fill(s, 0xDDDDDDDD);
					boolean ok = a[3].equals("hmac") ? Ecdsa.signWithHmacNonce(d, h, r, s) : Ecdsa.sign(d, h, k, r, s);
					return ok + " " + whex(r) + " " + whex(s) + (Arrays.equals(d, d0) && Arrays.equals(k, k0) && Arrays.equals(h.toBytes(), hb) ? "" : " modified");
				}
				case "ver": {
					int[] q = wd(a[1]), r = wd(a[3]), s = wd(a[4]); int[] q0 = q.clone(), r0 = r.clone(), s0 = s.clone();
					boolean ok = Ecdsa.verify(q, new Sha256Hash(by(a[2])), r, s);
					return ok + (Arrays.equals(q, q0) && Arrays.equals(r, r0) && Arrays.equals(s, s0) ? "" : " modified");
				}
				case "g2b": return ret(Bech32.bitGroupsToBech32(st(a[1]), by(a[2])));
				case "s2b": return ret(Bech32.segwitToBech32(st(a[1]), Integer.parseInt(a[2]), by(a[3])));
				case "b2g": return ret(Bech32.bech32ToBitGroups(st(a[1])));
				case "b2s": return ret(Bech32.bech32ToSegwit(st(a[1])));
				case "const": {
					Field f = Class.forName("io.nayuki.bitcoin.crypto." + a[1]).getDeclaredField(a[2]); f.setAccessible(true);
					return ret(f.get(null));
				}
				case "hb": {
					byte[] b = by(a[1]); Sha256Hash h = new Sha256Hash(b); byte[] o = b.clone();
					for (int i = 0; i < b.length; i++) b[i] ^= 0x5A;
					byte[] c = h.toBytes(); byte[] c0 = c.clone(); for (int i = 0; i < c.length; i++) c[i] ^= 0x33;
					return hex(h.toBytes()) + " " + us(h.toString()) + (Arrays.equals(c0, o) && Arrays.equals(h.toBytes(), o) ? "" : " aliased");
				}
				case "hs": { Sha256Hash h = new Sha256Hash(st(a[1])); return hex(h.toBytes()) + " " + us(h.toString()); }
				case "hcmp": {
					Sha256Hash x = new Sha256Hash(by(a[1])), y = new Sha256Hash(by(a[2]));
					return Integer.signum(x.compareTo(y)) + " " + Integer.signum(y.compareTo(x)) + " " + x.equals(y) + " " + y.equals(x) + " " + (x.hashCode() == y.hashCode()) + " " + x.equals(null) + " " + x.equals("a") + " " + (x.hashCode() == x.hashCode());
				}
				case "h2u": { int[] v = wd(a[2]); Int256Math.hexToUint(st(a[1]), v, Integer.parseInt(a[3])); return whex(v); }
				case "u2h": { int[] v = wd(a[1]); int[] v0 = v.clone(); String s = us(Int256Math.uintToHex(v, Integer.parseInt(a[2]))); return s + (Arrays.equals(v, v0) ? "" : " modified"); }
				case "u2b": { int[] v = wd(a[1]); int[] v0 = v.clone(); String s = hex(Int256Math.uintToBytes(v, Integer.parseInt(a[2]))); return s + (Arrays.equals(v, v0) ? "" : " modified"); }
				case "b2u": { byte[] b = by(a[1]); int[] v = wd(a[2]); Int256Math.bytesToUint(b, v, Integer.parseInt(a[3])); return whex(v); }
				case "copy": { int[] v = wd(a[2]); int[] y = a[4].equals("=") ? v : wd(a[4]);
					if (a[1].equals("p")) CurvePointMath.copy(v, Integer.parseInt(a[3]), y, Integer.parseInt(a[5])); else Int256Math.copy(v, Integer.parseInt(a[3]), y, Integer.parseInt(a[5]));
					return whex(v) + " " + whex(y); }
			}
			return "?";
		} catch (InvocationTargetException e) { throw e.getCause(); }
	}
	public static void main(String[] args) throws Exception {
		BufferedReader in = new BufferedReader(new InputStreamReader(System.in, "US-ASCII"));
		PrintStream out = new PrintStream(new FileOutputStream(FileDescriptor.out), false, "US-ASCII");
		for (String l; (l = in.readLine()) != null; ) {
			String r;
			try { r = run(l.trim().split(" ")); }
			catch (NoSuchMethodException | NoSuchFieldException | ClassNotFoundException e) { r = "?"; }
			catch (Throwable e) { r = "EXC " + e.getClass().getName() + " " + String.valueOf(e.getMessage()).replace('\n', ' '); }
			out.println(r);
			out.flush();
		}
	}
}
