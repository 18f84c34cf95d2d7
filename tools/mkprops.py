import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],**({'observe_at':observe} if observe else {}))))
U='cpp/Uint256.cpp';F='cpp/FieldInt.cpp';CP='cpp/CurvePoint.cpp';E='cpp/Ecdsa.cpp';A='cpp/AsmX8664.s';B='cpp/Base58Check.cpp'
J='java/io/nayuki/bitcoin/crypto/'
JI=J+'Int256Math.java';JC=J+'CurvePointMath.java';JE=J+'Ecdsa.java'
p('C01','256-bit addition, subtraction and shifts are exact',
 "For every pair of 256-bit values and every enable bit, addition, subtraction, left shift and right shift by one in both the C++ and Java libraries give exactly the mathematical result modulo 2^256, together with the exact carry, borrow or shifted-out bit. When the enable bit is 0 the conditional forms leave the value (and report a zero carry) as if nothing had been added, subtracted or shifted. Words other than the destination are never changed, including when source and destination of the Java forms overlap.",
 ['inputs','configurations'],'all 2^512 operand pairs x enable bit, pure C++, x86-64 accelerated C++ and Java, every permitted overlap of operands',
 'Tests try a few hundred fixed and random operands; long carry and borrow chains across particular words have negligible probability in random data.',
 [U,'cpp/Uint256.hpp',A,JI],[('word loop with carry','Uint256::add/subtract/shiftLeft1/shiftRight1'),('asm carry chain','asm_Uint256_*'),('word loop','Int256Math.uintAdd/uintSubtract/uintShift*')])
p('C02','Comparisons and conditional copy/swap of 256-bit values are exact',
 "For every pair of 256-bit values the equality and ordering tests agree with the order of the mathematical integers. Conditional copy and conditional swap transfer the complete value when the enable bit is 1 and change nothing when it is 0. This holds in the C++ library (portable and accelerated) and the Java library.",
 ['inputs','configurations'],'all operand pairs and enable bits in all three implementations',
 'Tests sample operands; a comparison wrong only when specific words are equal or have the top bit set is not reached.',
 [U,A,F,JI],[('constant-time comparison','Uint256::operator==/<, Int256Math.equalTo/lessThan/isZero'),('masked select','replace/swap')])
p('C03','Modular inverse is correct for every odd modulus and coprime value',
 "For every odd modulus greater than 1 and every value below it that is coprime to the modulus, the modular reciprocal is the unique number below the modulus whose product with the value is 1 modulo the modulus; the reciprocal of zero is zero. In particular every nonzero field element and every nonzero residue modulo the curve order is inverted exactly. The modulus operand is unchanged.",
 ['inputs','configurations'],'all odd moduli m > 1 and all values coprime to m or zero; all three implementations',
 'Tests invert random numbers; inputs that need (close to) the maximum number of halving steps, such as powers of two, are measure zero.',
 [U,F,JI],[('binary extended GCD, 512 iterations','Uint256::reciprocal, FieldInt::reciprocal, Int256Math.reciprocal')])
p('C04','Prime-field arithmetic is exact and always fully reduced',
 "For all field elements (integers in [0, p) for the secp256k1 prime p) addition, subtraction, doubling, squaring and multiplication give the exact residue modulo p as the representative in [0, p), including when operands are the same object or overlap where that is permitted. Converting any 256-bit integer to a field element reduces it modulo p.",
 ['inputs','configurations'],'all pairs of field elements; pure C++, accelerated C++ and Java',
 'Multiplication errors confined to rare carries or to results near p (probability about 2^-32 to 2^-224 per product) cannot be reached by sampling.',
 [F,'cpp/FieldInt.hpp',A,JI],[('conditional subtract of p','FieldInt::add/subtract/multiply2'),('Barrett reduction','FieldInt::multiply, Int256Math.fieldMultiply')])
p('C05','Accelerated x86-64 routines compute exactly what they document',
 "For every input, each x86-64 assembly routine writes exactly the documented function of its input words to its destination and returns the documented value. It touches no other memory, preserves the registers the calling convention reserves, and leaves its read-only operands unchanged, so the accelerated build is observationally identical to the portable build.",
 ['inputs','configurations'],'all values of all operand words (and enable flags) of all assembly routines',
 'Tests only exercise the routines through a few hundred operands, so rare internal carries are never taken; register or frame violations show only with a particular compiler register allocation.',
 [A,'cpp/AsmX8664.hpp',U,F],[('hand-written carry chains, SSE masks','AsmX8664.s')])
p('C06','Curve point addition and doubling implement the group law',
 "For every pair of valid projective representations of points of the curve y^2 = x^3 + 7 (including the point at infinity, equal points, opposite points, and non-normalized representations) adding and doubling produce a valid representation of the group-law sum. The result coordinates are always fully reduced field elements, and the second operand is unchanged.",
 ['inputs','configurations'],'all pairs of curve points in all projective representations; C++ and Java',
 'Special cases (P = -Q or P = Q under different scaling, infinity with arbitrary y) are isolated points among 2^768 representations.',
 [CP,'cpp/CurvePoint.hpp',JC],[('case selection by masks','CurvePoint::add/twice, CurvePointMath.add/twice')])
p('C07','Scalar multiplication yields n times the point for every n',
 "For every curve point P (in any representation, including infinity) and every 256-bit unsigned integer n, including 0, the curve order and values above the order, scalar multiplication yields a representation of exactly n*P. The scalar is unchanged.",
 ['inputs','configurations'],'all 2^256 scalars and all curve points; C++ and Java',
 'Tests use a few dozen scalars; a window that is mishandled only for one digit value at one position is rarely hit, and intermediate coincidences (adding equal or opposite points) need crafted scalars.',
 [CP,JC],[('16-entry table, 4-bit windows','CurvePoint::multiply, CurvePointMath.multiply')])
p('C08','Normalization, zero/curve tests, equality and compressed form are correct',
 "Normalizing any point representation yields the unique affine representation of the same point (z = 1), or the canonical zero representation for infinity, and is idempotent. The zero test holds exactly for representations of infinity, the on-curve test holds exactly for normalized points that satisfy the curve equation, and the compressed serialization of a normalized point is the parity header byte 02 or 03 followed by the 32-byte big-endian x. The public point of a private key k in [1, n) is the normalized k*G for the standard secp256k1 generator.",
 ['inputs','configurations'],'all coordinate triples of reduced field elements; all private keys',
 'Tests check a list of fixed points only.',
 [CP,JC],[('reciprocal of z and masked replacement','CurvePoint::normalize, CurvePointMath.normalize'),('predicate','isZero/isOnCurve'),('serialization','CurvePoint::toCompressedPoint'),('class constants','CurvePoint::G/ORDER/A/B')])
p('C09','ECDSA signing returns exactly the standard low-S signature',
 "For every private key in [1, n), every 32-byte message hash (also those whose integer value is not below the order n) and every nonce k, signing fails exactly when k is 0 or at least n or when r or s would be 0; otherwise it returns r = x(kG) mod n and s = min(s', n - s') with s' = k^-1 (z + r d) mod n. On failure the output variables are not assigned.",
 ['inputs','configurations'],'all private keys, hashes and nonces; pure C++, accelerated C++ and Java',
 'Tests use fixed vectors; message hashes at or above n, carries in the modular sum and s on the low-S boundary do not occur in random data.',
 [E,JE],[('sign','Ecdsa::sign, Ecdsa.sign'),('modular product','multiplyModOrder')])
p('C10','ECDSA verification accepts exactly the valid signatures',
 "For every public key, message hash and (r, s), verification returns true if and only if the key is a normalized non-zero point on the curve, r and s lie in [1, n), and the x coordinate of (z/s)G + (r/s)Q reduced modulo n equals r with that sum not the point at infinity. Inputs that are out of range, off the curve, zero or not normalized are rejected without any failure.",
 ['inputs','configurations'],'all public key representations, hashes and 512-bit (r,s) pairs; all implementations',
 'An adversary chooses the inputs: acceptance bugs hide in ranges (r or s at 0, n, n+1, x >= n) that vectors only sample.',
 [E,JE],[('range and key checks, double scalar product','Ecdsa::verify, Ecdsa.verify')])
p('C11','Every successfully created signature verifies',
 "Whenever signing with a private key d in [1, n) succeeds for a message hash, verification of the returned (r, s) against the public key d*G and the same hash returns true; so does the variant with s replaced by n - s. Signatures made by one implementation verify in the others.",
 ['inputs','configurations'],'all (private key, hash, nonce) triples and all pairs of implementations',
 'Round trips are tested on a small list of keys.',
 [E,JE,CP],[('sign/verify contracts composed','Ecdsa::sign + Ecdsa::verify')])
p('C12','Deterministic signing uses HMAC-SHA-256(key, hash) as the nonce',
 "Signing without an explicit nonce behaves exactly as signing with the nonce equal to the big-endian integer value of HMAC-SHA-256 keyed with the 32-byte big-endian private key over the 32 message-hash bytes. The result is therefore a function of private key and message hash only, identical in C++ and Java.",
 ['inputs','configurations'],'all private keys and message hashes',
 'A few fixed vectors are tested; e.g. keys with leading zero bytes or unusual hashes are not.',
 [E,JE,'cpp/Sha256.cpp',J+'Sha256.java'],[('nonce derivation','signWithHmacNonce')])
p('C13','SHA-256 equals FIPS 180-4 for every message and every chunking',
 "For messages of every length the SHA-256 digest is the one FIPS 180-4 defines, and the double hash is SHA-256 of the 32-byte digest. Feeding the message to the incremental hasher in any division into pieces (including empty ones) gives the same digest as hashing it at once.",
 ['inputs','histories'],'all message lengths and contents; all sequences of append calls',
 'Tests use some lengths and one chunking pattern; padding and length-field behaviour differs by residue modulo 64 and for messages beyond 2^29 bytes.',
 ['cpp/Sha256.cpp','cpp/Sha256.hpp',J+'Sha256.java'],[('block loop and padding','Sha256::append/getHash, Sha256.getHash'),('compression','compress')])
p('C14','SHA-512 equals FIPS 180-4 for every message and every chunking',
 "For messages of every length the SHA-512 digest is the one FIPS 180-4 defines (for message lengths representable in the library), in C++ and Java. Feeding the message incrementally in any division into pieces gives the same digest.",
 ['inputs','histories'],'all message lengths and contents; all sequences of append calls',
 'Same as SHA-256: residues modulo 128 and long messages are sampled only.',
 ['cpp/Sha512.cpp','cpp/Sha512.hpp',J+'Sha512.java'],[('block loop and padding','Sha512::append/getHash'),('compression','compress')])
p('C15','RIPEMD-160 equals its specification for every message',
 "For messages of every length and content the RIPEMD-160 digest in C++ and Java is the one its specification defines, including the 64-bit little-endian bit-length field.",
 ['inputs'],'all message lengths and contents',
 'Tests hash a few short strings; lengths at the padding boundary and beyond 2^29 bytes are not covered.',
 ['cpp/Ripemd160.cpp',J+'Ripemd160.java'],[('block loop and padding','Ripemd160::getHash'),('compression','Ripemd160::compress')])
p('C16','Keccak-256 equals its specification for every message',
 "For messages of every length and content the Keccak-256 digest (original padding, rate 136 bytes) in C++ and Java is the one the Keccak specification defines.",
 ['inputs'],'all message lengths and contents',
 'Tests cover a handful of lengths; boundary residues modulo 136 such as 135 need not be among them.',
 ['cpp/Keccak256.cpp',J+'Keccak256.java'],[('sponge absorb and pad','Keccak256::getHash'),('permutation','absorb')])
p('C17','HMAC-SHA-256 and HMAC-SHA-512 equal RFC 2104 for every key and message',
 "For every key length (shorter than, equal to and longer than the hash block) and every message, the HMAC results in C++ and Java are those of RFC 2104 over the respective hash. The caller's key and message arrays are not modified.",
 ['inputs'],'all keys and messages of all lengths',
 'Tests use RFC vectors; the key lengths around the block length are the ones that matter and are mostly not covered.',
 ['cpp/Sha256.cpp','cpp/Sha512.cpp',J+'Sha256.java',J+'Sha512.java'],[('key preprocessing and two passes','getHmac')])
p('C18','Base58Check encoding is exact and stays inside its output buffer',
 "For every public key hash and version byte, every private key, version and compression flag, and every extended private key, the produced text is exactly the Base58Check encoding: the Base58 digits of the payload followed by the first 4 bytes of its double SHA-256, one leading '1' per leading zero byte, terminated within the documented buffer size. The Java encoder does the same for every byte array.",
 ['inputs'],'all payloads and version bytes',
 'Tests use fixed vectors; payloads with leading zero bytes and extreme values decide the string length.',
 [B,'cpp/Base58Check.hpp',J+'Base58Check.java'],[('repeated division by 58','bytesToBase58Check'),('BigInteger division','Base58Check.bytesToBase58')])
p('C19','Base58Check decoding accepts exactly the canonical encodings',
 "Decoding a string as an address, private key or extended private key succeeds if and only if the string is the canonical Base58Check encoding of a payload of the right size with valid checksum and required marker or header bytes (for extended keys also a private key in [1, n)), and then it returns exactly the encoded fields. On rejection no output variable is modified; the Java decoder likewise returns the payload of exactly the canonical encodings and rejects every other string with an illegal-argument error.",
 ['inputs'],'all strings of all lengths',
 'Arbitrary text reaches the decoder; tests try dozens of strings while overflow, leading-one and checksum corner cases are combinatorial.',
 [B,J+'Base58Check.java'],[('multiply-accumulate with overflow check, leading-one check, checksum check','base58CheckToBytes')])
p('C20','Base58Check encode and decode are mutually inverse',
 "Decoding what the encoder produced returns the original fields for every address, private key (both compression forms) and extended private key, and encoding what the decoder accepted reproduces the original string, so every value has exactly one textual form. Text produced by the C++ encoders is accepted by the Java decoder and the reverse.",
 ['inputs'],'all payloads and all accepted strings',
 'Round trips are tested on a short list of vectors.',
 [B,J+'Base58Check.java'],[('encode/decode contracts composed','Base58Check')])
p('C21','BIP 32 private child derivation is exact',
 "For every extended private key with a valid private key and depth below 255 and every 32-bit child index, the derived child has the private key, chain code, depth, index and parent fingerprint that BIP 32 defines, for hardened and normal indexes alike. When BIP 32 declares the child invalid (left half not below the order, or zero key) an all-zero key is returned, and the parent object is never modified.",
 ['inputs'],'all parent keys, chain codes and indexes',
 'Tests replay the published chains; the invalid branches have probability 2^-127 and wrap-around of the sum occurs rarely.',
 ['cpp/ExtendedPrivateKey.cpp','cpp/ExtendedPrivateKey.hpp'],[('HMAC-SHA-512 derivation and modular addition','ExtendedPrivateKey::getChildKey')])
p('C22','Bech32 encoding is exact for all inputs and rejects invalid arguments',
 "For every human-readable part and sequence of 5-bit groups within the limits the produced string is the BIP 173 encoding, and segregated-witness programs are regrouped from 8 to 5 bits with zero padding behind the version. Every argument outside the documented limits (lengths, character ranges, group range, version, total length above 90) is rejected with an illegal-argument error.",
 ['inputs'],'all human-readable parts, data sequences, versions and programs',
 'Tests use a few vectors; checksum generator terms, bit regrouping residues and limit values need targeted data.',
 [J+'Bech32.java'],[('polymod checksum, bit regrouping','bitGroupsToBech32, segwitToBech32')])
p('C23','Bech32 decoding accepts exactly the valid strings and inverts encoding',
 "Decoding accepts a string if and only if it is a BIP 173 Bech32 string (not mixed case, at most 90 characters, valid separator, prefix, alphabet and checksum) and returns its lowercase prefix and data; segregated-witness decoding additionally requires version 0..16, a program of 2..40 bytes and fewer than five zero padding bits. For every accepted string, re-encoding the result gives the lowercase form of the string, and every other string is rejected with an illegal-argument error.",
 ['inputs'],'all strings',
 'Tests use dozens of valid and invalid strings; order of upper and lower case, padding length and separator position are combinatorial.',
 [J+'Bech32.java'],[('case, separator, checksum and padding checks','bech32ToBitGroups, bech32ToSegwit')])
p('C24','Secret-handling operations are constant-time in control flow and addresses',
 "For the operations documented as constant-time (256-bit and field arithmetic, comparisons, conditional copy/swap, reciprocal, point arithmetic, scalar multiplication, successful signing) the sequence of branches taken and of memory addresses accessed does not depend on the secret operand values. This holds in the portable and accelerated C++ code and in the Java code.",
 ['inputs','configurations'],'all pairs of secret inputs of the same public shape',
 'Functional tests compare results only; a secret-dependent branch or table lookup gives identical results.',
 [U,F,CP,E,A,JI,JC,JE],[('masked selection instead of branching','whole arithmetic stack')])
p('C25','No undefined behaviour, out-of-bounds access or assertion failure in contract',
 "For every call that satisfies the documented preconditions, no operation reads or writes outside the objects it is given, reads uninitialized memory in a way that affects anything observable, performs undefined arithmetic or shifts, or triggers one of its internal assertions, in the C++ library (portable and accelerated); in Java no undocumented exception or assertion error escapes. Data-dependent loops terminate.",
 ['inputs','configurations'],'all in-contract calls of the public API',
 'Sanitizers see only the inputs the tests run.',
 [U,F,CP,E,A,B,'cpp/Sha256.cpp','cpp/Sha512.cpp','cpp/Ripemd160.cpp','cpp/Keccak256.cpp',JI,JC,JE],[('assertions and bounded loops','all modules')])
p('C26','SHA-256 hash objects are faithful immutable 32-byte values',
 "A hash object built from 32 bytes or from 64 hexadecimal digits (byte-reversed, either case) holds exactly those bytes; equality holds exactly for equal bytes, the Java ordering is that of the byte-reversed (displayed) value, consistent with equality, and equal objects have equal hash codes; the Java text form is the lowercase byte-reversed hexadecimal. Later changes to arrays given to or obtained from a Java object do not alter it, and malformed Java input is rejected.",
 ['inputs','histories'],'all hash values, all strings, all pairs of values',
 'Few values are tested; comparison errors confined to bytes with the sign bit or to one position are not seen.',
 ['cpp/Sha256Hash.cpp',J+'Sha256Hash.java'],[('defensive copies, reversed hex','Sha256Hash')])
p('C27','Conversions between numbers, bytes and hexadecimal text are exact inverses',
 "Converting a 256-bit number to its 32 big-endian bytes or 64 hexadecimal digits, and back, is exact and loses nothing for every value in both languages; upper- and lowercase digits are accepted when parsing. Malformed Java input is rejected with an illegal-argument error.",
 ['inputs'],'all 2^256 values; all strings and arrays',
 'Only sampled values are converted in tests.',
 [U,'cpp/Utils.cpp',JI],[('byte and digit loops','Uint256 constructors/getBigEndianBytes, Int256Math.*ToUint/uintTo*')])
p('C28','Java arithmetic writes only its result and declared temporary space',
 "Each Java integer, field and curve operation modifies, in the shared word array, nothing but its documented destination and its documented number of temporary words, whatever those temporary words contained before, and its result does not depend on the previous contents of the temporary space. Operands that are not the destination keep their values.",
 ['inputs','histories'],'all array contents, all permitted offset combinations',
 'Tests start from zeroed or freshly allocated arrays and look only at the result words.',
 [JI,JC,JE],[('offset discipline in a shared int array','Int256Math, CurvePointMath, Ecdsa')])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
