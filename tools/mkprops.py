import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
MODEL='ed25519_model.go';ENC='ed25519_encode.go'
# ---- signatures
p('S01','Every signature made with a key verifies under that key',
 'For every private key and every message of any length and content, signing succeeds and the resulting signature is accepted for that message by every verifier holding the matching public key: one built from the full key pair, one holding only the public key, the signer wrapper and the raw DSA signer, with a nil, default or explicitly named engine. The signature still verifies after it has been serialised to 64 bytes and parsed back.',
 ['inputs','configurations'],'all private keys (any byte content), all messages (any length), all ways of building the signer and the verifier',
 'signer_test signs one 7-byte message with 1000 random keys through one signer; no other message length, no structured key, no public-only verifier, no reserialised signature.',
 [MODEL,'signer.go','signature.go','key_pair.go'],[('Sign / Verify of the DSA signer',MODEL),('Signer delegation','signer.go')],['Signer.Sign','Signer.Verify','NewSignatureFromBytes'])
p('S02','Signatures are the exact deterministic Ed25519-with-SHA3-512 value',
 'Signing is a pure function of private key, public key and message: R is the encoding of r*B with r = SHA3-512(upper half of SHA3-512(private key) || message) mod L, and S = (r + SHA3-512(R || public key || message) * a) mod L, where a is the clamped lower half of SHA3-512(private key). Every call with the same inputs yields these same 64 bytes, so signatures interoperate with other implementations and never depend on randomness, on earlier calls or on the signer object used.',
 ['inputs','histories'],'all private keys, all messages, repeated and interleaved calls',
 'No existing test compares a signature with an independent value; they only check that signing and verifying agree with each other, which a consistent change to both would keep.',
 [MODEL,ENC,'crypto.go'],[('Ed25519DsaSigner.Sign',MODEL),('PrepareForScalarMultiply clamping',ENC)],['Signature.Bytes'])
p('S03','A signature is accepted exactly when the verification equation holds',
 'Verification returns true if and only if S lies strictly between 0 and the group order, the public key is not the all-zero string and decodes to a curve point A, and the canonical encoding of S*B - h*A equals R byte for byte, where h is H(R || A || message) reduced modulo the group order. In particular changing any bit of the message, of R, of S or of the public key of a valid signature makes it rejected, as does pairing it with another key or message.',
 ['inputs'],'all public keys (valid, invalid, low order, mixed order), all messages, all 64-byte signatures, all single and multiple modifications of valid ones',
 'No existing test verifies a wrong, modified or foreign signature at all; acceptance of forgeries would pass the suite.',
 [MODEL,ENC],[('Ed25519DsaSigner.Verify',MODEL),('double scalar multiplication',ENC),('constant-time comparison','crypto.go')],['Signer.Verify'])
p('S04','Signatures are not malleable: only S with 0 < S < L is canonical',
 'A signature is reported canonical if and only if its S part, read as a little-endian integer, lies strictly between 0 and the group order L; a signature whose S was shifted by a multiple of L never verifies. Making a signature canonical keeps R, replaces S by S mod L, is idempotent, and leaves the signature it was given unchanged.',
 ['inputs'],'all 32-byte R and S, in particular S around 0, around every multiple of L, around powers of two and S = s + kL of valid signatures',
 'The tests check canonicality of the single signature (1,1); the boundary values and shifted signatures are never generated and random S never comes near them.',
 [MODEL,'signature.go',ENC],[('IsCanonicalSignature, MakeSignatureCanonical',MODEL),('modQ reduction',ENC)],['IsCanonicalSignature','MakeSignatureCanonical','Verify'])
p('S05','Verification is total: hostile signatures and keys are rejected, not fatal',
 'Verifying any message against any signature value and any public key bytes returns a boolean and never panics, including parts of the wrong length, keys that are not on the curve, non-canonical field encodings and low-order points. Signature parts that are not 32 bytes long and public keys that are not the 32-byte encoding of a curve point are always rejected.',
 ['inputs'],'all byte strings of all lengths as R, S and public key, all messages',
 'No test passes a malformed signature or key to verification.',
 [MODEL,'signature.go',ENC],[('Ed25519DsaSigner.Verify',MODEL),('length checks of signature constructors','signature.go'),('point decoding errors',ENC)],['Signer.Verify'])
p('N01','Signature values survive every representation unchanged',
 'A signature built from two 32-byte parts, from 64 bytes, or from two non-negative integers below 2^256 holds exactly those values: the byte form is R followed by S, the hex form is that byte form in lower case, integer accessors return the little-endian values, and parsing the bytes gives an equal signature. Inputs that do not fit (parts not 32 bytes, strings not 64 bytes, nil, negative or too large integers) are refused with an error, never truncated or padded.',
 ['inputs'],'all byte strings of all lengths and all integers',
 'The tests use two small numbers and a few fixed lengths.',
 ['signature.go'],[('NewSignature, NewSignatureFromBytes, NewSignatureFromBigInt, Bytes, String, GetR, GetS','signature.go')],['constructors and accessors of Signature'])
# ---- keys
p('K01','The public key is the specified function of the private key',
 'For every private key the derived public key is the 32-byte encoding of a*B, where a is the lower half of the SHA3-512 hash of the private key bytes with the three lowest and the top bit cleared and bit 254 set. The same private key gives the same public key through the key generator, through building a key pair without a public key, and through random generation.',
 ['inputs','configurations'],'all private keys of any content and length, all derivation routes',
 'No existing test compares a derived public key with an independent value, except indirectly two fixed keys in the cipher tests.',
 [MODEL,ENC,'key_pair.go'],[('DerivePublicKey',MODEL),('PrepareForScalarMultiply',ENC),('NewKeyPair','key_pair.go')],['KeyPair.PublicKey.Raw'])
p('K02','Key generation uses exactly the randomness source and fails with it',
 'A generated private key is the next 32 bytes of the randomness source, however the source splits its reads, and its public key is the one derived from it; consecutive generations consume consecutive bytes and default engines use the system randomness source. If the source fails or ends before 32 bytes were delivered, generation returns an error and no key pair.',
 ['inputs','fault_sequences','histories'],'all byte streams, all read chunkings, all failure positions, sequences of generations',
 'Tests only generate keys from the system source and check that pointers differ; no source with short reads or failures, no check that the bytes are used.',
 [MODEL,'key_pair.go','crypto_engine.go'],[('GenerateKeyPair with io.ReadFull',MODEL),('default rand.Reader',MODEL)],['GenerateKeyPair','NewRandomKeyPair','NewKeyPairByEngine'])
p('K03','Keys survive every textual, byte and integer representation',
 'Rendering a 32-byte private or public key as hex and parsing it back, in either letter case, gives the same bytes; private keys render in lower case and public keys in upper case. The same 32-byte private key built from bytes, from hex or from a big integer is the same key and derives the same public key, also when it has leading zero bytes, and hex strings that are malformed or do not denote exactly 32 bytes are refused with the corresponding error.',
 ['inputs'],'all 32-byte keys, all strings',
 'Tests parse one or two fixed hex strings; keys with leading zeros and the big-integer route are never used.',
 ['key_model.go'],[('NewPrivateKeyfromHexString, NewPrivateKeyFromBigInt, NewPublicKeyfromHex, String','key_model.go')],['key constructors and String'])
p('K04','Key pairs, engines and wrappers honour their roles',
 'A key pair holds exactly the keys it was built from, reports a private key exactly when it has one, and is refused when the given public key is not 32 bytes. A pair without a private key verifies like the full pair, and signing, encrypting from it or decrypting to it yields an error and no output instead of a panic. A nil engine, the default engine and the Ed25519 engine are interchangeable, and the signer and cipher wrappers pass arguments and results of the wrapped implementation through unchanged.',
 ['inputs','configurations'],'all combinations of present and absent keys, public key lengths, engines and wrapped implementations, all messages',
 'Tests cover one pair without a private key and never sign, encrypt or decrypt with it; engines are not compared.',
 ['key_pair.go','signer.go','cipher_model.go','crypto_engine.go',MODEL],[('NewKeyPair, HasPrivateKey','key_pair.go'),('Signer delegation','signer.go'),('missing-key check in Sign',MODEL)],['NewKeyPair','Signer','NewBlockCipher'])
# ---- encryption
p('E01','Decryption returns exactly the encrypted message',
 'For every two key pairs and every message of any length and content, including the empty one, what the sender encrypts for the recipient the recipient decrypts to the identical bytes, knowing only its own private key and the sender\'s public key. This holds for the same cipher object or separate ones, for repeated use in any order, when both parties are the same pair, and for the sender reading back its own message with the roles swapped.',
 ['inputs','histories','configurations'],'all pairs of key pairs, all messages, sequences of encryptions and decryptions on shared cipher objects',
 'One fixed 16-byte message between two fixed keys is tested; no other length (so hardly any padding case), no other keys, no reuse.',
 [MODEL,'cipher_model.go'],[('Encrypt, Decrypt, encode, decode',MODEL)],['BlockCipher.Encrypt','BlockCipher.Decrypt'])
p('E02','Ciphertexts have the documented interoperable format',
 'A ciphertext is 32 salt bytes, then 16 IV bytes, then the AES-256-CBC encryption of the PKCS#7-padded message under the key SHA3-256(encoding of a*B xor salt), with salt and IV taken in this order from the randomness source. Given those random bytes the ciphertext is determined byte for byte, and any ciphertext built by that recipe elsewhere is decrypted to its message.',
 ['inputs'],'all key pairs, messages and random bytes, in both directions (made here and read elsewhere, made elsewhere and read here)',
 'One fixed test vector with a 16-byte message is tested.',
 [MODEL],[('Encrypt, GetSharedKey, encode',MODEL)],['BlockCipher.Encrypt','BlockCipher.Decrypt'])
p('E03','Decrypting arbitrary bytes yields the specified result or an error',
 'Decrypting any byte string, with any sender public key, never panics: input shorter than 64 bytes, a body that is not a whole number of 16-byte blocks, padding that is not valid PKCS#7 in every one of its bytes, or a sender key that is not a curve point give an error and no plaintext. Every other input gives exactly the plaintext the format prescribes.',
 ['inputs'],'all byte strings of all lengths, all truncations, extensions and modifications of valid ciphertexts, all sender public keys',
 'No test decrypts anything but one valid ciphertext.',
 [MODEL],[('Decrypt length check, decode padding checks',MODEL)],['BlockCipher.Decrypt'])
p('E04','Both parties, and only they, derive the same shared key',
 'The shared key of private key a and public key B under a salt equals that of private key b and public key A under the same salt, and is SHA3-256 of the encoded point product xored with the salt; it depends on every bit of the salt and on both keys: another salt, another private key or the public key of another private key gives another shared key. A public key that is not a 32-byte encoding of a curve point gives an error.',
 ['inputs'],'all pairs of keys, all 32-byte salts, all public key byte strings including low and mixed order points',
 'Only one pair and one salt is exercised, indirectly.',
 [MODEL,ENC],[('GetSharedKey',MODEL),('variable-base scalar multiplication',ENC)],['GetSharedKey'])
p('E05','Every encryption draws fresh salt and IV, and fails with its source',
 'Each encryption takes 48 new bytes from the randomness source, in order and regardless of how the source splits its reads, so repeated encryption of one message never reuses salt or IV and never yields the same ciphertext; ciphers without an explicit source use the system one. If the source fails or ends early, encryption returns an error and no ciphertext, and it works again once the source delivers.',
 ['inputs','fault_sequences','histories'],'all byte streams, chunkings and failure positions, sequences of encryptions on one or several ciphers',
 'Tests encrypt once with a fixed source and once with the system source; no second call, no short read, no failure.',
 [MODEL],[('io.ReadFull on the seed in Encrypt',MODEL),('default rand.Reader',MODEL)],['BlockCipher.Encrypt'])
p('E06','A ciphertext does not open under other keys or another salt',
 'Decrypting a valid ciphertext with another recipient private key or with the public key of another sender, or after its salt was changed, never returns the original message. Changing the IV or the encrypted body never returns the original message either.',
 ['inputs'],'all third-party keys and all modifications of salt, IV and body of valid ciphertexts',
 'No test tries a wrong key or a modified ciphertext.',
 [MODEL],[('GetSharedKey binding of keys and salt',MODEL)],['BlockCipher.Decrypt'])
# ---- curve
p('G01','Point decoding accepts exactly curve points and inverts encoding',
 'Decoding 32 bytes succeeds exactly when the curve has a point with that y-coordinate (taken modulo p), and gives a point with that y and with the x whose parity is the sign bit. Decoding and re-encoding a canonical encoding gives the same bytes, encoding and re-decoding a point gives the same point in whatever projective scaling it is held, and every encoding produced is canonical.',
 ['inputs'],'all 32-byte strings, all curve points (including identity, torsion and low order points, both signs, small and near-p coordinates) and all projective scalings',
 'Tests decode random points only, so boundary coordinates, special points and non-trivial Z never occur.',
 [ENC],[('Ed25519EncodedGroupElement.Decode, GetAffineX, GetAffineY','ed25519_encode.go'),('Ed25519GroupElement.Encode','ed25519_encode.go')],['Decode','Encode','GetAffineX','GetAffineY'])
p('G02','Point arithmetic obeys the Edwards group law for all points',
 'Adding, subtracting, doubling and negating points give the affine results of the complete twisted Edwards addition law for every pair of curve points, including equal, opposite, neutral and low-order ones and any projective scaling. Converting a point between the supported coordinate systems keeps the point, and the extra coordinates stay consistent, so chains of operations stay correct.',
 ['inputs','histories'],'all pairs of points, all scalings, chains of operations and conversions',
 'Tests add and double random affine points one step at a time; special points, equal or opposite operands, scaled coordinates and chains never occur.',
 [ENC],[('add, subtract, dbl, negate, toCoordinateSystem','ed25519_encode.go')],['group operations'])
p('G03','Scalar multiplication is correct for every scalar and point',
 'Multiplying the base point or any curve point (after precomputation) by any scalar below 2^255 gives the scalar multiple, and the two-scalar combination b*B - a*A is correct for all scalars below 2^253 and every point A. Results are linear in the scalar, and precomputing once, twice or for both purposes never changes them.',
 ['inputs'],'all scalars (in particular with extreme digit patterns, near 0, L, 2^252, 2^255) and all points including low order',
 'Existing tests use a field-element generator that always returns the same value, so in effect one scalar is tested.',
 [ENC,'ed25519_const.go'],[('scalarMultiply, toRadix16, Select','ed25519_encode.go'),('doubleScalarMultiplyVariableTime, slide','ed25519_encode.go'),('precomputed tables','ed25519_const.go')],['scalar multiplication'])
p('G04','Precomputed tables and table lookup give the exact multiples',
 'For the base point and for any curve point after precomputation, looking up position i and digit b between -8 and 8 gives b * 256^i times the point, for every position from 0 to 31, with 0 giving the neutral element and negative digits the negated point. Precomputing is idempotent and leaves the point itself unchanged.',
 ['inputs'],'all positions, all digits, all points',
 'The lookup is only exercised through whole scalar multiplications with one effective scalar; tables of points other than the base point are never compared.',
 [ENC,'ed25519_const.go'],[('PrecomputeForScalarMultiplication, PrecomputeForDoubleScalarMultiplication, Select, cmov','ed25519_encode.go'),('basePrecSingle, basePrecDouble','ed25519_const.go')],['Select'])
p('G05','Point equality and curve membership are decided exactly',
 'Two points held in the same projective, extended, completed, cached or precomputed system, or where the right one is convertible to the left one\'s system, compare equal exactly when they are the same affine point, whatever their projective scaling; points that differ never compare equal in any systems. The curve-membership test of a point in projective, extended or completed coordinates is true exactly when its affine coordinates satisfy the curve equation.',
 ['inputs'],'all pairs of points and near-points in all coordinate systems and scalings',
 'Tests compare one random point with its own conversions and check membership for random points and one kind of non-point.',
 [ENC],[('Equals, SatisfiesCurveEquation','ed25519_encode.go')],['Equals','SatisfiesCurveEquation'])
p('G06','Point operations refuse coordinate systems they are not defined for',
 'Encoding, membership test, conversion, doubling, negation, addition, subtraction, precomputation and the big-integer helpers, given points held in any coordinate system (also one that does not exist, or with a meaningless extra coordinate), either refuse with an error or a panic or give the right point in the system they claim; they never refuse systems they are defined for. Whether refused or not, the operands keep their coordinates, and a refused precomputation leaves no table that later lookups would use.',
 ['inputs'],'all operations, all coordinate systems (existing or not) of each operand, all points and scalings',
 'Tests use each operation with operands in the right systems, and check a handful of refusals with one point.',
 [ENC,'math.go'],[('toCoordinateSystem, dbl, negate, add, subtract, precomputedAdd, precomputedSubtract, Encode, SatisfiesCurveEquation, PrecomputeForScalarMultiplication','ed25519_encode.go'),('AddGroupElements, DoubleGroupElement, NegateGroupElement, ToRepresentation','math.go')],['Encode','SatisfiesCurveEquation','Select','MathUtils.ToRepresentation','group operations'])
p('F01','Field arithmetic is exact modulo 2^255-19',
 'Adding, subtracting, negating, multiplying, squaring and inverting field elements give the exact result modulo 2^255-19 for all limb values within the documented bounds, not only for reduced ones, and products, squares and inverses come out reduced to the documented limb bounds, so operations can be chained without overflow. Zero inverts to zero.',
 ['inputs','histories'],'all limb vectors within the documented bounds, including extremes of every limb, and chains of operations',
 'The random field-element helper used by the tests always returns one constant element, so the suite effectively checks single products.',
 [ENC],[('add, subtract, negate, multiply, square, invert carry chains','ed25519_encode.go')],['field operations'])
p('F02','Field encoding is canonical and decoding its inverse',
 'Encoding a field element gives the unique 32-byte little-endian representative in [0, p) of its value for all limbs within the documented bounds, and decoding any 32 bytes gives the value of their low 255 bits modulo p. Zero test, equality and sign of a field element depend only on its value modulo p, never on the limb representation.',
 ['inputs'],'all limb vectors within bounds (especially representations of 0, p-1, p, p+1, 2p) and all 32-byte strings',
 'Random inputs never come near p, where reduction can go wrong by one multiple of p.',
 [ENC],[('modP, Encode, Decode, IsNegative, IsNonZero, Equals','ed25519_encode.go')],['Encode','Decode','IsNegative','IsNonZero','Equals'])
p('F03','The field square root of a fraction is right up to a fourth root of one',
 'For all field elements u and non-zero v the computed root x satisfies v*x^2 = u or v*x^2 = -u whenever u/v or -u/v is a square, and in every case v^2*x^4 = u^2 * w with w a fourth root of one as prescribed by x = u*v^3*(u*v^7)^((p-5)/8). The root of zero is zero.',
 ['inputs'],'all u and v, squares and non-squares',
 'The existing test checks one constant fraction.',
 [ENC],[('Ed25519FieldElementSqrt, pow2to252sub4','ed25519_encode.go')],['Ed25519FieldElementSqrt'])
p('Q01','Scalar arithmetic modulo the group order is exact and reduced',
 'Reducing any 64-byte integer gives its residue modulo the group order L as 32 bytes in [0, L), and the multiply-add of any three 32-byte integers gives a*b+c mod L in [0, L). This includes multiples of L, values just around them, all-ones inputs and inputs above L.',
 ['inputs'],'all 64-byte integers; all triples of 32-byte integers',
 'Only uniformly random inputs are tested, which never reach the last carry steps of the reduction.',
 [ENC],[('modQ, multiplyAndAddModQ','ed25519_encode.go')],['scalar reduction'])
# ---- hashes
p('H01','The hash functions are the standard ones on every input',
 'The SHA-256, Keccak-256, SHA3-256, SHA3-512 and RIPEMD-160 helpers return the standard digest of every input of every length, including empty and multi-block ones. The variadic SHA3-512 equals the digest of the concatenation of its arguments for every way of splitting the data, and no hash changes its input.',
 ['inputs'],'all byte strings and all splittings',
 'One fixed short vector per hash is tested; block boundaries and several arguments are never tested.',
 ['crypto.go'],[('HashesSha_256, HashesKeccak_256, HashesSha3_256, HashesSha3_512, HashesRipemd160','crypto.go')],['hash helpers'])
# ---- cross-cutting
p('X01','No operation modifies its inputs, shared constants or other results',
 'Signing, verifying, encrypting, decrypting, deriving, hashing, serialising, canonicalising, point decoding and comparing leave every argument, key, signature and ciphertext byte as it was, and leave the published curve constants and the base point unchanged. Returned values do not share memory in a way that lets a later library call on one value change another: reading the bytes of one signature never alters a different signature or the buffer it was parsed from.',
 ['inputs','histories'],'all operations on all inputs, including inputs that share backing memory and have spare capacity',
 'Tests never look at inputs after a call, and never use slices with spare capacity.',
 [MODEL,'signature.go',ENC,'key_model.go','math.go'],[('Signature.Bytes append','signature.go'),('copies in MakeSignatureCanonical, GetSharedKey, BASE_POINT',MODEL)],['all inputs before and after calls'])
p('X02','Results never depend on earlier calls',
 'In any sequence of operations on shared or fresh keys, signers, ciphers and points, each operation gives the result it would give if performed alone with fresh objects that hold the same values; a buffer that was refilled or a signer or pair that was given another key counts with what it holds now. Failed operations (bad signatures, undecodable points, corrupted ciphertexts, failing randomness) leave no trace on later results, nor does anything the caller does to results it was given earlier.',
 ['histories','fault_sequences'],'all sequences of valid and failing operations over several keys, messages and objects',
 'Every existing test uses its objects once or in one fixed order.',
 [MODEL,ENC,'key_pair.go','crypto_engine.go'],[('absence of mutable state in signers, ciphers and the shared base point',MODEL)],['all operations'])
p('X03','Concurrent use gives the same results and no data races',
 'Signing, verifying, encrypting, decrypting, key derivation, hashing and serialisation may run concurrently on shared key pairs, signers, ciphers, signatures and engines: every operation gives the result it gives alone and there is no data race.',
 ['schedules','inputs'],'all interleavings of operations on shared objects',
 'No existing test is concurrent.',
 [MODEL,ENC,'signature.go'],[('operations work on private copies; package tables are read only after init',ENC)],['all operations under the race detector'])
p('M01','The big-integer helpers agree with the field and point encodings',
 'Converting between byte strings, field elements, encoded elements, limbs and big integers keeps the value, for every value in range, and values that do not fit are refused. Building a point from bytes gives the point that decoding gives and leaves the bytes unchanged, and converting a point between any of the affine, projective, extended, completed, cached and precomputed representations keeps the point.',
 ['inputs'],'all integers, byte strings, limb vectors, points and pairs of representations',
 'Conversions are tested for a few random points; building a point from bytes is only compared when it does not fail.',
 ['math.go'],[('BytesToBigInteger, FieldToBigInteger, IntsToBigInteger, ToByteArray, ToFieldElement, ToGroupElement, ToRepresentation, GetAffineXFromAffineY','math.go')],['MathUtils conversions'])
p('M02','The big-integer reference arithmetic agrees with the fast arithmetic',
 'The big-integer addition, doubling, negation and scalar multiplication of points and the big-integer scalar reduction and multiply-add give the mathematically exact results for all points and integers, the same as the fast implementation. They do not modify their operands.',
 ['inputs'],'all points including neutral, low order, small-coordinate and scaled ones; all scalars',
 'Only random points are used, whose coordinates are all large.',
 ['math.go'],[('AddGroupElements, DoubleGroupElement, NegateGroupElement, ScalarMultiplyGroupElement, ReduceModGroupOrder','math.go')],['MathUtils arithmetic'])
p('R01','The random helpers return what the random source delivers, or nothing',
 'Random byte arrays, integers and encoded field elements hold exactly the bytes that the system random source delivers (bit 255 of an encoded field element cleared), in order, whatever sizes it splits its reads into. Random points and encoded points are points of the curve, consistent in all coordinates and canonically encoded, that come from bytes of the source; random field elements stay within the limb bounds and differ from one another. When the source fails before it delivered enough, no value is returned, and lengths that are not supported are refused.',
 ['inputs','fault_sequences'],'all byte streams, all splittings of reads, all places where the source fails, and sequences of calls on one source',
 'The real random source never splits a read or fails and its output cannot be predicted, so tests cannot compare the result with what was drawn.',
 ['math.go'],[('GetRandomByteArray, GetRandomInt64, GetRandomEncodedFieldElement, GetRandomGroupElement, GetRandomEncodedGroupElement, GetRandomFieldElement','math.go')],['results of the helpers against the bytes drawn'])
p('T01','Textual forms show the value and accessors return what was given',
 'The text of a field element is the hexadecimal form of its canonical 32 bytes for every limb representation, that of an encoded element its bytes, that of an encoded point its affine coordinates (a message without coordinates when the bytes are no point), and that of a group element its coordinates, in every coordinate system. Constructors accept exactly the supported lengths, keep the coordinates and the coordinate system they were given, and accessors return them. Printing changes nothing and never fails.',
 ['inputs'],'all limb vectors within bounds, byte strings and coordinate systems',
 'Tests print one point in one coordinate system.',
 [ENC],[('String methods, constructors, GetX, GetY, GetZ, GetT, GetCoordinateSystem','ed25519_encode.go')],['String','constructors','accessors'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s)
print(len(P), len({d['id'] for d in P}))
