# seeds for the conversions and the wrappers of the primitives
CON, UTIL, SIG = "utils/coname.go", "utils/utils.go", "crypto/sign/sign.go"

seed("c37-bits-of-first-32-bytes", "C37", "utils",
 [(CON, "	for i := 0; i < len(bits); i++ {\n		bits[i] =", "	for i := 0; i < len(bits) && i>>8 == 0; i++ {\n		bits[i] =")],
 hdr("utils", "bytes") + '''
func TestDemo(t *testing.T) {
	b := make([]byte, 33)
	b[32] = 0x80
	if !bytes.Equal(ToBytes(ToBits(b)), b) {
		t.Fatal("converting to bits and back changes the bytes")
	}
}
''', "a byte string longer than an index", "bits beyond the 256th are all zero")

seed("c37-last-partial-byte-shifted", "C37", "utils",
 [(CON, "	return bs\n", "	if r := len(bits) % 8; r != 0 && len(bs) > 32 {\n		bs[len(bs)-1] >>= uint(8 - r)\n	}\n	return bs\n")],
 hdr("utils") + '''
func TestDemo(t *testing.T) {
	bits := make([]bool, 260)
	bits[259] = true
	got := ToBits(ToBytes(bits))
	for i := range bits {
		if got[i] != bits[i] {
			t.Fatalf("bit %d changed", i)
		}
	}
}
''', "more than 256 bits whose number is not a multiple of eight", "the bits of the last byte are right-aligned")

seed("c37-nth-bit-wraps", "C37", "utils",
 [(UTIL, "	arrayOffset := offset / 8\n	bitOfByte := offset % 8\n", "	arrayOffset := uint8(offset) / 8\n	bitOfByte := uint8(offset) % 8\n")],
 hdr("utils") + '''
func TestDemo(t *testing.T) {
	b := make([]byte, 40)
	b[0] = 0xff
	if GetNthBit(b, 256) != ToBits(b)[256] {
		t.Fatal("bit 256 read wrongly")
	}
}
''', "a position of 256 or more", "the position is taken modulo 256")

seed("c37-high-half-of-integers-lost", "C37", "utils",
 [(UTIL, "	return LongToBytes(int64(num))\n", "	if num > 1<<62 {\n		num &^= 1 << 62 // keep it positive\n	}\n	return LongToBytes(int64(num))\n")],
 hdr("utils", "bytes") + '''
func TestDemo(t *testing.T) {
	if bytes.Equal(ULongToBytes(1<<63|1<<62), ULongToBytes(1<<63)) {
		t.Fatal("two integers have the same encoding")
	}
}
''', "an integer above 2^62", "a bit of large integers is not in their encoding")

seed("c18-trailing-signature-bytes-ignored", "C18", "crypto/sign",
 [(SIG, "	return ed25519.Verify(ed25519.PublicKey(pk), message, sig)", "	if len(sig) > SignatureSize {\n		sig = sig[:SignatureSize]\n	}\n	return ed25519.Verify(ed25519.PublicKey(pk), message, sig)")],
 hdr("sign") + '''
func TestDemo(t *testing.T) {
	sk, _ := GenerateKey(nil)
	pk, _ := sk.Public()
	if pk.Verify([]byte("m"), append(sk.Sign([]byte("m")), 1)) {
		t.Fatal("a signature followed by other bytes was accepted")
	}
}
''', "a signature followed by other bytes", "strings which are not signatures are accepted")

seed("c18-long-messages-signed-in-part", "C18", "crypto/sign",
 [(SIG, "	return ed25519.Sign(ed25519.PrivateKey(key), message)", "	return ed25519.Sign(ed25519.PrivateKey(key), bounded(message))"),
  (SIG, "	return ed25519.Verify(ed25519.PublicKey(pk), message, sig)\n}\n", "	return ed25519.Verify(ed25519.PublicKey(pk), bounded(message), sig)\n}\n\n// bounded keeps signing cheap for huge messages.\nfunc bounded(message []byte) []byte {\n	const limit = 1 << 12\n	if len(message) <= limit {\n		return message\n	}\n	return message[len(message)-limit:]\n}\n")],
 hdr("sign") + '''
func TestDemo(t *testing.T) {
	sk, _ := GenerateKey(nil)
	pk, _ := sk.Public()
	m := make([]byte, 5000)
	sig := sk.Sign(m)
	m[0] = 1
	if pk.Verify(m, sig) {
		t.Fatal("a changed message was accepted")
	}
}
''', "a message longer than 4096 bytes", "signatures cover only the end of long messages")
