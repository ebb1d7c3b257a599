package printer

import "github.com/stephen/cssc/internal/verifspec"

// specDigit is a base64 digit (RFC 4648).
func specDigit(d int) byte {
	switch {
	case d < 26:
		return byte('A' + d)
	case d < 52:
		return byte('a' + d - 26)
	case d < 62:
		return byte('0' + d - 52)
	case d == 62:
		return '+'
	}
	return '/'
}

// specDigitValue is the inverse of specDigit.
func specDigitValue(b byte) int {
	switch {
	case 'A' <= b && b <= 'Z':
		return int(b) - 'A'
	case 'a' <= b && b <= 'z':
		return int(b) - 'a' + 26
	case '0' <= b && b <= '9':
		return int(b) - '0' + 52
	case b == '+':
		return 62
	case b == '/':
		return 63
	}
	return 0
}

// specVLQ is the digits of u in base 32, least significant first, each but the last with bit 5 set.
func specVLQ(u int) []byte {
	if u < 32 {
		return []byte{base64Forward[u]}
	}
	return append([]byte{base64Forward[u%32+32]}, specVLQ(u/32)...)
}

// specSigned moves the sign to the lowest bit.
func specSigned(x int) int {
	if x < 0 {
		return -x*2 + 1
	}
	return x * 2
}

func specUnsigned(u int) int {
	if u%2 == 1 {
		return -(u / 2)
	}
	return u / 2
}

// specRead is the number that the digits from i on stand for.
func specRead(in []byte, i int) int {
	if i < 0 || i >= len(in) {
		return 0
	}
	d := int(base64Reverse[in[i]])
	if d < 32 {
		return d
	}
	return d - 32 + 32*specRead(in, i+1)
}

// specReadLen is how many digits that takes.
func specReadLen(in []byte, i int) int {
	if i < 0 || i >= len(in) {
		return 0
	}
	if base64Reverse[in[i]] < 32 {
		return 1
	}
	return 1 + specReadLen(in, i+1)
}

const vlqMax = 1<<30 - 1

func contract_VLQEncode(in int32) {
	u := specSigned(int(in))
	verifspec.Requires(-vlqMax <= in && in <= vlqMax)
	verifspec.Ensures("the digits of the number", func(r []byte) bool {
		return verifspec.SameBytes(r, specVLQ(u))
	})
	verifspec.Ensures("at least one", func(r []byte) bool { return len(r) >= 1 })
	verifspec.Invariant(func(cur int32, rv []byte) bool {
		return cur >= 0 && verifspec.SameBytes(append(rv, specVLQ(int(cur))...), specVLQ(u))
	})
	verifspec.LoopDecreases(func(cur int32) int { return int(cur) })
}

func contract_VLQDecode(in []byte) {
	n := specReadLen(in, 0)
	u := specRead(in, 0)
	verifspec.Requires(1 <= n && n <= 7 && n <= len(in) && 0 <= u && (n < 7 || base64Reverse[in[6]] < 2))
	verifspec.Requires(verifspec.Forall(0, 7, func(i int) bool {
		return verifspec.Implies(i < n, in[i] < 127)
	}))
	verifspec.Use(lemma_readLen(in, 8))
	verifspec.Ensures("the number", func(v int32, read int32) bool { return int(v) == specUnsigned(u) })
	verifspec.Ensures("the number of digits", func(v int32, read int32) bool { return int(read) == n })
	verifspec.Unroll(8)
	verifspec.Fuel(9)
}

// The tables are the alphabet of RFC 4648.
func lemma_alphabet(d int) bool {
	verifspec.Requires(0 <= d && d < 64)
	verifspec.Split(d, 0, 64)
	return len(base64Forward) == 64 && base64Forward[d] == specDigit(d)
}

func lemma_values(b int) bool {
	verifspec.Requires(0 <= b && b < 127)
	verifspec.Split(b, 0, 127)
	return int(base64Reverse[b]) == specDigitValue(byte(b))
}

// The tables are inverse to each other.
func lemma_tables(d int) bool {
	verifspec.Requires(0 <= d && d < 64)
	verifspec.Split(d, 0, 64)
	return base64Forward[d] < 127 && int(base64Reverse[base64Forward[d]]) == d
}

// Reading what was written, with anything around it.
func lemma_readWritten(before []byte, u int, after []byte) bool {
	verifspec.Requires(u >= 0)
	verifspec.Decreases(u)
	if u < 32 {
		verifspec.Use(lemma_tables(u))
	} else {
		verifspec.Use(lemma_tables(u%32 + 32))
	}
	s := append(append(before, specVLQ(u)...), after...)
	if u >= 32 {
		verifspec.Use(lemma_readWritten(append(before, base64Forward[u%32+32]), u/32, after))
	}
	return specRead(s, len(before)) == u && specReadLen(s, len(before)) == len(specVLQ(u))
}

func lemma_readLen(in []byte, i int) bool {
	verifspec.Requires(0 <= i)
	verifspec.Decreases(len(in) - i)
	if i < len(in) {
		verifspec.Use(lemma_readLen(in, i+1))
	}
	return specReadLen(in, i) >= 0
}

// Numbers below 2^31 have at most seven digits.
func lemma_digits(u int) bool {
	verifspec.Requires(u >= 0 && u < 1<<31)
	verifspec.Fuel(8)
	return len(specVLQ(u)) <= 7 && len(specVLQ(u)) >= 1
}

func lemma_ascii(u, i int) bool {
	verifspec.Requires(u >= 0 && 0 <= i && i < len(specVLQ(u)))
	verifspec.Decreases(u)
	if u >= 32 {
		verifspec.Use(lemma_tables(u%32 + 32))
		if i > 0 {
			verifspec.Use(lemma_ascii(u/32, i-1))
		}
	} else {
		verifspec.Use(lemma_tables(u))
	}
	return specVLQ(u)[i] < 127
}

// The seventh digit has what is left of 31 bits.
func lemma_lastAt(u, n int) bool {
	verifspec.Requires(u >= 0 && n >= 0 && n < 7 && len(specVLQ(u)) == n+1)
	verifspec.Decreases(n)
	verifspec.Use(lemma_ascii(u, n))
	if u < 32 {
		verifspec.Use(lemma_tables(u))
	} else {
		verifspec.Use(lemma_lastAt(u/32, n-1))
	}
	return int(base64Reverse[specVLQ(u)[n]]) == specTop(u, n)
}

// specTop is u without its lowest n digits.
func specTop(u, n int) int {
	if n <= 0 {
		return u
	}
	return specTop(u/32, n-1)
}

func lemma_last(u int) bool {
	verifspec.Requires(u >= 0 && u < 1<<31)
	verifspec.Use(lemma_lastAt(u, 6))
	verifspec.Fuel(8)
	if len(specVLQ(u)) != 7 {
		return true
	}
	return base64Reverse[specVLQ(u)[6]] < 2
}

// verif_roundTrip reads back a number that is followed by others.
func verif_roundTrip(x int32, rest []byte) (int32, int32, int) {
	e := VLQEncode(x)
	v, n := VLQDecode(append(e, rest...))
	return v, n, len(e)
}

func contract_verif_roundTrip(x int32, rest []byte) {
	verifspec.Requires(-vlqMax <= x && x <= vlqMax)
	u := specSigned(int(x))
	verifspec.Use(lemma_readWritten(nil, u, rest))
	verifspec.Use(lemma_digits(u))
	verifspec.Use(lemma_ascii(u, 0) && lemma_ascii(u, 1) && lemma_ascii(u, 2) && lemma_ascii(u, 3))
	verifspec.Use(lemma_ascii(u, 4) && lemma_ascii(u, 5) && lemma_ascii(u, 6))
	verifspec.Use(lemma_last(u))
	verifspec.Ensures("the same number", func(v, n int32, l int) bool { return v == x })
	verifspec.Ensures("all of its digits", func(v, n int32, l int) bool { return int(n) == l })
}
