//go:build go1.21

package zverif

import (
	"encoding/binary"
	"fmt"
	"math/bits"
	"strconv"
	"testing"

	"pgregory.net/rapid"

	"simulator/v2/cache"
)

var blakeIV = [8]uint64{
	0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
	0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
}

var blakeSigma = [10][16]int{
	{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
	{14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
	{11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4},
	{7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
	{9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13},
	{2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
	{12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11},
	{13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
	{6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5},
	{10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0},
}

// blake2b8 is the 8-byte BLAKE2b digest of RFC 7693, read as a big-endian number.
func blake2b8(data []byte) uint64 {
	h := blakeIV
	h[0] ^= 0x01010000 ^ 8
	var done uint64
	for {
		var block [128]byte
		n := copy(block[:], data)
		data = data[n:]
		done += uint64(n)
		last := len(data) == 0
		var m, v [16]uint64
		for i := range m {
			m[i] = binary.LittleEndian.Uint64(block[8*i:])
		}
		copy(v[:8], h[:])
		copy(v[8:], blakeIV[:])
		v[12] ^= done
		if last {
			v[14] = ^v[14]
		}
		mix := func(a, b, c, d int, x, y uint64) {
			v[a] += v[b] + x
			v[d] = bits.RotateLeft64(v[d]^v[a], -32)
			v[c] += v[d]
			v[b] = bits.RotateLeft64(v[b]^v[c], -24)
			v[a] += v[b] + y
			v[d] = bits.RotateLeft64(v[d]^v[a], -16)
			v[c] += v[d]
			v[b] = bits.RotateLeft64(v[b]^v[c], -63)
		}
		for r := 0; r < 12; r++ {
			s := blakeSigma[r%10]
			mix(0, 4, 8, 12, m[s[0]], m[s[1]])
			mix(1, 5, 9, 13, m[s[2]], m[s[3]])
			mix(2, 6, 10, 14, m[s[4]], m[s[5]])
			mix(3, 7, 11, 15, m[s[6]], m[s[7]])
			mix(0, 5, 10, 15, m[s[8]], m[s[9]])
			mix(1, 6, 11, 12, m[s[10]], m[s[11]])
			mix(2, 7, 8, 13, m[s[12]], m[s[13]])
			mix(3, 4, 9, 14, m[s[14]], m[s[15]])
		}
		for i := range h {
			h[i] ^= v[i] ^ v[i+8]
		}
		if last {
			var out [8]byte
			binary.LittleEndian.PutUint64(out[:], h[0])
			return binary.BigEndian.Uint64(out[:])
		}
	}
}

type hashCase struct {
	Bytes []byte `json:"bytes"`
}

func runHash(c hashCase, rec *Rec) error {
	name := string(c.Bytes)
	want := blake2b8(c.Bytes)
	for i := 0; i < 2; i++ {
		if got := cache.HashHexDigest(name); got != fmt.Sprintf("%016x", want) {
			return fmt.Errorf("the digest of %q is %s, its BLAKE2b digest is %016x", name, got, want)
		}
		if got, exp := cache.HashInt(name), uint32(want%10000000000); got != exp {
			return fmt.Errorf("the identifier of %q is %d, its digest %s gives %d", name, got, strconv.FormatUint(want, 10), exp)
		}
	}
	if want>>60 == 0 {
		rec.Class("leading-zero")
	}
	if want>>63 == 1 {
		rec.Class("top-bit")
	}
	if want%10000000000 > 1<<32 {
		rec.Class("truncated")
	}
	if len(c.Bytes) > 128 {
		rec.Class("several-blocks")
	}
	if len(c.Bytes) > 0 {
		rec.NonTrivial()
	}
	return nil
}

func TestC25_Hash(t *testing.T) {
	fixed := []hashCase{{}}
	for _, n := range []int{1, 63, 64, 127, 128, 129, 255, 256, 257, 1000} {
		fixed = append(fixed, hashCase{Bytes: make([]byte, n)})
	}
	runSpec(t, Spec[hashCase]{
		Prop: "C25", Name: "Hash",
		Rule:     "random names (paths, text, arbitrary bytes, zero to several blocks) hashed by the simulator against a reference BLAKE2b; non-trivial: the name is not empty",
		Quick:    8000,
		Thorough: 200000,
		Fixed:    fixed,
		Gen: func(rt *rapid.T) hashCase {
			switch rapid.IntRange(0, 3).Draw(rt, "kind") {
			case 0:
				s := rapid.StringMatching(`(/[a-zA-Z0-9_.-]{1,20}){1,9}`).Draw(rt, "path")
				return hashCase{Bytes: []byte(s)}
			case 1:
				return hashCase{Bytes: []byte(rapid.String().Draw(rt, "text"))}
			case 2:
				n := rapid.SampledFrom([]int{0, 1, 60, 127, 128, 129, 250, 300}).Draw(rt, "len")
				return hashCase{Bytes: rapid.SliceOfN(rapid.Byte(), n, n+8).Draw(rt, "bytes")}
			}
			return hashCase{Bytes: []byte("/store/data/file_" + strconv.Itoa(rapid.IntRange(0, 1<<30).Draw(rt, "id")))}
		},
		Run: runHash,
	})
}
