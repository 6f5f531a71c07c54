package main

import "math/rand"

// mutate applies a few random structural mutations to b.
func mutate(r *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	n := 1 + r.Intn(4)
	for i := 0; i < n && len(b) > 0; i++ {
		p := r.Intn(len(b))
		switch r.Intn(9) {
		case 0:
			b[p] = byte(r.Intn(256))
		case 1:
			b[p] ^= 1 << uint(r.Intn(8))
		case 2:
			b = b[:p]
		case 3: // delete a range
			q := p + r.Intn(16)
			if q > len(b) {
				q = len(b)
			}
			b = append(b[:p], b[q:]...)
		case 4: // duplicate a range
			q := p + r.Intn(32)
			if q > len(b) {
				q = len(b)
			}
			b = append(b[:q:q], append(append([]byte(nil), b[p:q]...), b[q:]...)...)
		case 5: // forge a 32-bit field
			if p+4 <= len(b) {
				v := []uint32{0, 1, 0xffffffff, 0x7fffffff, 0x80000000, 0x10000, 0x00ffffff, uint32(len(b)), uint32(len(b) + 1), 8, 7, 0xfffffff0}[r.Intn(12)]
				b[p], b[p+1], b[p+2], b[p+3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
			}
		case 6: // forge a 16-bit field
			if p+2 <= len(b) {
				v := []uint16{0, 1, 0xffff, 0x7fff, 0x8000, 255, 256}[r.Intn(7)]
				b[p], b[p+1] = byte(v>>8), byte(v)
			}
		case 7: // insert random bytes
			b = append(b[:p:p], append(genBytes(r, 1+r.Intn(12)), b[p:]...)...)
		case 8:
			b[p] = []byte{0, 0xff, 0x7f, 0x80, 1}[r.Intn(5)]
		}
	}
	return b
}
