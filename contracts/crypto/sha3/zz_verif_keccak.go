package sha3

import "flychain/internal/vspec"

// The permutation as FIPS 202 defines it: lane (x, y) is a[x+5*y].

func vsRot(v uint64, n uint) uint64 { return v<<(n%64) | v>>((64-n)%64) }

func vsTheta(a [25]uint64) [25]uint64 {
	var c [5]uint64
	for x := 0; x < 5; x++ {
		c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
	}
	var r [25]uint64
	for x := 0; x < 5; x++ {
		d := c[(x+4)%5] ^ vsRot(c[(x+1)%5], 1)
		for y := 0; y < 5; y++ {
			r[x+5*y] = a[x+5*y] ^ d
		}
	}
	return r
}

func vsRho(a [25]uint64) [25]uint64 {
	r := a
	x, y := 1, 0
	for t := 0; t < 24; t++ {
		r[x+5*y] = vsRot(a[x+5*y], uint((t+1)*(t+2)/2%64))
		x, y = y, (2*x+3*y)%5
	}
	return r
}

func vsPi(a [25]uint64) [25]uint64 {
	var r [25]uint64
	for x := 0; x < 5; x++ {
		for y := 0; y < 5; y++ {
			r[x+5*y] = a[(x+3*y)%5+5*x]
		}
	}
	return r
}

func vsChi(a [25]uint64) [25]uint64 {
	var r [25]uint64
	for x := 0; x < 5; x++ {
		for y := 0; y < 5; y++ {
			r[x+5*y] = a[x+5*y] ^ (a[(x+2)%5+5*y] &^ a[(x+1)%5+5*y])
		}
	}
	return r
}

// vsRC is the constant of round i, by the generating shift register.
func vsRC(i int) uint64 {
	var r uint64
	for j := 0; j <= 6; j++ {
		if vsBit((j + 7*i) % 255) {
			r |= 1 << (uint(1)<<uint(j) - 1)
		}
	}
	return r
}

func vsBit(t int) bool {
	r := 1
	for i := 0; i < t; i++ {
		r <<= 1
		if r&0x100 != 0 {
			r ^= 0x171
		}
	}
	return r&1 == 1
}

func vsRound(a [25]uint64, i int) [25]uint64 {
	r := vsChi(vsPi(vsRho(vsTheta(a))))
	r[0] ^= vsRC(i)
	return r
}

func vsKeccak(a [25]uint64) [25]uint64 {
	for i := 0; i < 24; i++ {
		a = vsRound(a, i)
	}
	return a
}

// vsF is the permutation; only the proof of keccakF1600 looks inside.
//
//govc:spec opaque
func vsF(a [25]uint64) [25]uint64 { return vsKeccak(a) }

//govc:contract keccakF1600 prop=C15 wordwise modular def reveal=vsF
func verif_keccakF1600(a *[25]uint64) {
	vspec.Requires(a != nil)
	old := *a
	vspec.Modifies(a)
	keccakF1600(a)
	want := vsF(old)
	for i := 0; i < 25; i++ {
		vspec.Ensures("every lane", a[i] == want[i])
	}
}
