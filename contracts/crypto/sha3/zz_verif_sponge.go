package sha3

import "flychain/internal/vspec"

// vsAbsorb is the sponge taking in p byte by byte: the state is permuted whenever a block is full.
func vsAbsorb(a [25]uint64, pos, rate int, p []byte) ([25]uint64, int) {
	for i := 0; i < len(p); i++ {
		a[pos/8] ^= uint64(p[i]) << uint(8*(pos%8))
		pos++
		if pos == rate {
			a = vsF(a)
			pos = 0
		}
	}
	return a, pos
}

// vsWrite: writing the first n bytes of p to a digest with state a, after
// blocks full blocks and pos further bytes, takes them in one by one.
func vsWrite(a [25]uint64, blocks, pos, size int, p []byte, n int) {
	rate := 200 - 2*size
	d := &digest{a: a, outputSize: size, capacity: 2 * size, absorbed: blocks*rate + pos}
	vspec.Modifies(d)
	k, err := d.Write(p[:n])
	want, at := vsAbsorb(a, pos, rate, p[:n])
	vspec.Ensures("everything is written", k == n && err == nil)
	vspec.Ensures("counted", d.absorbed == blocks*rate+pos+n && d.outputSize == size && d.capacity == 2*size && at == d.absorbed%rate)
	vspec.Ensures("absorbed in order", d.a == want)
}

// bounded: writes of up to 24 bytes, at every position of the block
//
//govc:contract digest.Write prop=C16 name=digest.Write(short) bounded
func verif_digest_Write(a [25]uint64, blocks, pos int, p []byte) {
	vspec.Requires(0 <= blocks && blocks < 1<<40)
	vspec.Requires(0 <= pos && pos < 136 && len(p) <= 24)
	pos = vspec.Split(pos, 0, 135)
	vsWrite(a, blocks, pos, 32, p, vspec.Split(len(p), 0, 24))
}

// bounded: writes of up to 152 bytes and of about two blocks, from two positions
//
//govc:contract digest.Write prop=C16 name=digest.Write(long) bounded
func verif_digest_Write_long(a [25]uint64, blocks int, mid, two bool, p []byte) {
	vspec.Requires(0 <= blocks && blocks < 1<<40)
	pos := 0
	if vspec.SplitBool(mid) {
		pos = 131
	}
	n := len(p)
	if vspec.SplitBool(two) {
		vspec.Requires(268 <= n && n <= 280)
		n = vspec.Split(n, 268, 280)
	} else {
		vspec.Requires(25 <= n && n <= 152)
		n = vspec.Split(n, 25, 152)
	}
	vsWrite(a, blocks, pos, 32, p, n)
}

// bounded: every length up to two blocks
//
//govc:contract digest.Write prop=C16 name=digest.Write(longer) bounded tier=thorough
func verif_digest_Write_longer(a [25]uint64, blocks int, mid bool, p []byte) {
	vspec.Requires(0 <= blocks && blocks < 1<<40)
	vspec.Requires(153 <= len(p) && len(p) <= 290)
	pos := 0
	if vspec.SplitBool(mid) {
		pos = 131
	}
	vsWrite(a, blocks, pos, 32, p, vspec.Split(len(p), 153, 290))
}

// vsSize is the size of variant v.
func vsSize(v int) int {
	switch v {
	case 0:
		return 28
	case 1:
		return 48
	case 2:
		return 64
	}
	return 32
}

// bounded: the other variants, around the ends of the block
//
//govc:contract digest.Write prop=C16 name=digest.Write(sizes) bounded
func verif_digest_Write_sizes(a [25]uint64, blocks, pos, v int, p []byte) {
	vspec.Requires(0 <= blocks && blocks < 1<<40)
	vspec.Requires(0 <= v && v <= 2 && 0 <= pos && pos < 24 && len(p) <= 17)
	size := vsSize(vspec.Split(v, 0, 2))
	if pos = vspec.Split(pos, 0, 23); pos >= 9 {
		pos += 200 - 2*size - 24
	}
	vsWrite(a, blocks, pos, size, p, vspec.Split(len(p), 0, 17))
}

//govc:contract digest.Sum prop=C16
func verif_digest_Sum(a [25]uint64, blocks, pos, v int, in []byte) {
	vspec.Requires(0 <= blocks && blocks < 1<<40)
	vspec.Requires(0 <= v && v <= 3)
	size := vsSize(vspec.Split(v, 0, 3))
	rate := 200 - 2*size
	vspec.Requires(0 <= pos && pos < rate)
	pos = vspec.Split(pos, 0, 143)
	d := &digest{a: a, outputSize: size, capacity: 2 * size, absorbed: blocks*rate + pos}
	vspec.Modifies(in[len(in):cap(in)])
	r := d.Sum(in)
	w := a
	w[pos/8] ^= 1 << uint(8*(pos%8))
	w[rate/8-1] ^= 1 << 63
	w = vsF(w)
	vspec.Ensures("appended", len(r) == len(in)+size && vspec.Forall(0, len(in), func(i int) bool { return r[i] == in[i] }))
	vspec.Ensures("digest", vsBytes(r[len(in):], w))
	vspec.Ensures("the running state is kept", d.a == a && d.absorbed == blocks*rate+pos && d.outputSize == size && d.capacity == 2*size)
}

// vsBytes: b starts the state w, lanes little-endian.
func vsBytes(b []byte, w [25]uint64) bool {
	for i := 0; i < len(b); i++ {
		if b[i] != byte(w[i/8]>>uint(8*(i%8))) {
			return false
		}
	}
	return true
}

//govc:contract digest.Reset prop=C16
func verif_digest_Reset(d *digest) {
	vspec.Requires(d != nil)
	size, capacity := d.outputSize, d.capacity
	vspec.Modifies(d)
	d.Reset()
	vspec.Ensures("as new", *d == digest{outputSize: size, capacity: capacity})
}

//govc:contract digest.Size prop=C16
func verif_digest_Size(d *digest) {
	vspec.Requires(d != nil)
	vspec.Ensures("size of the digest", d.Size() == d.outputSize && d.BlockSize() == 200-d.capacity)
}

//govc:contract NewKeccak256 prop=C16
func verif_NewKeccak() {
	vspec.Ensures("Keccak-224", *NewKeccak224().(*digest) == digest{outputSize: 28, capacity: 56})
	vspec.Ensures("Keccak-256", *NewKeccak256().(*digest) == digest{outputSize: 32, capacity: 64})
	vspec.Ensures("Keccak-384", *NewKeccak384().(*digest) == digest{outputSize: 48, capacity: 96})
	vspec.Ensures("Keccak-512", *NewKeccak512().(*digest) == digest{outputSize: 64, capacity: 128})
}
