//go:build go1.21

package ref

import "math/big"

// Independent curve arithmetic over math/big (slow, plain).

type Curve struct {
	Name      string
	P, A, B   *big.Int
	Gx, Gy, N *big.Int
	comp      string // "sec", "bls"
}

func hx(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("hx " + s)
	}
	return n
}

var (
	K1 = &Curve{Name: "k1", P: hx("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"), A: hx("0"), B: hx("7"),
		Gx: hx("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"), Gy: hx("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"),
		N: hx("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"), comp: "sec"}
	R1 = &Curve{Name: "r1", P: hx("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"), A: hx("ffffffff00000001000000000000000000000000fffffffffffffffffffffffc"),
		B:  hx("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"),
		Gx: hx("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"), Gy: hx("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"),
		N: hx("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"), comp: "sec"}
	SM2 = &Curve{Name: "sm2", P: hx("fffffffeffffffffffffffffffffffffffffffff00000000ffffffffffffffff"), A: hx("fffffffeffffffffffffffffffffffffffffffff00000000fffffffffffffffc"),
		B:  hx("28e9fa9e9d9f5e344d5a9e4bcf6509a7f39789f515ab8f92ddbcbd414d940e93"),
		Gx: hx("32c4ae2c1f1981195f9904466a39c9948fe30bbff2660be1715a4589334c74c7"), Gy: hx("bc3736a2f4f6779c59bdcee36b692153d0a9877cc62a474002df32e52139f0a0"),
		N: hx("fffffffeffffffffffffffffffffffff7203df6b21c6052b53bbf40939d54123"), comp: "sec"}
	BLS = &Curve{Name: "bls", P: hx("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab"), A: hx("0"), B: hx("4"),
		Gx: hx("17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb"),
		Gy: hx("08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1"),
		N:  hx("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001"), comp: "bls"}
	PALLAS = &Curve{Name: "pallas", P: hx("40000000000000000000000000000000224698fc094cf91b992d30ed00000001"), A: hx("0"), B: hx("5"),
		Gx: hx("1"), Gy: decBig("12418654782883325593414442427049395787963493412651469444558597405572177144507"),
		N: hx("40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001"), comp: "sec"}
)

func decBig(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic(s)
	}
	return n
}

// Jacobian point; Z = 0 is infinity
type jac struct{ x, y, z *big.Int }

func (c *Curve) mod(v *big.Int) *big.Int { return v.Mod(v, c.P) }

func (c *Curve) dbl(p jac) jac {
	if p.z.Sign() == 0 || p.y.Sign() == 0 {
		return jac{big.NewInt(0), big.NewInt(1), big.NewInt(0)}
	}
	yy := c.mod(new(big.Int).Mul(p.y, p.y))
	s := c.mod(new(big.Int).Lsh(new(big.Int).Mul(p.x, yy), 2))
	m := new(big.Int).Mul(p.x, p.x)
	m.Mul(m, big.NewInt(3))
	if c.A.Sign() != 0 {
		z2 := c.mod(new(big.Int).Mul(p.z, p.z))
		z4 := c.mod(z2.Mul(z2, z2))
		m.Add(m, z4.Mul(z4, c.A))
	}
	c.mod(m)
	x := new(big.Int).Mul(m, m)
	x.Sub(x, s)
	x.Sub(x, s)
	c.mod(x)
	y := new(big.Int).Sub(s, x)
	y.Mul(y, m)
	y4 := new(big.Int).Mul(yy, yy)
	y.Sub(y, y4.Lsh(y4, 3))
	c.mod(y)
	z := new(big.Int).Mul(p.y, p.z)
	z.Lsh(z, 1)
	c.mod(z)
	return jac{x, y, z}
}

func (c *Curve) add(p, q jac) jac {
	if p.z.Sign() == 0 {
		return q
	}
	if q.z.Sign() == 0 {
		return p
	}
	z1 := c.mod(new(big.Int).Mul(p.z, p.z))
	z2 := c.mod(new(big.Int).Mul(q.z, q.z))
	u1 := c.mod(new(big.Int).Mul(p.x, z2))
	u2 := c.mod(new(big.Int).Mul(q.x, z1))
	s1 := c.mod(new(big.Int).Mul(c.mod(new(big.Int).Mul(p.y, z2)), q.z))
	s2 := c.mod(new(big.Int).Mul(c.mod(new(big.Int).Mul(q.y, z1)), p.z))
	if u1.Cmp(u2) == 0 {
		if s1.Cmp(s2) == 0 {
			return c.dbl(p)
		}
		return jac{big.NewInt(0), big.NewInt(1), big.NewInt(0)}
	}
	h := c.mod(new(big.Int).Sub(u2, u1))
	r := c.mod(new(big.Int).Sub(s2, s1))
	h2 := c.mod(new(big.Int).Mul(h, h))
	h3 := c.mod(new(big.Int).Mul(h2, h))
	v := c.mod(new(big.Int).Mul(u1, h2))
	x := new(big.Int).Mul(r, r)
	x.Sub(x, h3)
	x.Sub(x, v)
	x.Sub(x, v)
	c.mod(x)
	y := new(big.Int).Sub(v, x)
	y.Mul(y, r)
	y.Sub(y, new(big.Int).Mul(s1, h3))
	c.mod(y)
	z := c.mod(new(big.Int).Mul(new(big.Int).Mul(p.z, q.z), h))
	return jac{x, y, z}
}

func (c *Curve) affine(p jac) (*big.Int, *big.Int) {
	if p.z.Sign() == 0 {
		return nil, nil
	}
	zi := new(big.Int).ModInverse(p.z, c.P)
	z2 := c.mod(new(big.Int).Mul(zi, zi))
	x := c.mod(new(big.Int).Mul(p.x, z2))
	y := c.mod(new(big.Int).Mul(p.y, c.mod(z2.Mul(z2, zi))))
	return x, y
}

// Mul returns k*(x,y); nil,nil for infinity.
func (c *Curve) Mul(k, x, y *big.Int) (*big.Int, *big.Int) {
	r := jac{big.NewInt(0), big.NewInt(1), big.NewInt(0)}
	q := jac{x, y, big.NewInt(1)}
	k = new(big.Int).Mod(k, c.N)
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = c.dbl(r)
		if k.Bit(i) == 1 {
			r = c.add(r, q)
		}
	}
	return c.affine(r)
}

func (c *Curve) MulG(k *big.Int) (*big.Int, *big.Int) { return c.Mul(k, c.Gx, c.Gy) }

func (c *Curve) Add(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
	if x1 == nil {
		return x2, y2
	}
	if x2 == nil {
		return x1, y1
	}
	return c.affine(c.add(jac{x1, y1, big.NewInt(1)}, jac{x2, y2, big.NewInt(1)}))
}

func Pad(n *big.Int, l int) []byte {
	return n.FillBytes(make([]byte, l))
}

// Compress serializes a public point the way the keychain stores it.
func (c *Curve) Compress(x, y *big.Int) []byte {
	if c.comp == "bls" {
		b := Pad(x, 48)
		b[0] |= 0x80
		if new(big.Int).Lsh(y, 1).Cmp(c.P) > 0 {
			b[0] |= 0x20
		}
		return b
	}
	b := Pad(x, 33)
	b[0] = 2 + byte(y.Bit(0))
	return b
}

// Decompress for "sec" curves with p = 3 mod 4 (k1, r1, sm2).
func (c *Curve) Decompress(b []byte) (*big.Int, *big.Int) {
	if len(b) != 33 || (b[0] != 2 && b[0] != 3) {
		return nil, nil
	}
	x := new(big.Int).SetBytes(b[1:])
	if x.Cmp(c.P) >= 0 {
		return nil, nil
	}
	y2 := new(big.Int).Exp(x, big.NewInt(3), c.P)
	y2.Add(y2, new(big.Int).Mul(c.A, x))
	y2.Add(y2, c.B)
	y2.Mod(y2, c.P)
	y := new(big.Int).ModSqrt(y2, c.P)
	if y == nil {
		return nil, nil
	}
	if byte(y.Bit(0)) != b[0]&1 {
		y.Sub(c.P, y)
	}
	return x, y
}

// ------------------------------------------------------------- ECDSA

// EcdsaVerify: plain textbook verification (no low-S rule).
func (c *Curve) EcdsaVerify(x, y *big.Int, z []byte, r, s *big.Int) bool {
	if x == nil || r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(c.N) >= 0 || s.Cmp(c.N) >= 0 {
		return false
	}
	e := new(big.Int).SetBytes(z)
	w := new(big.Int).ModInverse(s, c.N)
	u1 := new(big.Int).Mod(new(big.Int).Mul(e, w), c.N)
	u2 := new(big.Int).Mod(new(big.Int).Mul(r, w), c.N)
	x1, y1 := c.MulG(u1)
	x2, y2 := c.Mul(u2, x, y)
	px, _ := c.Add(x1, y1, x2, y2)
	if px == nil {
		return false
	}
	return new(big.Int).Mod(px, c.N).Cmp(r) == 0
}

// EcdsaSign with a given nonce k; low-S normalised; returns r||s and the recovery parity after normalisation.
func (c *Curve) EcdsaSign(d, k *big.Int, z []byte) ([]byte, byte) {
	x, y := c.MulG(k)
	r := new(big.Int).Mod(x, c.N)
	s := new(big.Int).Mul(r, d)
	s.Add(s, new(big.Int).SetBytes(z))
	s.Mul(s, new(big.Int).ModInverse(k, c.N))
	s.Mod(s, c.N)
	v := byte(y.Bit(0))
	if new(big.Int).Lsh(s, 1).Cmp(c.N) > 0 {
		s.Sub(c.N, s)
		v ^= 1
	}
	return append(Pad(r, 32), Pad(s, 32)...), v
}

// ------------------------------------------------------------- Ed25519 group

var (
	edP = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	EdL = new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 252), decBig("27742317777372353535851937790883648493"))
	edD = func() *big.Int {
		d := new(big.Int).ModInverse(big.NewInt(121666), edP)
		d.Mul(d, big.NewInt(-121665))
		return d.Mod(d, edP)
	}()
	edGx = decBig("15112221349535400772501151409588531511454012693041857206046113283949847762202")
	edGy = decBig("46316835694926478169428394003475163141307993866256225615783033603165251855960")
)

type edPt struct{ x, y, z, t *big.Int }

func edAdd(p, q edPt) edPt {
	m := func(a, b *big.Int) *big.Int { r := new(big.Int).Mul(a, b); return r.Mod(r, edP) }
	a := m(p.x, q.x)
	b := m(p.y, q.y)
	c := m(m(edD, p.t), q.t)
	d := m(p.z, q.z)
	e := m(new(big.Int).Add(p.x, p.y), new(big.Int).Add(q.x, q.y))
	e.Sub(e, a)
	e.Sub(e, b)
	e.Mod(e, edP)
	f := new(big.Int).Sub(d, c)
	g := new(big.Int).Add(d, c)
	h := new(big.Int).Add(b, a)
	return edPt{m(e, f), m(g, h), m(f, g), m(e, h)}
}

// EdMulG returns the 32-byte encoding of k*B (k little-endian integer given as big.Int).
func EdMulG(k *big.Int) []byte {
	k = new(big.Int).Mod(k, EdL)
	r := edPt{big.NewInt(0), big.NewInt(1), big.NewInt(1), big.NewInt(0)}
	g := edPt{edGx, edGy, big.NewInt(1), new(big.Int).Mod(new(big.Int).Mul(edGx, edGy), edP)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = edAdd(r, r)
		if k.Bit(i) == 1 {
			r = edAdd(r, g)
		}
	}
	zi := new(big.Int).ModInverse(r.z, edP)
	x := new(big.Int).Mod(new(big.Int).Mul(r.x, zi), edP)
	y := new(big.Int).Mod(new(big.Int).Mul(r.y, zi), edP)
	b := Rev(Pad(y, 32))
	b[31] |= byte(x.Bit(0)) << 7
	return b
}

// EdToX is the Montgomery u coordinate (1+y)/(1-y) of an Edwards point.
func EdToX(pub []byte) []byte {
	b := Rev(pub)
	b[0] &= 0x7f
	y := new(big.Int).SetBytes(b)
	one := big.NewInt(1)
	n := new(big.Int).Add(one, y)
	d := new(big.Int).Sub(one, y)
	d.Mod(d, edP)
	d.ModInverse(d, edP)
	n.Mul(n, d).Mod(n, edP)
	return Rev(Pad(n, 32))
}
