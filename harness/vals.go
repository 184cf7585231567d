package main

import (
	"math"
	"math/rand"
)

// Feature values are named by integer codes, the same ones spec/Values.tla
// uses: code = 8*q + e, the value q/4 moved by e units in the last place
// (e in -3..3). Codes are ordered like the values they stand for.
const (
	NaNCode = 1000000000
	qInf    = 20000000
	q1e300  = 19999999
	q2p40   = 19999998
	q2p32   = 19999997
	q2p31   = 19999996
	q2p31m1 = 19999995
	q2p24   = 19999994
)

var zeroD = [4]float64{0, 1e-36, 5e-36, 2e-35}

func split(c int) (q, e int) {
	q = (c + 3) >> 3 // floor
	return q, c - 8*q
}

func mk(q, e int) int { return 8*q + e }

// decode gives the float64 of a code. f32: the value is a float32 and ulps are float32 ulps.
func decode(c int, f32 bool) float64 {
	if c == NaNCode {
		return math.NaN()
	}
	q, e := split(c)
	if q == 0 {
		a := e
		if a < 0 {
			a = -a
		}
		v := zeroD[a]
		if f32 {
			v = float64(float32(v))
		}
		if e < 0 {
			v = -v
		}
		return v
	}
	aq, neg := q, false
	if q < 0 {
		aq, neg = -q, true
	}
	var v float64
	switch aq {
	case qInf:
		v = math.Inf(1)
	case q1e300:
		// e = 3 is the largest finite number
		v = math.Float64frombits(math.Float64bits(math.MaxFloat64) - 3)
		if f32 {
			v = float64(math.Float32frombits(math.Float32bits(math.MaxFloat32) - 3))
		}
	case q2p40:
		v = 1 << 40
	case q2p32:
		v = (1 << 32) + 5
		if f32 {
			v = (1 << 32) + 512
		}
	case q2p31:
		v = 1 << 31
	case q2p31m1:
		v = 1<<31 - 1
		if f32 {
			v = 1<<31 - 128
		}
	case q2p24:
		v = 1<<24 + 1
		if f32 {
			v = 1<<24 + 2
		}
	default:
		v = float64(aq) * 0.25
	}
	if neg {
		v = -v
	}
	for ; e > 0; e-- {
		if f32 {
			v = float64(math.Nextafter32(float32(v), float32(math.Inf(1))))
		} else {
			v = math.Nextafter(v, math.Inf(1))
		}
	}
	for ; e < 0; e++ {
		if f32 {
			v = float64(math.Nextafter32(float32(v), float32(math.Inf(-1))))
		} else {
			v = math.Nextafter(v, math.Inf(-1))
		}
	}
	return v
}

func decodeRow(codes []int, f32 bool, r *rand.Rand) []float64 {
	out := make([]float64, len(codes))
	for i, c := range codes {
		out[i] = decode(c, f32)
		if c == 0 && r != nil && r.Intn(3) == 0 {
			out[i] = math.Copysign(0, -1) // -0.0 is the same value
		}
	}
	return out
}

// special codes worth trying for any feature
func specialCodes(f32 bool) []int {
	s := []int{NaNCode, 0, 1, -1, 2, -2, 3, -3, mk(qInf, 0), mk(-qInf, 0),
		mk(q1e300, 0), mk(-q1e300, 0), mk(q1e300, 3), mk(-q1e300, -3), mk(q2p40, 0), mk(q2p32, 0), mk(q2p31, 0), mk(q2p31m1, 0), mk(q2p24, 0),
		mk(-q2p31, 0), mk(-q2p32, 0), mk(4, -1), mk(-4, 1), mk(-4, 0), mk(-1, 0), mk(-2, 0), mk(4, 0)}
	if !f32 {
		s = append(s, mk(q2p31, -1), mk(q2p31m1, 1), mk(-q2p31, 1), mk(-q2p31, -1))
	}
	return s
}

// catCode names category k (those below 5e6, 2^24 + 1 and 2^31 - 1 have names).
func catCode(k int) int {
	switch k {
	case 1<<24 + 1:
		return mk(q2p24, 0)
	case 1<<31 - 1:
		return mk(q2p31m1, 0)
	}
	return mk(4*k, 0)
}

func pickFloat(r *rand.Rand, f ...float64) float64 { return f[r.Intn(len(f))] }
