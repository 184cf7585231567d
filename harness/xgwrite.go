package main

import (
	"bytes"
	"encoding/binary"
	"math"
	"math/rand"
)

// XGHead are the header fields of an XGBoost binary file that a test may vary.
type XGHead struct {
	Gbm, Obj   string
	NF         uint32
	NumClass   int32
	Trees      int32
	Roots      int32
	GBFeatures int32
	Groups     int32
	TreeRoots  int32
	LastRoots  int32 // more roots of the last tree
	TreeNF     int32 // more features in every tree
	LastNF     int32 // more features in the last tree
	Info       []int32
	NW         int // dart weights to write (-1: as many as trees)
	LinNF      uint32
	LinW       int // linear weights to write (-1: all)
}

func xgHead(m *Model, obj string) XGHead {
	h := XGHead{Gbm: map[string]string{"xg": "gbtree", "dart": "dart", "lin": "gblinear"}[m.Kind], Obj: obj,
		NF: uint32(m.NF), NumClass: 0, Trees: int32(len(m.Trees)), Roots: 1, GBFeatures: int32(m.NF),
		Groups: int32(m.K), TreeRoots: 1, NW: -1, LinNF: uint32(m.NF), LinW: -1}
	if m.K > 1 {
		h.NumClass = int32(m.K)
	}
	for i := range m.Trees {
		h.Info = append(h.Info, int32(i%m.K))
	}
	return h
}

func put(b *bytes.Buffer, vs ...interface{}) {
	for _, v := range vs {
		if s, ok := v.(string); ok {
			must(binary.Write(b, binary.LittleEndian, uint64(len(s))))
			b.WriteString(s)
			continue
		}
		must(binary.Write(b, binary.LittleEndian, v))
	}
}

// xgBin writes an XGBoost binary model (gbtree, dart or gblinear).
func xgBin(m *Model, h XGHead, r *rand.Rand) []byte {
	b := &bytes.Buffer{}
	// what is reserved or a statistic may be anything
	pad := func(n int) []int32 {
		v := make([]int32, n)
		if r.Intn(2) == 0 {
			for i := range v {
				v[i] = int32(pick(r, 0, 1, -1, r.Intn(1<<31), -r.Intn(1<<31)))
			}
		}
		return v
	}
	stat := func() float32 { return float32(pickFloat(r, 0, 0, 0.5, 2, -1, 1e30, r.NormFloat64())) }
	put(b, float32(eighths(m.Base[0])), h.NF, h.NumClass, int32(r.Intn(2)), int32(r.Intn(2)), pad(29))
	put(b, h.Obj, h.Gbm)
	if m.Kind == "lin" {
		put(b, h.LinNF, h.Groups, pad(32))
		w := []float32{}
		for f := 0; f < m.NF; f++ {
			for k := 0; k < m.K; k++ {
				v := eighths(m.LW[f][k])
				if m.exp != nil {
					v = math.Ldexp(v, -m.exp[f])
				}
				w = append(w, float32(v))
			}
		}
		for k := 0; k < m.K; k++ {
			w = append(w, float32(eighths(m.LB[k])))
		}
		for h.LinW > len(w) {
			w = append(w, 1)
		}
		if h.LinW >= 0 {
			w = w[:h.LinW]
		}
		put(b, uint64(len(w)), w)
		return b.Bytes()
	}
	put(b, h.Trees, h.Roots, h.GBFeatures, pad(1), int64(r.Intn(2)*r.Intn(1<<40)), h.Groups, int32(r.Intn(2)*r.Intn(5)), pad(32))
	for i := range m.Trees {
		t := &m.Trees[i]
		roots, nf := h.TreeRoots, int32(m.NF)+h.TreeNF
		if i == len(m.Trees)-1 {
			roots, nf = roots+h.LastRoots, nf+h.LastNF
		}
		put(b, roots, int32(len(t.N)), int32(t.deleted), int32(r.Intn(5)), nf, int32(t.leafVec), pad(31))
		parent := make([]int32, len(t.N))
		for j := range parent {
			parent[j] = -1
		}
		reach := make([]bool, len(t.N))
		reach[0] = true
		for j, nd := range t.N {
			if nd.L >= 0 && nd.L < len(t.N) && nd.R >= 0 && nd.R < len(t.N) {
				parent[nd.L] = int32(uint32(j) | 1<<31)
				parent[nd.R] = int32(j)
				reach[nd.L], reach[nd.R] = true, true
			}
		}
		for j, nd := range t.N {
			s := uint32(nd.F)
			if nd.DL {
				s |= 1 << 31
			}
			info := float32(decode(nd.T, true))
			if nd.L == -1 {
				info = float32(eighths(nd.V))
				s = 0
				if !reach[j] {
					s = 1<<32 - 1 // deleted
				}
			}
			put(b, parent[j], int32(nd.L), int32(nd.R), s, info)
		}
		for range t.N {
			put(b, stat(), stat(), stat(), int32(r.Intn(3)))
		}
		if t.leafVec > 0 {
			v := make([]float32, r.Intn(4)*t.leafVec)
			for j := range v {
				v[j] = float32(j)
			}
			put(b, uint64(len(v)), v)
		}
	}
	put(b, h.Info)
	if m.Kind == "dart" {
		w := []float32{}
		for _, x := range m.W {
			w = append(w, float32(x)/4)
		}
		for h.NW > len(w) {
			w = append(w, 1)
		}
		if h.NW >= 0 {
			w = w[:h.NW]
		}
		put(b, uint64(len(w)), w)
	}
	return b.Bytes()
}
