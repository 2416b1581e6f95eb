// Package trace has the representation of numbers and results in traces.
package trace

import (
	"encoding/json"
	"fmt"
	"math"
)

// Num is a float64 that is read from a JSON number or one of the strings
// "nan", "inf" and "-inf", and written as a record for the specification.
type Num float64

// UnmarshalJSON reads a number.
func (n *Num) UnmarshalJSON(b []byte) error {
	var s string
	if json.Unmarshal(b, &s) == nil {
		switch s {
		case "nan":
			*n = Num(math.NaN())
		case "inf":
			*n = Num(math.Inf(1))
		case "-inf":
			*n = Num(math.Inf(-1))
		default:
			return fmt.Errorf("bad number %q", s)
		}
		return nil
	}
	var f float64
	err := json.Unmarshal(b, &f)
	*n = Num(f)
	return err
}

// Vals is a slice of values, read like Num.
type Vals []float64

// UnmarshalJSON reads values.
func (v *Vals) UnmarshalJSON(b []byte) error {
	var ns []Num
	if err := json.Unmarshal(b, &ns); err != nil {
		return err
	}
	*v = make([]float64, len(ns))
	for i, n := range ns {
		(*v)[i] = float64(n)
	}
	return nil
}

// Rec is a JSON object.
type Rec map[string]interface{}

// infExp makes the triples of infinities 2^2000 and -2^2000, beyond all finite values.
const infExp = 2000 - 27

// Lim is a float64 as the triple <<hi, lo, e>> = (hi * 2^27 + lo) * 2^e.
func Lim(f float64) []int {
	if math.IsNaN(f) {
		return []int{1, 1, infExp} // equal to no number
	}
	if math.IsInf(f, 1) {
		return []int{1, 0, infExp}
	}
	if math.IsInf(f, -1) {
		return []int{-1, 0, infExp}
	}
	if f == 0 {
		return []int{0, 0, 0}
	}
	frac, e := math.Frexp(f)
	m := int64(frac * (1 << 53))
	e -= 53
	for m%2 == 0 {
		m /= 2
		e++
	}
	for e > 0 && m < (1<<50) && m > -(1<<50) {
		m *= 2
		e--
	}
	sign := int64(1)
	if m < 0 {
		sign, m = -1, -m
	}
	return []int{int(sign * (m >> 27)), int(sign * (m & (1<<27 - 1))), e}
}

// NumRec is the record of any float64.
func NumRec(f float64) Rec {
	switch {
	case math.IsNaN(f):
		return Rec{"k": "nan"}
	case math.IsInf(f, 1):
		return Rec{"k": "pinf"}
	case math.IsInf(f, -1):
		return Rec{"k": "ninf"}
	default:
		return Rec{"k": "num", "v": Lim(f)}
	}
}

// Vec is a vector of finite numbers.
func Vec(xs []float64) [][]int {
	res := make([][]int, len(xs))
	for i, x := range xs {
		res[i] = Lim(x)
	}
	return res
}
