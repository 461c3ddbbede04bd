// Package alike has pools of values that look the same but are not equal
// (==), and of values that are equal but look different.
package alike

import (
	"errors"
	"math"
)

type (
	P  struct{ A, B int }
	Q  struct{ A, B int }
	In struct{ X any }
	F  struct {
		X float64
		S string
	}
	myInt int
	myStr string
	e     struct{}
)

func (P) Error() string { return "p" }

// Anys are comparable values of many dynamic types: equal ones appear several
// times, most of them print or deep-compare like another one.
func Anys() []any {
	one, uno := 1, 1
	p, q := &P{1, 2}, &P{1, 2}
	ch, ch2 := make(chan int), make(chan int)
	e1, e2 := errors.New("e"), errors.New("e")
	var nilInt *int
	var nilP *P
	return []any{
		nil, nilInt, nilP, (chan int)(nil), error(nil), "<nil>", "", 0, int8(0), false, "false", e{}, struct{}{},
		1, 1, int64(1), int32(1), uint(1), uint8(1), uintptr(1), myInt(1), 1.0, float32(1), complex(1, 0), complex64(1), true, "1", myStr("1"), 'a', "a", "97",
		math.MaxInt32, int64(math.MaxInt32), int64(1 + 1<<32), uint64(1 + 1<<32), uint64(math.MaxUint64), -1, int8(-1), uint8(255), int64(math.MinInt64),
		0.0, math.Copysign(0, -1), math.NaN(), math.Inf(1), float32(math.Inf(1)), 0.1, float32(0.1),
		&one, &uno, p, q, P{1, 2}, P{1, 2}, Q{1, 2}, [2]int{1, 2}, [2]int{1, 2}, [2]int64{1, 2}, [1]any{1}, [1]any{int64(1)}, [1]any{nil},
		In{1}, In{int64(1)}, In{nil}, In{In{nil}}, In{"1"}, In{&one}, In{&uno}, In{0.0}, In{math.Copysign(0, -1)},
		F{0, "x"}, F{math.Copysign(0, -1), "x"}, F{math.NaN(), "x"}, F{0, "x "},
		ch, ch2, e1, e2, error(P{1, 2}), "ab\x00", "ab", "AB", "é", "e\u0301", "1 2", "{1 2}",
	}
}

// Floats holds zeros of both signs, NaNs and neighbours.
func Floats() []float64 {
	return []float64{0, math.Copysign(0, -1), math.NaN(), math.NaN(), 1, math.Nextafter(1, 2), math.Inf(1), math.Inf(-1), 1 << 53, 1<<53 + 2, 0.1, float64(float32(0.1)), 5e-324}
}

// Ptrs holds distinct pointers to equal values, nil among them.
func Ptrs() []*P {
	a := &P{1, 2}
	return []*P{nil, a, a, {1, 2}, {1, 2}, {}, {}}
}

// Structs compare field by field, floats included.
func Structs() []F {
	return []F{{}, {math.Copysign(0, -1), ""}, {0, "x"}, {math.Copysign(0, -1), "x"}, {math.NaN(), "x"}, {1, "x"}, {1, "X"}}
}

// Ins compare what their interface field holds.
func Ins() []In {
	one, uno := 1, 1
	return []In{{}, {0}, {int64(0)}, {""}, {false}, {1}, {1}, {int64(1)}, {"1"}, {1.0}, {&one}, {&uno}, {In{1}}, {In{int64(1)}}, {math.NaN()}, {P{1, 2}}, {Q{1, 2}}, {(*int)(nil)}}
}
