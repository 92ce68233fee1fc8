package main

import (
	"unicode/utf8"

	"github.com/raa0121/GoBCDice/pkg/core/dice"
)

// Num is the specification's representation of integers:
// sign, then base-10000 limbs from the least significant one.
type Num []int

func num(n int) Num {
	if n == 0 {
		return Num{0}
	}
	r := Num{1}
	u := uint64(n)
	if n < 0 {
		r[0] = -1
		u = -u
	}
	for ; u > 0; u /= 10000 {
		r = append(r, int(u%10000))
	}
	return r
}

// Text is an input as a sequence of characters; an invalid byte is "BAD".
type Text []string

func text(s string) Text {
	t := Text{}
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			t = append(t, "BAD")
		} else {
			t = append(t, s[i:i+n])
		}
		i += n
	}
	return t
}

// Draw is one call of the die source.
type Draw struct {
	Q  Num  `json:"q"`
	OK bool `json:"ok"`
	V  Num  `json:"v"`
	S  Num  `json:"s"`
}

// DieJ is a die as <<value, faces>>.
type DieJ [2]Num

func dieJ(d dice.Die) DieJ { return DieJ{num(d.Value), num(d.Sides)} }

func diceJ(ds []dice.Die) []DieJ {
	r := []DieJ{}
	for _, d := range ds {
		r = append(r, dieJ(d))
	}
	return r
}

// Event is a recorded step. Only the fields of its kind are set.
type Event map[string]interface{}

// Trace is a sequence of events, and the stimulus that produced it.
type Trace []Event
