package verifkit

import (
	"strings"

	dcw "github.com/ftl/digimodes/cw"
)

// Interval is the time during which the key is down.
type Interval struct{ From, To float64 }

// Keying builds key-down intervals of Morse text; all times are in the same unit as dit.
type Keying struct {
	Now       float64
	Intervals []Interval
}

// Text keys the text from Now on with 1:3:7 timing, every element and gap stretched by a random factor of 1 +/- jitter.
// Characters that are not part of the Morse table are not allowed.
func (k *Keying) Text(text string, dit, jitter float64, rng *Rand) {
	j := func() float64 {
		if jitter == 0 {
			return 1
		}
		return 1 + jitter*(2*rng.Float()-1)
	}
	for wi, word := range strings.Fields(text) {
		if wi > 0 {
			k.Now += 7 * dit * j()
		}
		for ci, c := range []rune(word) {
			if ci > 0 {
				k.Now += 3 * dit * j()
			}
			symbols, ok := dcw.Code[c]
			if !ok {
				panic("VERIF-HARNESS: no Morse code for " + string(c))
			}
			for si, s := range symbols {
				if si > 0 {
					k.Now += dit * j()
				}
				l := dit
				if s == dcw.Da {
					l = 3 * dit
				}
				k.Carrier(l * j())
			}
		}
	}
}

func (k *Keying) Carrier(length float64) {
	k.Intervals = append(k.Intervals, Interval{k.Now, k.Now + length})
	k.Now += length
}

func (k *Keying) Pause(length float64) { k.Now += length }

// Sampler returns a function that tells the key state at ascending times.
func (k *Keying) Sampler() func(t float64) bool {
	i := 0
	return func(t float64) bool {
		for i < len(k.Intervals) && k.Intervals[i].To <= t {
			i++
		}
		return i < len(k.Intervals) && k.Intervals[i].From <= t
	}
}

// MorseTable holds the characters the decoder can write.
func MorseTable() map[rune]bool {
	result := map[rune]bool{}
	for r := range dcw.Code {
		result[r] = true
	}
	return result
}
