package main

import "strings"

// sequences calls f with every sequence over tokens of length min..max, shorter
// ones first; f gets the concatenation and the indexes.
func sequences(tokens []string, min, max int, f func(t string, ix []int) bool) {
	for n := min; n <= max; n++ {
		ix := make([]int, n)
		for {
			var b strings.Builder
			for _, i := range ix {
				b.WriteString(tokens[i])
			}
			if !f(b.String(), ix) {
				return
			}
			k := n - 1
			for k >= 0 {
				ix[k]++
				if ix[k] < len(tokens) {
					break
				}
				ix[k] = 0
				k--
			}
			if k < 0 {
				break
			}
		}
	}
}

// count of sequences
func countSeq(tokens, min, max int) int64 {
	var total int64
	for n := min; n <= max; n++ {
		p := int64(1)
		for i := 0; i < n; i++ {
			p *= int64(tokens)
		}
		total += p
	}
	return total
}

// A piece is a leaf (close empty) or a container of further pieces.
type piece struct{ open, close string }

// balanced calls f with every document of min..max pieces, containers properly
// nested and closed. No more than depth containers are open at a time.
func balanced(pieces []piece, min, max, depth int, f func(t string, n int) bool) {
	var stop bool
	var rec func(t string, left int, stack []string)
	for n := min; n <= max && !stop; n++ {
		total := n
		rec = func(t string, left int, stack []string) {
			if stop {
				return
			}
			if left == 0 {
				for i := len(stack) - 1; i >= 0; i-- {
					t += stack[i]
				}
				if !f(t, total) {
					stop = true
				}
				return
			}
			// close a container first, any number of times, before the next piece
			closing := t
			for k := len(stack); ; k-- {
				for _, p := range pieces {
					if p.close == "" {
						rec(closing+p.open, left-1, stack[:k])
					} else if k < depth {
						rec(closing+p.open, left-1, append(append([]string{}, stack[:k]...), p.close))
					}
				}
				if k == 0 {
					break
				}
				closing += stack[k-1]
			}
		}
		rec("", n, nil)
	}
}

func contains(s, sub string) bool { return strings.Contains(s, sub) }

// clip is s, shortened to n bytes.
func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
