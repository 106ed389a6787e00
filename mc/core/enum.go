package core

// Pow returns b^e.
func Pow(b, e int) uint64 {
	r := uint64(1)
	for i := 0; i < e; i++ {
		r *= uint64(b)
	}
	return r
}

// WordsUpTo is the number of words of length 0..l over an alphabet of k symbols.
func WordsUpTo(k, l int) uint64 {
	n := uint64(0)
	for i := 0; i <= l; i++ {
		n += Pow(k, i)
	}
	return n
}

// Word decodes index i of WordsUpTo(k, l) into symbol numbers (shortest first).
func Word(k int, i uint64, out []int) []int {
	out = out[:0]
	l := 0
	p := uint64(1)
	for i >= p {
		i -= p
		p *= uint64(k)
		l++
	}
	for j := 0; j < l; j++ {
		out = append(out, int(i%uint64(k)))
		i /= uint64(k)
	}
	// most significant first, so that neighbouring indices share prefixes
	for a, b := 0, len(out)-1; a < b; a, b = a+1, b-1 {
		out[a], out[b] = out[b], out[a]
	}
	return out
}

// Concat builds the string of a word over a menu.
func Concat(menu []string, word []int, buf []byte) []byte {
	buf = buf[:0]
	for _, s := range word {
		buf = append(buf, menu[s]...)
	}
	return buf
}

// Combos returns all subsets of {0..n-1} with at most k elements, smallest first.
func Combos(n, k int) [][]int {
	var out [][]int
	for size := 0; size <= k; size++ {
		var rec func(start int, cur []int)
		rec = func(start int, cur []int) {
			if len(cur) == size {
				out = append(out, append([]int(nil), cur...))
				return
			}
			for i := start; i < n; i++ {
				rec(i+1, append(cur, i))
			}
		}
		rec(0, nil)
	}
	return out
}

// Mixed decodes i in mixed radix.
func Mixed(i uint64, radix []int, out []int) []int {
	out = out[:0]
	for _, r := range radix {
		out = append(out, int(i%uint64(r)))
		i /= uint64(r)
	}
	return out
}

// Prod multiplies radices.
func Prod(radix []int) uint64 {
	n := uint64(1)
	for _, r := range radix {
		n *= uint64(r)
	}
	return n
}
