package ref

import "strings"

// firstRef finds the leftmost %(name)s with a non-empty name without ')'.
func firstRef(v string) (ref, name string) {
	for i := 0; i+1 < len(v); i++ {
		if v[i] != '%' || v[i+1] != '(' {
			continue
		}
		end := strings.IndexByte(v[i+2:], ')')
		if end < 1 {
			continue
		}
		e := i + 2 + end
		if e+1 < len(v) && v[e+1] == 's' {
			return v[i : e+2], v[i+2 : e]
		}
	}
	return "", ""
}

// Limit of the substitutions that have to be carried out.
const maxSteps = 99

// Transform is the documented reading of a raw value of key k.  settled is false
// when the references do not come to an end within the documented depth and a
// moderate size; then only termination is specified.
func (k *Key) Transform(v string, mapper func(string) string) (res string, settled bool) {
	if mapper != nil {
		v = mapper(v)
	}
	for i := 0; i < maxSteps; i++ {
		r, name := firstRef(v)
		if r == "" {
			return v, true
		}
		t := k.S.Get(name)
		if t == nil || t == k {
			t = nil
			if d := k.S.D.First(""); d != nil {
				t = d.Get(name)
			}
		}
		if t == nil {
			return v, true
		}
		v = strings.ReplaceAll(v, r, t.Value)
		if len(v) > 1<<16 {
			return "", false
		}
	}
	r, _ := firstRef(v)
	return v, r == ""
}
