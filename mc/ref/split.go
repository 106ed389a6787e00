package ref

import "strings"

// Split splits at unescaped delimiters, left to right.
func Split(s, delim string) []string {
	out := []string{}
	if s == "" {
		return out
	}
	var cur []byte
	for i := 0; i < len(s); {
		rest := s[i:]
		switch {
		case rest[0] == '\\' && strings.HasPrefix(rest[1:], delim):
			cur = append(cur, delim...)
			i += 1 + len(delim)
		case strings.HasPrefix(rest, `\\`):
			cur = append(cur, '\\')
			i += 2
		case rest[0] == '\\' && len(rest) > 1: // kept, and what follows is plain
			cur = append(cur, rest[:2]...)
			i += 2
		case strings.HasPrefix(rest, delim):
			out = append(out, strings.TrimSpace(string(cur)))
			cur = cur[:0]
			i += len(delim)
		default:
			cur = append(cur, rest[0])
			i++
		}
	}
	if len(cur) > 0 { // a final delimiter adds no element
		out = append(out, strings.TrimSpace(string(cur)))
	}
	return out
}
