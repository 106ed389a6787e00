package ref

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	"github.com/go-ini/ini"
)

// The observation format: a flat byte string of length-prefixed fields.  It is
// produced from the model and from the library (through its public API) and
// compared bytewise.

func fs(b []byte, tag byte, s string) []byte {
	b = append(b, tag)
	b = strconv.AppendInt(b, int64(len(s)), 10)
	b = append(b, ':')
	return append(b, s...)
}

func fl(b []byte, tag byte, l []string) []byte {
	b = append(b, tag)
	b = strconv.AppendInt(b, int64(len(l)), 10)
	for _, s := range l {
		b = fs(b, '.', s)
	}
	return b
}

// ObserveKey appends the model key.
func (k *Key) Observe(b []byte) []byte {
	b = fs(b, 'K', k.Name)
	b = fs(b, 'v', k.Value)
	b = fs(b, 'c', k.Comment)
	b = fl(b, 'h', k.Values())
	return fl(b, 'n', k.Nested)
}

// Observe appends the model section.
func (s *Sec) Observe(b []byte) []byte {
	b = fs(b, 'S', s.Name)
	b = fs(b, 'c', s.Comment)
	body := ""
	if s.Raw {
		body = strings.TrimSpace(s.Body)
	}
	b = fs(b, 'b', body)
	for _, k := range s.Keys {
		b = k.Observe(b)
	}
	return append(b, '\n')
}

// Observe appends the model document.
func (d *Doc) Observe(b []byte) []byte {
	for _, s := range d.Secs {
		b = s.Observe(b)
	}
	return b
}

// ObserveKey appends the library key.
func ObserveKey(b []byte, k *ini.Key) []byte {
	b = fs(b, 'K', k.Name())
	b = fs(b, 'v', k.Value())
	b = fs(b, 'c', k.Comment)
	b = fl(b, 'h', k.ValueWithShadows())
	return fl(b, 'n', k.NestedValues())
}

// ObserveSec appends the library section and cross-checks its accessors.
func ObserveSec(b []byte, s *ini.Section) []byte {
	b = fs(b, 'S', s.Name())
	b = fs(b, 'c', s.Comment)
	b = fs(b, 'b', s.Body())
	names := s.KeyStrings()
	keys := s.Keys()
	hash := s.KeysHash()
	if len(keys) != len(names) || len(hash) != len(names) {
		b = append(b, fmt.Sprintf("!INCONSISTENT names=%q keys=%d hash=%q!", names, len(keys), hash)...)
	}
	for i, k := range keys {
		b = ObserveKey(b, k)
		if i >= len(names) || k.Name() != names[i] {
			b = append(b, fmt.Sprintf("!KEY NAME %q vs list %q!", k.Name(), names)...)
		}
		if h, ok := hash[k.Name()]; !ok || h != k.Value() {
			b = append(b, fmt.Sprintf("!HASH of %q is %q,%v!", k.Name(), h, ok)...)
		}
		if g, err := s.GetKey(k.Name()); err != nil || g != k {
			b = append(b, fmt.Sprintf("!GetKey(%q) disagrees with Keys()!", k.Name())...)
		}
		if !s.HasKey(k.Name()) {
			b = append(b, fmt.Sprintf("!HasKey(%q) false!", k.Name())...)
		}
		if !s.HasValue(k.Value()) {
			b = append(b, fmt.Sprintf("!HasValue(%q) false!", k.Value())...)
		}
	}
	return append(b, '\n')
}

// Observe appends the library file and cross-checks its accessors.
func Observe(b []byte, f *ini.File) []byte {
	secs := f.Sections()
	names := f.SectionStrings()
	if len(names) != len(secs) {
		b = append(b, fmt.Sprintf("!SectionStrings %q vs %d sections!", names, len(secs))...)
	}
	for i, s := range secs {
		b = ObserveSec(b, s)
		if i >= len(names) || s.Name() != names[i] {
			b = append(b, fmt.Sprintf("!SECTION NAME %q vs list %q!", s.Name(), names)...)
		}
		// position among the sections of the same name
		idx := 0
		for _, o := range secs[:i] {
			if o.Name() == s.Name() {
				idx++
			}
		}
		l, err := f.SectionsByName(s.Name())
		if err != nil || idx >= len(l) || l[idx] != s {
			b = append(b, fmt.Sprintf("!SectionsByName(%q)[%d] disagrees with Sections()!", s.Name(), idx)...)
		}
		if idx == 0 {
			if g, err := f.GetSection(s.Name()); err != nil || g != s || !f.HasSection(s.Name()) {
				b = append(b, fmt.Sprintf("!GetSection(%q) disagrees with Sections()!", s.Name())...)
			}
			n := 0
			for _, o := range secs {
				if o.Name() == s.Name() {
					n++
				}
			}
			if len(l) != n {
				b = append(b, fmt.Sprintf("!SectionsByName(%q) has %d entries, listed %d!", s.Name(), len(l), n)...)
			}
		}
	}
	return b
}

// Written returns what the library writes.
func Written(f *ini.File, indent string) string {
	var buf bytes.Buffer
	n, err := f.WriteToIndent(&buf, indent)
	if err != nil {
		return "!write error: " + err.Error()
	}
	if n != int64(buf.Len()) {
		return fmt.Sprintf("!count %d for %d bytes!", n, buf.Len())
	}
	return buf.String()
}

// ErrClass classifies a library load error like the model does.
func ErrClass(err error) string {
	switch e := err.(type) {
	case nil:
		return ""
	case ini.ErrDelimiterNotFound:
		return "delim: " + e.Line
	case ini.ErrEmptyKeyName:
		return "name: " + e.Line
	}
	return "other"
}

// ModelErrClass classifies a model error.
func ModelErrClass(err error) string {
	if err == nil {
		return ""
	}
	if p, ok := err.(*PErr); ok && p.Kind != "other" {
		return p.Error()
	}
	return "other"
}
