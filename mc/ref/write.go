package ref

import (
	"strconv"
	"strings"

	"github.com/go-ini/ini"
)

// Format is the set of process-wide layout settings.
type Format struct {
	PrettySection, PrettyFormat, PrettyEqual, DefaultHeader bool
	Left, Right                                             string
	Break                                                   string // line ends, "" for line feeds
}

func (f Format) lineBreak() string {
	if f.Break == "" {
		return "\n"
	}
	return f.Break
}

// DefaultFormat is the library default.
var DefaultFormat = Format{PrettySection: true, PrettyFormat: true}

// Apply sets the library's globals.
func (f Format) Apply() {
	ini.PrettySection, ini.PrettyFormat, ini.PrettyEqual, ini.DefaultHeader = f.PrettySection, f.PrettyFormat, f.PrettyEqual, f.DefaultHeader
	ini.DefaultFormatLeft, ini.DefaultFormatRight = f.Left, f.Right
	ini.LineBreak = f.lineBreak()
	ini.DefaultSection = "DEFAULT"
}

func commentLines(c, brk string, trim bool) []string {
	if c == "" {
		return nil
	}
	var out []string
	for _, l := range strings.Split(strings.ReplaceAll(c, brk, "\n"), "\n") {
		switch {
		case l == "":
			l = "; "
		case l[0] == '#' || l[0] == ';':
			l = l[:1] + " " + strings.TrimSpace(l[1:])
		case trim:
			l = "; " + strings.TrimSpace(l)
		default:
			l = "; " + l
		}
		out = append(out, l)
	}
	return out
}

// writtenName is how a key name is written.
func (k *Key) writtenName(delims string) string {
	n := k.Name
	q := ""
	switch {
	case strings.Contains(n, `"`) || strings.ContainsAny(n, delims):
		q = "`"
	case strings.Contains(n, "`"):
		q = `"""`
	case n[0] == '#' || n[0] == ';' || n[0] == '[':
		q = "`"
	case k.Boolean && strings.ContainsAny(n, `#;'\`):
		q = "`"
	}
	return q + n + q
}

// QuotedValue is how a value is written.
func QuotedValue(v string, o *ini.LoadOptions) string {
	blank := strings.TrimSpace(v) != v
	switch {
	case !strings.Contains(v, "`") && needsVerbatim(v, blank, o):
		return "`" + v + "`"
	case strings.ContainsAny(v, "\n`"):
		return `"""` + v + `"""`
	case !o.IgnoreInlineComment && strings.ContainsAny(v, "#;"):
		return "`" + v + "`"
	case blank:
		return `"` + v + `"`
	}
	return v
}

// needsVerbatim tells which values only back-quotes keep as they are.
func needsVerbatim(v string, blank bool, o *ini.LoadOptions) bool {
	switch {
	case strings.Contains(v, "\n"):
		return strings.Contains(v, `"""`)
	case blank:
		return o.PreserveSurroundedQuote || strings.Contains(v, "\"")
	}
	surrounded := false
	for _, q := range []string{`"`, "'"} {
		if len(v) > 1 && strings.HasPrefix(v, q) && strings.HasSuffix(v, q) && strings.Count(v, q) == 2 {
			surrounded = true
		}
	}
	return strings.HasSuffix(v, `\`) && !o.IgnoreContinuation ||
		strings.HasPrefix(v, `"""`) ||
		surrounded && !o.PreserveSurroundedQuote ||
		o.UnescapeValueDoubleQuotes && (strings.Contains(v, `\"`) || strings.HasPrefix(v, `"`)) ||
		o.UnescapeValueCommentSymbols && (strings.Contains(v, `\#`) || strings.Contains(v, `\;`))
}

// dashes are the keys written as "-": auto-increment keys without shadows whose
// number is the one a reader would assign.
func (s *Sec) dashes() map[*Key]bool {
	out := map[*Key]bool{}
	n := 1
	for _, k := range s.Keys {
		if k.Auto && !k.Boolean && len(k.Shadows) == 0 && k.Name == "#"+strconv.Itoa(n) {
			out[k] = true
			n++
		}
	}
	return out
}

// Write renders the document.
func (d *Doc) Write(f Format, indent string) string {
	var b strings.Builder
	eq := f.Left + d.O.KeyValueDelimiterOnWrite + f.Right
	if f.PrettyFormat || f.PrettyEqual {
		eq = " " + d.O.KeyValueDelimiterOnWrite + " "
	}
	brk := f.lineBreak()
	for i, s := range d.Secs {
		last := i == len(d.Secs)-1
		for _, l := range commentLines(s.Comment, brk, false) {
			b.WriteString(l + brk)
		}
		implicit := i == 0 && !f.DefaultHeader && strings.ToUpper(s.Name) == ini.DefaultSection && !s.Raw &&
			!(len(s.Keys) == 0 && !last && d.Secs[i+1].Name == s.Name)
		if !implicit {
			b.WriteString("[" + s.Name + "]" + brk)
		} else if len(s.Keys) == 0 {
			continue
		}
		if s.Raw {
			b.WriteString(s.Body)
			if !last && (f.PrettySection || s.Body != "" && !strings.HasSuffix(s.Body, "\n")) {
				b.WriteString(brk)
			}
			continue
		}
		width := 0
		dash := s.dashes()
		if f.PrettyFormat {
			for _, k := range s.Keys {
				n := len(k.writtenName(d.O.KeyValueDelimiters))
				if dash[k] {
					n = len(k.Name)
				}
				if n > width {
					width = n
				}
			}
		}
		in := indent
		if s.Name == ini.DefaultSection {
			in = ""
		}
		for _, k := range s.Keys {
			if ls := commentLines(k.Comment, brk, true); len(ls) > 0 {
				b.WriteString(in)
				for _, l := range ls {
					b.WriteString(l + brk)
				}
			}
			b.WriteString(in)
			name := k.writtenName(d.O.KeyValueDelimiters)
			if dash[k] {
				name = "-"
			}
			pad := ""
			if width > len(name) {
				pad = strings.Repeat(" ", width-len(name))
			}
			vals := k.Values()
			if len(vals) == 0 {
				vals = []string{""}
			}
			for j, v := range vals {
				if k.Boolean && v == "true" && j == len(vals)-1 {
					b.WriteString(name + brk)
					continue
				}
				b.WriteString(name + pad + eq + QuotedValue(v, &d.O) + brk)
			}
			for _, v := range k.Nested {
				b.WriteString(indent + "  " + v + brk)
			}
		}
		if f.PrettySection && !last {
			b.WriteString(brk)
		}
	}
	return b.String()
}
