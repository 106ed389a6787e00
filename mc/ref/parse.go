package ref

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/go-ini/ini"
)

// PErr is the model's load error.
type PErr struct {
	Kind string // "delim", "name", "other"
	Line string
}

func (e *PErr) Error() string { return e.Kind + ": " + e.Line }

func other(f string, a ...interface{}) *PErr { return &PErr{"other", fmt.Sprintf(f, a...)} }

// reader hands out lines of the whole text.
type reader struct {
	s    string
	pos  int
	last bool // the line handed out last reached the end of the text
}

func (r *reader) line() string {
	rest := r.s[r.pos:]
	if i := strings.IndexByte(rest, '\n'); i >= 0 {
		r.pos += i + 1
		return rest[:i+1]
	}
	r.pos = len(r.s)
	r.last = true
	return rest
}

func (r *reader) peek() string {
	rest := r.s[r.pos:]
	if i := strings.IndexByte(rest, '\n'); i >= 0 {
		return rest[:i+1]
	}
	return rest
}

type parse struct {
	*reader
	o       ini.LoadOptions
	comment strings.Builder
}

func (p *parse) take() string {
	c := strings.TrimSpace(p.comment.String())
	p.comment.Reset()
	return c
}

// StripBOM drops a leading byte order mark.
func StripBOM(s string) string {
	for _, bom := range []string{"\xfe\xff", "\xff\xfe", "\xef\xbb\xbf"} {
		if strings.HasPrefix(s, bom) {
			return s[len(bom):]
		}
	}
	return s
}

// lf turns a CRLF line end into LF.
func lf(l string) string {
	if strings.HasSuffix(l, "\r\n") {
		return l[:len(l)-2] + "\n"
	}
	return l
}

// Parse merges one source into the document.
func (d *Doc) Parse(text string) error {
	o := d.O
	p := &parse{reader: &reader{s: StripBOM(text)}, o: o}
	sec, _ := d.header(ini.DefaultSection)
	raw := false
	auto := 1
	start := true // nothing but blanks and comments so far
	var open *Key // key with an empty value that may collect nested values
	for !p.last {
		line := p.line()
		if o.AllowNestedValues && open != nil && len(line) > 0 && (line[0] == ' ' || line[0] == '\t') {
			if err := open.addNested(strings.TrimSpace(line)); err != nil {
				return other("nested")
			}
			continue
		}
		line = strings.TrimLeftFunc(line, unicode.IsSpace)
		switch {
		case line == "":
			continue
		case line[0] == '#' || line[0] == ';':
			p.comment.WriteString(lf(line))
			continue
		case line[0] == '[':
			end := strings.LastIndexByte(line, ']')
			if end < 0 {
				return other("unclosed section")
			}
			name := line[1:end]
			if !start || name == "" || d.foldSec(name) != sec.Name {
				s, err := d.header(name)
				if err != nil {
					return other("section name")
				}
				sec = s
			}
			start = false
			if i := strings.IndexAny(line[end+1:], "#;"); i >= 0 {
				p.comment.WriteString(line[end+1+i:])
			}
			sec.Comment = p.take()
			auto = 1
			open = nil
			raw = false
			for _, u := range o.UnparseableSections {
				if u == name || (o.Insensitive || o.InsensitiveSections) && strings.EqualFold(u, name) {
					raw = true
				}
			}
			continue
		case raw:
			if sec.load != d.load {
				sec.load, sec.Body = d.load, ""
			}
			sec.Raw = true
			sec.Body += line
			start = false
			continue
		}
		start = false

		name, rest, perr := splitKey(line, o.KeyValueDelimiters)
		if perr != nil {
			switch {
			case perr.Kind == "delim" && o.AllowBooleanKeys:
				n, err := p.value(line)
				if err != nil {
					return err
				}
				k, fresh, err2 := sec.assign(n, "true")
				if err2 != nil {
					return other("boolean key")
				}
				k.Boolean = true
				if p.comment.Len() > 0 || fresh || !o.AllowShadows {
					k.Comment = p.take()
				}
				continue
			case perr.Kind != "other" && o.SkipUnrecognizableLines:
				continue
			}
			return perr
		}
		isAuto := name == "-"
		if isAuto {
			name = fmt.Sprintf("#%d", auto)
			auto++
		}
		val, err := p.value(rest)
		if err != nil {
			return err
		}
		k, fresh, err2 := sec.assign(name, val)
		if err2 != nil {
			return other("key")
		}
		k.Auto = isAuto
		if p.comment.Len() > 0 || fresh || !o.AllowShadows {
			k.Comment = p.take()
		}
		open = nil
		if val == "" {
			open = k
		}
	}
	return nil
}

// splitKey separates a key-value line into its key name and the text after the delimiter.
func splitKey(line, delims string) (string, string, *PErr) {
	quote := ""
	switch {
	case strings.HasPrefix(line, `"""`) && len(line) > 6:
		quote = `"""`
	case line[0] == '"':
		quote = `"`
	case line[0] == '`':
		quote = "`"
	}
	if quote == "" {
		i := strings.IndexAny(line, delims)
		if i < 0 {
			return "", "", &PErr{"delim", line}
		}
		if i == 0 {
			return "", "", &PErr{"name", line}
		}
		_, w := utf8.DecodeRuneInString(line[i:])
		return strings.TrimSpace(line[:i]), line[i+w:], nil
	}
	body := line[len(quote):]
	end := strings.Index(body, quote)
	if end < 0 {
		return "", "", other("unclosed key quote")
	}
	after := body[end+len(quote):]
	i := strings.IndexAny(after, delims)
	if i < 0 {
		return "", "", &PErr{"delim", line}
	}
	_, w := utf8.DecodeRuneInString(after[i:])
	return strings.TrimSpace(body[:end]), after[i+w:], nil
}

// value decodes the text after the delimiter, consuming further lines when it spans them.
func (p *parse) value(text string) (string, error) {
	o := p.o
	endsLine := strings.HasSuffix(text, "\n")
	t := strings.TrimLeftFunc(text, unicode.IsSpace)
	if t == "" {
		if o.AllowPythonMultilineValues && endsLine {
			return p.indented(""), nil
		}
		return "", nil
	}
	quote := ""
	switch {
	case strings.HasPrefix(t, `"""`) && len(t) > 3:
		quote = `"""`
	case t[0] == '`':
		quote = "`"
	case t[0] == '"' && o.UnescapeValueDoubleQuotes:
		quote = `"`
	}
	if quote != "" {
		body := t[len(quote):]
		if end := strings.LastIndex(body, quote); end >= 0 {
			if i := strings.IndexAny(body[end:], "#;"); i >= 0 && !o.IgnoreInlineComment {
				p.comment.WriteString(strings.TrimSpace(body[end+i:]))
			}
			body = body[:end]
			if quote == `"` {
				body = strings.ReplaceAll(body, `\"`, `"`)
			}
			return body, nil
		}
		for !p.last {
			l := p.line()
			if end := strings.LastIndex(l, quote); end >= 0 {
				if i := strings.IndexAny(l[end:], "#;"); i >= 0 {
					p.comment.WriteString(strings.TrimSpace(l[end+i:]))
				}
				return body + l[:end], nil
			}
			body += l
		}
		return "", other("unclosed value quote")
	}

	t = strings.TrimSpace(t)
	if strings.HasSuffix(t, `\`) && !o.IgnoreContinuation {
		v := t[:len(t)-1]
		for {
			l := strings.TrimSpace(p.line())
			if l == "" {
				return v, nil
			}
			v += l
			if !strings.HasSuffix(v, `\`) {
				return v, nil
			}
			v = v[:len(v)-1]
		}
	}
	if !o.IgnoreInlineComment {
		i := -1
		if o.SpaceBeforeInlineComment {
			for j := 1; j < len(t) && i < 0; j++ {
				if t[j-1] == ' ' && (t[j] == '#' || t[j] == ';') {
					i = j - 1
				}
			}
		} else {
			i = strings.IndexAny(t, "#;")
		}
		if i >= 0 {
			p.comment.WriteString(t[i:])
			t = strings.TrimSpace(t[:i])
		}
	}
	if len(t) >= 2 && !o.PreserveSurroundedQuote && (t[0] == '"' || t[0] == '\'') &&
		t[len(t)-1] == t[0] && strings.Count(t, t[:1]) == 2 {
		return t[1 : len(t)-1], nil
	}
	if o.UnescapeValueCommentSymbols {
		return strings.NewReplacer(`\;`, ";", `\#`, "#").Replace(t), nil
	}
	if o.AllowPythonMultilineValues && endsLine {
		return p.indented(t), nil
	}
	return t, nil
}

// indented appends the directly following indented lines.
func (p *parse) indented(v string) string {
	for {
		l := p.peek()
		if l == "" || !strings.ContainsRune("\t\f ", rune(l[0])) {
			return v
		}
		p.pos += len(l)
		v += "\n" + strings.TrimSuffix(l, "\n")
	}
}
