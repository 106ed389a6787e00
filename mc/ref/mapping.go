package ref

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"
)

// Mapping is the oracle for mapping a document to a struct: it sets the fields
// of a value the way the documentation prescribes.
type Mapping struct {
	D           *Doc
	Strict      bool
	NameMapper  func(string) string
	ValueMapper func(string) string

	Fails  bool // an error is due: an invalid scalar in strict mode, or an unsupported type
	Free   bool // whether there is an error is not specified (invalid list elements in strict mode, too few sections)
	path   []step
	Broken bool // a value whose references never settle was read: nothing is specified
}

type step struct {
	s *Sec
	t reflect.Type
}

var timeT = reflect.TypeOf(time.Time{})

func isTime(t reflect.Type) bool {
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return t.Kind() == reflect.Struct && t.ConvertibleTo(timeT)
}

// IsStruct tells whether a type is mapped to a section (and whether by pointer).
func IsStruct(t reflect.Type) (is, ptr bool) {
	if isTime(t) {
		return false, false
	}
	if t.Kind() == reflect.Ptr && t.Elem().Kind() == reflect.Struct {
		return true, true
	}
	return t.Kind() == reflect.Struct, false
}

// FieldTag is a parsed ini tag.
type FieldTag struct {
	Skip                                 bool
	Raw, Name                            string
	OmitEmpty, Shadow, NonUnique, Extend bool
	Delim, Comment                       string
}

// ParseTag reads the tags of a field.
func ParseTag(f reflect.StructField, mapper func(string) string) FieldTag {
	tag := f.Tag.Get("ini")
	var t FieldTag
	parts := strings.Split(tag, ",")
	t.Raw = parts[0]
	t.Skip = tag == "-"
	for _, p := range parts[1:] {
		switch p {
		case "omitempty":
			t.OmitEmpty = true
		case "allowshadow":
			t.Shadow = true
		case "nonunique":
			t.NonUnique = true
		case "extends":
			t.Extend = true
		}
	}
	t.Name = t.Raw
	if t.Name == "" {
		t.Name = f.Name
		if mapper != nil {
			t.Name = mapper(f.Name)
		}
	}
	t.Delim = f.Tag.Get("delim")
	if t.Delim == "" {
		t.Delim = ","
	}
	t.Comment = f.Tag.Get("comment")
	return t
}

func (m *Mapping) text(k *Key, raw string) string {
	s, ok := k.Transform(raw, m.ValueMapper)
	if !ok {
		m.Broken = true
	}
	return s
}

// ParseBool is the documented set of boolean words.
func ParseBool(s string) (bool, bool) {
	switch s {
	case "1", "t", "T", "true", "TRUE", "True", "YES", "yes", "Yes", "y", "ON", "on", "On":
		return true, true
	case "0", "f", "F", "false", "FALSE", "False", "NO", "no", "No", "n", "OFF", "off", "Off":
		return false, true
	}
	return false, false
}

// scalar converts text to a non-pointer type.
func scalar(t reflect.Type, s string) (v reflect.Value, ok, supported bool) {
	v = reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		v.SetString(s)
		return v, true, true
	case reflect.Bool:
		b, ok := ParseBool(s)
		v.SetBool(b)
		return v, ok, true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if t.Name() == "Duration" {
			if d, err := time.ParseDuration(s); err == nil {
				v.SetInt(int64(d))
				return v, true, true
			}
		}
		n, err := strconv.ParseInt(s, 0, t.Bits())
		v.SetInt(n)
		return v, err == nil, true
	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n, err := strconv.ParseUint(s, 0, t.Bits())
		v.SetUint(n)
		return v, err == nil, true
	case reflect.Float32, reflect.Float64:
		f, err := strconv.ParseFloat(s, 64)
		if t.Kind() == reflect.Float32 && !math.IsInf(f, 0) && math.Abs(f) > math.MaxFloat32 {
			// beyond the last float32 and its rounding range
			if r := float32(f); math.IsInf(float64(r), 0) || v.OverflowFloat(f) {
				return v, false, true
			}
		}
		if err == nil {
			v.SetFloat(f)
		}
		return v, err == nil, true
	}
	if isTime(t) {
		x, err := time.Parse(time.RFC3339, s)
		return reflect.ValueOf(x).Convert(t), err == nil, true
	}
	return v, false, false
}

// Set gives a field the value of a key.
func (m *Mapping) Set(k *Key, f reflect.Value, tag FieldTag) {
	t := f.Type()
	if t.Kind() == reflect.Slice {
		m.list(k, f, tag)
		return
	}
	text := m.text(k, k.Value)
	if t.Kind() == reflect.Ptr {
		v, ok, sup := scalar(t.Elem(), text)
		switch {
		case !sup:
			m.unsupported(t.Elem())
		case ok:
			p := reflect.New(t.Elem())
			p.Elem().Set(v)
			f.Set(p.Convert(t))
		case m.Strict:
			m.Fails = true
		}
		return
	}
	v, ok, sup := scalar(t, text)
	switch {
	case !sup:
		m.unsupported(t)
	case t.Kind() == reflect.String && text == "":
		// an empty text leaves a string as it is
	case ok:
		f.Set(v)
	case m.Strict:
		m.Fails = true
	}
}

func (m *Mapping) unsupported(t reflect.Type) {
	if t.Kind() == reflect.Struct {
		// a struct for which there is a key but no section: only strict mode complains
		if m.Strict {
			m.Fails = true
		}
		return
	}
	if t.Kind() == reflect.Slice {
		m.Free = true // may have nothing to convert
		return
	}
	m.Fails = true
}

func (m *Mapping) list(k *Key, f reflect.Value, tag FieldTag) {
	var elems []string
	if tag.Shadow {
		vals := append([]string{k.Value}, k.Shadows...)
		for _, v := range vals {
			if v == "" {
				continue
			}
			for _, e := range strings.Split(m.text(k, v), tag.Delim) {
				elems = append(elems, strings.TrimSpace(e))
			}
		}
	} else {
		elems = Split(m.text(k, k.Value), tag.Delim)
	}
	if len(elems) == 0 {
		return
	}
	et := f.Type().Elem()
	switch et.Kind() {
	case reflect.String, reflect.Bool, reflect.Int, reflect.Int64, reflect.Uint, reflect.Uint64, reflect.Float64:
	case reflect.Struct:
		if !isTime(et) {
			m.Fails = true
			return
		}
	default:
		m.Fails = true
		return
	}
	out := reflect.MakeSlice(f.Type(), len(elems), len(elems))
	for i, e := range elems {
		v, ok, _ := scalar(et, e)
		if ok {
			out.Index(i).Set(v)
		} else if m.Strict {
			m.Free = true
		}
	}
	f.Set(out)
}

// Struct maps a section to a struct value.
func (m *Mapping) Struct(s *Sec, v reflect.Value, index int) {
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	t := v.Type()
	for _, p := range m.path {
		if p == (step{s, t}) {
			m.Fails = true // a recursive type
			return
		}
	}
	m.path = append(m.path, step{s, t})
	defer func() { m.path = m.path[:len(m.path)-1] }()
	for i := 0; i < t.NumField(); i++ {
		sf, f := t.Field(i), v.Field(i)
		tag := ParseTag(sf, m.NameMapper)
		if tag.Skip || sf.PkgPath != "" || tag.Name == "" {
			continue
		}
		is, ptr := IsStruct(sf.Type)
		if is {
			if ptr && sf.Anonymous && f.IsNil() {
				f.Set(reflect.New(sf.Type.Elem()))
			}
			if tag.Extend && sf.Anonymous {
				from := s
				if tag.Raw != "" {
					if l := m.D.ByName(s.Name + m.D.O.ChildSectionDelimiter + tag.Raw); index < len(l) {
						from = l[index]
					}
				}
				m.Struct(from, f, index)
				continue
			}
			if l := m.D.ByName(tag.Name); len(l) > 0 {
				if index >= len(l) {
					m.Free = true
					continue
				}
				if ptr && f.IsNil() {
					f.Set(reflect.New(sf.Type.Elem()))
				}
				m.Struct(l[index], f, index)
				continue
			}
		}
		if tag.NonUnique && sf.Type.Kind() == reflect.Slice {
			if l := m.D.ByName(tag.Name); len(l) > 0 {
				m.Slice(l, f)
			}
			continue
		}
		if k := s.Get(tag.Name); k != nil {
			m.Set(k, f, tag)
		}
	}
}

// Slice appends one element per section.
func (m *Mapping) Slice(secs []*Sec, f reflect.Value) {
	et := f.Type().Elem()
	ptr := et.Kind() == reflect.Ptr
	if ptr {
		et = et.Elem()
	}
	if et.Kind() != reflect.Struct {
		m.Fails = true
		return
	}
	for i, s := range secs {
		e := reflect.New(et)
		m.Struct(s, e.Elem(), i)
		if !ptr {
			e = e.Elem()
		}
		f.Set(reflect.Append(f, e))
	}
}

// Dump renders a value with everything it points to.
func Dump(b []byte, v reflect.Value) []byte {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return append(b, "nil"...)
		}
		return Dump(append(b, '&'), v.Elem())
	case reflect.Struct:
		if v.Type().ConvertibleTo(timeT) {
			return append(b, v.Convert(timeT).Interface().(time.Time).Format(time.RFC3339Nano)...)
		}
		b = append(b, '{')
		for i := 0; i < v.NumField(); i++ {
			b = append(b, v.Type().Field(i).Name+":"...)
			if v.Type().Field(i).PkgPath != "" {
				b = append(b, "- "...)
				continue
			}
			b = append(Dump(b, v.Field(i)), ' ')
		}
		return append(b, '}')
	case reflect.Slice:
		if v.IsNil() {
			return append(b, "nil"...)
		}
		b = append(b, '[')
		for i := 0; i < v.Len(); i++ {
			b = append(Dump(b, v.Index(i)), ' ')
		}
		return append(b, ']')
	case reflect.String:
		return strconv.AppendQuote(b, v.String())
	case reflect.Map, reflect.Chan, reflect.Func, reflect.Interface, reflect.UnsafePointer:
		return append(b, fmt.Sprint(v.Kind(), v.IsNil())...)
	}
	return append(b, fmt.Sprint(v)...)
}

// Fill gives every settable field a recognizable non-zero value.
func Fill(v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Ptr:
		if depth < 4 {
			v.Set(reflect.New(v.Type().Elem()))
			Fill(v.Elem(), depth+1)
		}
	case reflect.Struct:
		if v.Type().ConvertibleTo(timeT) {
			v.Set(reflect.ValueOf(time.Date(2001, 2, 3, 4, 5, 6, 0, time.UTC)).Convert(v.Type()))
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				Fill(v.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		if depth >= 4 {
			return
		}
		e := reflect.New(v.Type().Elem()).Elem()
		Fill(e, depth+1)
		v.Set(reflect.Append(reflect.MakeSlice(v.Type(), 0, 1), e))
	case reflect.String:
		v.SetString("held")
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(77)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(77)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(7.5)
	}
}
