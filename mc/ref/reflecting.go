package ref

import (
	"reflect"
	"strconv"
	"time"

	"github.com/go-ini/ini"
)

// ModelReflector is implemented by test types that are StructReflectors: what
// they do to the model.
type ModelReflector interface{ ReflectModel(*Doc) error }

// Reflecting is the oracle for reflecting a struct into a document.
type Reflecting struct {
	D          *Doc
	NameMapper func(string) string
	// Peek returns the text that the library gave a key (the n-th of its
	// values). Any text is accepted that denotes the value of the field.
	Peek func(s *Sec, key string) []string

	Fails bool // an unsupported type, a value that contains itself, or a reflector that fails
	Free  bool // whether there is an error is not specified
	Odd   bool // a pointer to a pointer: what is written is not specified
	outer []interface{}
}

// Section reflects a struct (or a pointer to one) into a section; index is the
// index of the sections that its struct fields denote.
func (r *Reflecting) Section(s *Sec, v reflect.Value, index int) {
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		r.Fails = true
		return
	}
	if v.CanAddr() {
		p := v.Addr().Interface()
		for _, o := range r.outer {
			if o == p {
				r.Fails = true
				return
			}
		}
		r.outer = append(r.outer, p)
		defer func() { r.outer = r.outer[:len(r.outer)-1] }()
	}
	t := v.Type()
	for i := 0; i < t.NumField() && !r.Fails; i++ {
		sf, f := t.Field(i), v.Field(i)
		if sf.PkgPath != "" {
			continue
		}
		tag := ParseTag(sf, r.NameMapper)
		if tag.Skip || tag.OmitEmpty && empty(f) {
			continue
		}
		if _, ok := f.Interface().(ini.StructReflector); ok {
			if f.Kind() == reflect.Ptr && f.IsNil() {
				continue
			}
			if f.Interface().(ModelReflector).ReflectModel(r.D) != nil {
				r.Fails = true
			}
			continue
		}
		if tag.Name == "" {
			continue
		}
		is, ptr := IsStruct(sf.Type)
		switch {
		case is && tag.Extend && sf.Anonymous:
			to := s
			if tag.Raw != "" {
				if l := r.D.ByName(s.Name + r.D.O.ChildSectionDelimiter + tag.Raw); index < len(l) {
					to = l[index]
				}
			}
			r.Section(to, f, index)
		case is && ptr && f.IsNil():
		case is:
			var sec *Sec
			if l := r.D.ByName(tag.Name); index < len(l) {
				sec = l[index]
			} else {
				sec, _ = r.D.NewSection(tag.Name)
			}
			if sec.Comment == "" {
				sec.Comment = tag.Comment
			}
			r.Section(sec, f, index)
		case tag.NonUnique && sf.Type.Kind() == reflect.Slice:
			for j := 0; j < f.Len() && !r.Fails; j++ {
				if k := sf.Type.Elem().Kind(); k != reflect.Struct && k != reflect.Ptr {
					r.Fails = true
					return
				}
				sec, _ := r.D.NewSection(tag.Name)
				if sec.Comment == "" {
					sec.Comment = tag.Comment
				}
				r.Section(sec, f.Index(j), len(r.D.ByName(tag.Name))-1)
			}
		default:
			r.key(s, f, tag)
		}
	}
}

// Top reflects into a section as Section.ReflectFrom does.
func (r *Reflecting) Top(s *Sec, v reflect.Value) {
	if s.Name != s.D.foldSec(ini.DefaultSection) && r.D.O.AllowNonUniqueSections {
		r.D.Delete(s.Name)
		if v.Kind() == reflect.Slice {
			for i := 0; i < v.Len() && !r.Fails; i++ {
				sec, _ := r.D.NewSection(s.Name)
				r.Section(sec, v.Index(i), i)
			}
			return
		}
		s, _ = r.D.NewSection(s.Name)
	}
	r.Section(s, v.Elem(), 0)
}

func (r *Reflecting) key(s *Sec, f reflect.Value, tag FieldTag) {
	k := s.Own(tag.Name)
	if k == nil {
		k = &Key{S: s, Name: s.D.foldKey(tag.Name)}
		s.Keys = append(s.Keys, k)
	}
	if k.Comment == "" {
		k.Comment = tag.Comment
	}
	t := f.Type()
	k.Shadows = nil
	if t.Kind() == reflect.Ptr {
		r.Odd = r.Odd || t.Elem().Kind() == reflect.Ptr
		if f.IsNil() {
			k.Value = ""
			if _, ok := text(reflect.Zero(t.Elem())); !ok {
				r.Free = true
			}
			return
		}
		f = f.Elem()
	}
	seen := r.Peek(s, tag.Name)
	if f.Kind() != reflect.Slice {
		x, ok := text(f)
		if !ok {
			r.Fails = true
			return
		}
		k.Value = x
		if len(seen) > 0 {
			if c, ok, sup := scalar(f.Type(), seen[0]); ok && sup && same(c, f) {
				k.Value = seen[0]
			}
		}
		return
	}
	k.Value = ""
	var all []string
	for i := 0; i < f.Len(); i++ {
		x, ok := text(f.Index(i))
		if !ok || !listable(f.Type().Elem()) {
			r.Fails = true
			return
		}
		all = append(all, x)
	}
	if len(all) == 0 {
		if !listable(f.Type().Elem()) {
			r.Free = true
		}
		return
	}
	if tag.Shadow && s.D.O.AllowShadows {
		k.Value = all[0]
		for _, x := range all[1:] {
			_ = k.AddShadow(x)
		}
	} else {
		for i, x := range all {
			if i > 0 {
				k.Value += tag.Delim
			}
			k.Value += x
		}
	}
	// other texts that denote the same list
	alt := &Key{S: s, Name: k.Name}
	if len(seen) > 0 {
		alt.Value, alt.Shadows = seen[0], seen[1:]
	}
	got := reflect.New(f.Type()).Elem()
	m := &Mapping{D: s.D, Strict: true}
	m.list(alt, got, tag)
	if !m.Fails && !m.Free && f.Type().Elem().Kind() != reflect.String && same(got, f) {
		k.Value, k.Shadows = alt.Value, alt.Shadows
	}
}

func same(a, b reflect.Value) bool { return string(Dump(nil, a)) == string(Dump(nil, b)) }

func listable(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.String, reflect.Bool, reflect.Int, reflect.Int64, reflect.Uint, reflect.Uint64, reflect.Float64:
		return true
	}
	return t.Kind() == reflect.Struct && isTime(t)
}

// text renders a scalar.
func text(v reflect.Value) (string, bool) {
	switch v.Kind() {
	case reflect.String:
		return v.String(), true
	case reflect.Bool:
		if v.Bool() {
			return "true", true
		}
		return "false", true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatUint(v.Uint(), 10), true
	case reflect.Float32, reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'g', -1, 64), true
	case reflect.Struct:
		if isTime(v.Type()) {
			return v.Convert(timeT).Interface().(time.Time).Format(time.RFC3339), true
		}
	}
	return "", false
}

// empty is the documented emptiness of omitempty.
func empty(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Array, reflect.Map, reflect.Slice, reflect.String:
		return v.Len() == 0
	case reflect.Ptr, reflect.Interface:
		return v.IsNil()
	case reflect.Struct:
		return isTime(v.Type()) && v.Convert(timeT).Interface().(time.Time).IsZero()
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8,
		reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Float32, reflect.Float64:
		return v.IsZero() || v.Kind() >= reflect.Float32 && v.Kind() <= reflect.Float64 && v.Float() == 0
	}
	return false
}
