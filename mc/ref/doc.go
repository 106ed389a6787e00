// Package ref is the reference model: a deliberately plain, list-based INI
// document with its parser and writer, written from the documented behaviour.
// It shares no code with the library (only the LoadOptions struct type).
package ref

import (
	"errors"
	"strings"

	"github.com/go-ini/ini"
)

// Key of the model.
type Key struct {
	S             *Sec
	Name, Value   string
	Comment       string
	Auto, Boolean bool
	Shadows       []string
	Nested        []string
	load          int // the load that assigned it
}

// Sec of the model.
type Sec struct {
	D       *Doc
	Name    string
	Comment string
	Keys    []*Key
	Raw     bool
	Body    string
	load    int // the load that wrote the body
}

// Doc of the model: an ordered list of sections.
type Doc struct {
	O    ini.LoadOptions
	Secs []*Sec

	load    int
	headers map[string]int // headers of a name read by this load (non-unique names)
}

// StartLoad begins a new load: what it reads replaces what earlier loads read.
func (d *Doc) StartLoad() {
	d.load++
	d.headers = map[string]int{}
}

// header returns the section of a header that the current load reads.
func (d *Doc) header(name string) (*Sec, error) {
	if name == "" || !d.O.AllowNonUniqueSections {
		return d.NewSection(name)
	}
	i := d.headers[d.foldSec(name)]
	d.headers[d.foldSec(name)]++
	if l := d.ByName(name); i < len(l) {
		return l[i], nil
	}
	return d.NewSection(name)
}

// assign gives a key a value read by the current load; fresh tells whether it
// is the first one of this load.
func (s *Sec) assign(name, val string) (k *Key, fresh bool, err error) {
	if k = s.Own(name); k != nil && k.load != s.D.load {
		k.load = s.D.load
		k.Value, k.Shadows, k.Nested, k.Boolean = val, nil, nil, false
		return k, true, nil
	}
	fresh = k == nil
	if k, err = s.NewKey(name, val); err == nil {
		k.load = s.D.load
	}
	return k, fresh, err
}

// New returns an empty document with normalized options.
func New(o ini.LoadOptions) *Doc {
	if o.KeyValueDelimiters == "" {
		o.KeyValueDelimiters = "=:"
	}
	if o.KeyValueDelimiterOnWrite == "" {
		o.KeyValueDelimiterOnWrite = "="
	}
	if o.ChildSectionDelimiter == "" {
		o.ChildSectionDelimiter = "."
	}
	d := &Doc{O: o}
	d.StartLoad()
	return d
}

func (d *Doc) foldSec(n string) string {
	if d.O.Insensitive || d.O.InsensitiveSections {
		return strings.ToLower(n)
	}
	return n
}

func (d *Doc) foldKey(n string) string {
	if d.O.Insensitive || d.O.InsensitiveKeys {
		return strings.ToLower(n)
	}
	return n
}

var errEmpty = errors.New("empty name")

// ByName lists the sections of a name.
func (d *Doc) ByName(name string) []*Sec {
	if name == "" {
		name = ini.DefaultSection
	}
	name = d.foldSec(name)
	var out []*Sec
	for _, s := range d.Secs {
		if s.Name == name {
			out = append(out, s)
		}
	}
	return out
}

// First returns the first section of a name, or nil.
func (d *Doc) First(name string) *Sec {
	if name == "" {
		name = ini.DefaultSection
	}
	name = d.foldSec(name)
	for _, s := range d.Secs {
		if s.Name == name {
			return s
		}
	}
	return nil
}

// NewSection creates, or returns the existing one unless names need not be unique.
func (d *Doc) NewSection(name string) (*Sec, error) {
	if name == "" {
		return nil, errEmpty
	}
	name = d.foldSec(name)
	if !d.O.AllowNonUniqueSections {
		if s := d.First(name); s != nil {
			return s, nil
		}
	}
	s := &Sec{D: d, Name: name}
	d.Secs = append(d.Secs, s)
	return s, nil
}

// Section gets or creates.
func (d *Doc) Section(name string) *Sec {
	if s := d.First(name); s != nil {
		return s
	}
	if name == "" {
		name = ini.DefaultSection
	}
	s, _ := d.NewSection(name)
	return s
}

// SectionWithIndex gets the index-th of a name or creates a new one.
func (d *Doc) SectionWithIndex(name string, i int) *Sec {
	l := d.ByName(name)
	if i < len(l) {
		return l[i]
	}
	s, _ := d.NewSection(name)
	return s
}

func (d *Doc) remove(s *Sec) {
	for i, x := range d.Secs {
		if x == s {
			d.Secs = append(append([]*Sec{}, d.Secs[:i]...), d.Secs[i+1:]...)
			return
		}
	}
}

// Delete removes all sections of a name.
func (d *Doc) Delete(name string) {
	for _, s := range d.ByName(name) {
		d.remove(s)
	}
}

// DeleteIndex removes the i-th section of a name.
func (d *Doc) DeleteIndex(name string, i int) error {
	if !d.O.AllowNonUniqueSections && i != 0 {
		return errors.New("index")
	}
	l := d.ByName(name)
	if i >= 0 && i < len(l) {
		d.remove(l[i])
	}
	return nil
}

// Own returns the section's own key.
func (s *Sec) Own(name string) *Key {
	name = s.D.foldKey(name)
	for _, k := range s.Keys {
		if k.Name == name {
			return k
		}
	}
	return nil
}

// Ancestors lists the existing ancestors, nearest first.
func (s *Sec) Ancestors() []*Sec {
	var out []*Sec
	n := s.Name
	for {
		i := strings.LastIndex(n, s.D.O.ChildSectionDelimiter)
		if i < 0 {
			return out
		}
		n = n[:i]
		if a := s.D.First(n); a != nil {
			out = append(out, a)
		}
	}
}

// Get looks a key up with inheritance.
func (s *Sec) Get(name string) *Key {
	if k := s.Own(name); k != nil {
		return k
	}
	for _, a := range s.Ancestors() {
		if k := a.Own(name); k != nil {
			return k
		}
	}
	return nil
}

// NewKey creates or assigns.
func (s *Sec) NewKey(name, val string) (*Key, error) {
	if name == "" {
		return nil, errEmpty
	}
	if k := s.Own(name); k != nil {
		if s.D.O.AllowShadows {
			return k, k.addShadow(val)
		}
		k.Value = val
		return k, nil
	}
	k := &Key{S: s, Name: s.D.foldKey(name), Value: val}
	s.Keys = append(s.Keys, k)
	return k, nil
}

// NewBool creates a boolean key.
func (s *Sec) NewBool(name string) (*Key, error) {
	k, err := s.NewKey(name, "true")
	if err != nil {
		return nil, err
	}
	k.Boolean = true
	return k, nil
}

// Key gets or creates.
func (s *Sec) Key(name string) *Key {
	if k := s.Get(name); k != nil {
		return k
	}
	if name == "" {
		return nil
	}
	k := &Key{S: s, Name: s.D.foldKey(name)}
	s.Keys = append(s.Keys, k)
	return k
}

// DeleteKey removes the section's own key.
func (s *Sec) DeleteKey(name string) {
	k := s.Own(name)
	for i, x := range s.Keys {
		if x == k {
			s.Keys = append(append([]*Key{}, s.Keys[:i]...), s.Keys[i+1:]...)
			return
		}
	}
}

// Children lists child sections in file order.
func (s *Sec) Children() []*Sec {
	var out []*Sec
	for _, x := range s.D.Secs {
		if strings.HasPrefix(x.Name, s.Name+s.D.O.ChildSectionDelimiter) {
			out = append(out, x)
		}
	}
	return out
}

func (k *Key) addShadow(v string) error {
	if k.Auto || k.Boolean {
		return errors.New("no shadow here")
	}
	if !k.S.D.O.AllowDuplicateShadowValues {
		if k.Value == v {
			return nil
		}
		for _, s := range k.Shadows {
			if s == v {
				return nil
			}
		}
	}
	k.Shadows = append(k.Shadows, v)
	return nil
}

// AddShadow by API.
func (k *Key) AddShadow(v string) error {
	if !k.S.D.O.AllowShadows {
		return errors.New("shadows not allowed")
	}
	return k.addShadow(v)
}

func (k *Key) addNested(v string) error {
	if k.Auto || k.Boolean {
		return errors.New("no nested value here")
	}
	k.Nested = append(k.Nested, v)
	return nil
}

// AddNested by API.
func (k *Key) AddNested(v string) error {
	if !k.S.D.O.AllowNestedValues {
		return errors.New("nested values not allowed")
	}
	return k.addNested(v)
}

// Values lists the non-empty value and shadows.
func (k *Key) Values() []string {
	out := []string{}
	for _, v := range append([]string{k.Value}, k.Shadows...) {
		if v != "" {
			out = append(out, v)
		}
	}
	return out
}
