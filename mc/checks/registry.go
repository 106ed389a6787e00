// Package checks holds the exhaustive explorations, one Check per property.
package checks

import (
	"fmt"
	"strings"

	"github.com/go-ini/ini"

	"inimc/core"
	"inimc/ref"
)

var registry = map[string]*core.Check{}

// register records a check. Every space starts from the default settings unless
// it makes its own.
func register(c *core.Check) {
	spaces := c.Spaces
	c.Spaces = func(tier string) []core.Space {
		l := spaces(tier)
		for i := range l {
			if l[i].Setup == nil {
				l[i].Setup = ref.DefaultFormat.Apply
			}
		}
		for _, n := range renamedDefaults[c.ID] {
			names := []string{"s", "Main"}
			if n2, ok := strings.CutSuffix(n, "/Main"); ok {
				n, names = n2, names[1:]
			}
			found := false
			for _, sp := range l {
				if sp.Name == n {
					for _, d := range names {
						l = append(l, defaultNamed(d, sp))
					}
					found = true
					break
				}
			}
			if !found {
				panic("no space " + n + " of " + c.ID)
			}
		}
		return l
	}
	registry[c.ID] = c
}

// Get returns the check of a property, or nil.
func Get(id string) *core.Check { return registry[id] }

// renamedDefaults lists the spaces that are explored once more with other names
// of the default section, one of which the documents and operations use for
// sections of their own. (With "/Main", only that name: what follows deletes the
// section or reflects a slice into it.)
var renamedDefaults = map[string][]string{
	"C02": {"lines2", "dictionary"}, "C04": {"two-sources"}, "C06": {"several-sources"}, "C08": {"append-reload", "load-variants"},
	"C09": {"sections-core"}, "C10": {"keys-core"}, "C11": {"shapes", "inherit-ops"}, "C12": {"case-docs", "case-nonunique", "fold-sections"},
	"C13": {"noshadow-docs"}, "C14": {"graphs", "names"}, "C17": {`docs""-fmt0`, `build""-fmt0`}, "C18": {"sections-fmt0", `build""-fmt0/Main`},
	"C19": {"loaded-comments"}, "C20": {"shapes", "targets"}, "C21": {"shapes", "section-slices/Main"}, "C23": {"two-files"},
	"C24": {"raw-lines-opts"}, "C25": {"nonunique-core", "nonunique-docs", "nonunique-roundtrip"},
}

// defaultNamed is a space once more with another name of the default section.
func defaultNamed(name string, sp core.Space) core.Space {
	setup := sp.Setup
	if setup == nil {
		setup = ref.DefaultFormat.Apply
	}
	sp.Name += "-default-" + name
	sp.Note += fmt.Sprintf(", with the default section named %q", name)
	sp.Setup = func() {
		setup()
		ini.DefaultSection = name
	}
	return sp
}
