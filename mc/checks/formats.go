package checks

import (
	"fmt"

	"inimc/ref"
)

type namedFormat struct {
	name string
	f    ref.Format
}

// formats lists every combination of the layout switches (custom spacing only matters without pretty modes).
func formats(all bool) []namedFormat {
	var out []namedFormat
	for m := 0; m < 16; m++ {
		f := ref.Format{PrettySection: m&1 == 0, PrettyFormat: m&2 == 0, PrettyEqual: m&4 != 0, DefaultHeader: m&8 != 0}
		if !all && m != 0 && m != 3 && m != 7 && m != 8 {
			continue
		}
		out = append(out, namedFormat{fmt.Sprintf("fmt%d", m), f})
	}
	f := ref.Format{Left: " ", Right: "  ", DefaultHeader: true}
	out = append(out, namedFormat{"fmt-spacing", f})
	out = append(out, namedFormat{"fmt-crlf", ref.Format{PrettySection: true, PrettyFormat: true, Break: "\r\n"}})
	if all {
		out = append(out, namedFormat{"fmt-crlf-compact", ref.Format{DefaultHeader: true, Break: "\r\n"}})
	}
	return out
}
