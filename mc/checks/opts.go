package checks

import (
	"fmt"
	"strings"

	"github.com/go-ini/ini"

	"inimc/core"
)

// opt is one deviation from the default load options.
type opt struct {
	name string
	set  func(*ini.LoadOptions)
}

var (
	oInsens   = opt{"Insensitive", func(o *ini.LoadOptions) { o.Insensitive = true }}
	oInsSec   = opt{"InsensitiveSections", func(o *ini.LoadOptions) { o.InsensitiveSections = true }}
	oInsKey   = opt{"InsensitiveKeys", func(o *ini.LoadOptions) { o.InsensitiveKeys = true }}
	oIgnCont  = opt{"IgnoreContinuation", func(o *ini.LoadOptions) { o.IgnoreContinuation = true }}
	oIgnInl   = opt{"IgnoreInlineComment", func(o *ini.LoadOptions) { o.IgnoreInlineComment = true }}
	oSkip     = opt{"SkipUnrecognizableLines", func(o *ini.LoadOptions) { o.SkipUnrecognizableLines = true }}
	oBool     = opt{"AllowBooleanKeys", func(o *ini.LoadOptions) { o.AllowBooleanKeys = true }}
	oShadow   = opt{"AllowShadows", func(o *ini.LoadOptions) { o.AllowShadows = true }}
	oDup      = opt{"AllowDuplicateShadowValues", func(o *ini.LoadOptions) { o.AllowDuplicateShadowValues = true }}
	oNested   = opt{"AllowNestedValues", func(o *ini.LoadOptions) { o.AllowNestedValues = true }}
	oPython   = opt{"AllowPythonMultilineValues", func(o *ini.LoadOptions) { o.AllowPythonMultilineValues = true }}
	oSpace    = opt{"SpaceBeforeInlineComment", func(o *ini.LoadOptions) { o.SpaceBeforeInlineComment = true }}
	oUnescQ   = opt{"UnescapeValueDoubleQuotes", func(o *ini.LoadOptions) { o.UnescapeValueDoubleQuotes = true }}
	oUnescC   = opt{"UnescapeValueCommentSymbols", func(o *ini.LoadOptions) { o.UnescapeValueCommentSymbols = true }}
	oPreserve = opt{"PreserveSurroundedQuote", func(o *ini.LoadOptions) { o.PreserveSurroundedQuote = true }}
	oNonUniq  = opt{"AllowNonUniqueSections", func(o *ini.LoadOptions) { o.AllowNonUniqueSections = true }}
	oRawS     = opt{"UnparseableSections=[s]", func(o *ini.LoadOptions) { o.UnparseableSections = []string{"s"} }}
	oRaw      = opt{"UnparseableSections=[a,B]", func(o *ini.LoadOptions) { o.UnparseableSections = []string{"a", "B"} }}
	oDelimSp  = opt{"KeyValueDelimiters=\"=: \"", func(o *ini.LoadOptions) { o.KeyValueDelimiters = "=: " }}
	oDelimDsh = opt{"KeyValueDelimiters=\"?-\"", func(o *ini.LoadOptions) { o.KeyValueDelimiters = "?-" }}
	oDelimUni = opt{"KeyValueDelimiters=\"→=\"", func(o *ini.LoadOptions) { o.KeyValueDelimiters = "→=" }}
	oChild    = opt{"ChildSectionDelimiter=\"/\"", func(o *ini.LoadOptions) { o.ChildSectionDelimiter = "/" }}
	oDebug    = opt{"DebugFunc", func(o *ini.LoadOptions) { o.DebugFunc = func(string) {} }}
	oShort    = opt{"ShortCircuit", func(o *ini.LoadOptions) { o.ShortCircuit = true }}
	oLoose    = opt{"Loose", func(o *ini.LoadOptions) { o.Loose = true }}
	oBuf      = opt{"ReaderBufferSize=5000", func(o *ini.LoadOptions) { o.ReaderBufferSize = 5000 }}
)

// parseOpts are all options that influence how one source is read.
var parseOpts = []opt{oInsens, oInsSec, oInsKey, oIgnCont, oIgnInl, oSkip, oBool, oShadow, oDup, oNested, oPython,
	oSpace, oUnescQ, oUnescC, oPreserve, oNonUniq, oRaw, oDelimSp, oDelimDsh, oDelimUni}

// valueOpts influence the decoding of values.
var valueOpts = []opt{oIgnCont, oIgnInl, oSpace, oUnescQ, oUnescC, oPreserve, oPython}

type optSet struct {
	name string
	o    ini.LoadOptions
}

// optSets lists all option sets within dev deviations of the default.
func optSets(menu []opt, dev int) []optSet {
	var out []optSet
	for _, c := range core.Combos(len(menu), dev) {
		var s optSet
		var names []string
		for _, i := range c {
			menu[i].set(&s.o)
			names = append(names, menu[i].name)
		}
		s.name = "{" + strings.Join(names, ",") + "}"
		out = append(out, s)
	}
	return out
}

// with adds fixed options to every set.
func with(sets []optSet, fixed ...opt) []optSet {
	out := make([]optSet, len(sets))
	for i, s := range sets {
		names := []string{}
		for _, f := range fixed {
			f.set(&s.o)
			names = append(names, f.name)
		}
		s.name = "{" + strings.Join(names, ",") + "}+" + s.name
		out[i] = s
	}
	return out
}

// one builds a single option set.
func one(os ...opt) optSet {
	var s optSet
	var names []string
	for _, o := range os {
		o.set(&s.o)
		names = append(names, o.name)
	}
	s.name = "{" + strings.Join(names, ",") + "}"
	return s
}

func tier2(tier string, quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}

func q(b []byte) string { return fmt.Sprintf("%q", b) }
