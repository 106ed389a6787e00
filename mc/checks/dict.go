package checks

import "strings"

// dictWords are texts that a parser or an accessor could take for something
// special: keywords, empty collections, numbers, variables, paths, markup.
var dictWords = strings.Split(strings.Join([]string{
	"[]", "[ ]", "{}", "{ }", "()", "<>", "[[]]", "[a", "a]", "[a]", "]", "[", "]=[", "{", "}", "''", `""`, "``", `""""""`, "'a'", `"a"`, "`a`", `"a`, `a"`, "'a", "a'",
	"null", "NULL", "nil", "none", "None", "undefined", "~", "true", "True", "TRUE", "false", "yes", "no", "on", "off", "y", "n", "t", "f", "-", "--", "---", "-a", "+", "+a", "_", ".", "..", "...", ".a", "a.", "a.b", "a..b", "/", "//", "a/b", "*", "**", "?", "!", "!a", "@", "@a", "&", "&a", "&&", "|", "||", ">", ">>", "<<", "<<EOF", "EOF", "end", "END",
	"0", "1", "-1", "00", "007", "0x1F", "1e3", "1.0", "NaN", "inf", "1,2", "1, 2", ",", ",,", "a,", ",a", ";", ";;", ";a", "a;b", "a ;b", "#", "##", "#a", "a#b", "a #b", "#1", "#2", "#!", "%", "%%", "%a", "%a%", "%(", "%()", "%()s", "%(k)s", "%(k)", "(k)s", "$", "$a", "${a}", "$(a)", "$$", "^", "=", "==", ":", "::", ":=", "=:", "=>", "a=b", "a:b", "a = b", "a : b", "->", "→",
	"DEFAULT", "default", "Default", "[DEFAULT]", "include", "include a", "!include a", "extends", "import", "export a=b", "set", "unset", "section", "key", "ini",
	"http://a/b?c=d#e", "a@b.c", `C:\a`, `\`, `\\`, `a\`, `\n`, `\t`, `\"`, `\#`, `\;`, `\=`, `\[`, `\x41`, `\u0041`, "a b", " a", "a ", "\ta", "a\t", " ", "\t", "a\tb", "2000-01-01", "10:20", "5s", "1h", "1K", "10%", "é", "É", "日本", "ſ", "K", "İ", "ß", "\u200b", "\u00ad", "\u0000", "\u0001", "\u001b", "\u007f", "\u00a0", "\ufeff", "\ufffd", "\xff", "\x80", "😀",
}, "\x02"), "\x02")

// dictTemplates put two words (§ and ¤) into every place of a document.
var dictTemplates = []string{
	"k=§\nl=¤", "k = \"§\"; ¤\nl=1\n", "k='§' ¤\nl=1\n", "§=¤\nl=2\n", "§\n¤\nl=2\n", "[§]\nk=1\n[¤]\nk=2\n[§.c]\nl=3\n[§]\nm=¤\n", "[§] ¤\nk=1\n", "# §\nk=1 ;¤\n;§ ¤\n[s] # §\n",
	"a=¤\nk=§\n  n = ¤\n  ¤\nl=1\n", "k=\n  §\n  ¤\nl=1\n", "k=¤\n  §\n  y=¤\n\n  z\nl=1\n", "k=`§\n¤`§\nl=1\n", "k=\"\"\"§\n¤\"\"\" ¤\nl=1\n", "k=§\nk=¤\nk=§\nK=¤\n", "§:¤=§\n\"§\" = ¤\n`§`=¤\n",
	"[a]\n§\n¤ = 1\n\n[s]\n§=¤\n", "k=§\\\n¤\nl=1\n", "k=a \\\n  § \\\n¤", "-=§\n- = ¤\n§=1\n", "§", "§\r\n¤\r\n", " § ¤ ",
}

func fillDict(t, a, b string) string { return strings.NewReplacer("§", a, "¤", b).Replace(t) }

// dictDocs lists the templates with every word for § and, when paired, every
// word for ¤ as well, otherwise only some.
func dictDocs(paired bool) texts {
	second := dictWords
	if !paired {
		second = []string{"x", "", "§"}
	}
	nt, n2 := uint64(len(dictTemplates)), uint64(len(second))
	return texts{nt * n2 * uint64(len(dictWords)), func(g *genScratch, i uint64) []byte {
		a, b := dictWords[i/nt/n2], second[i/nt%n2]
		if b == "§" {
			b = a
		}
		g.buf = append(g.buf[:0], fillDict(dictTemplates[i%nt], a, b)...)
		return g.buf
	}}
}

// dict lists the words themselves.
func dict() texts {
	return texts{uint64(len(dictWords)), func(g *genScratch, i uint64) []byte {
		g.buf = append(g.buf[:0], dictWords[i]...)
		return g.buf
	}}
}
