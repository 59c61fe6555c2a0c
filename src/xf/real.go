package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	v "github.com/sonirico/visigoth"
	"github.com/sonirico/visigoth/zz_verif/model"
)

type Op = model.Op

// mini is a tokenizer of the harness: it keeps the scheduler's attention on the
// repository. Scenarios with Pipe "spanish" use the package's own pipeline.
type mini struct{}

func (mini) Tokenize(s string) []string { return strings.Fields(s) }

// picky is an index of the user's own: it takes no documents named void.
type picky struct{ v.Index }

func (p picky) Put(d v.DocRequest) v.Index {
	if d.ID() != "void" {
		p.Index.Put(d)
	}
	return p
}

func builder(pipe string) v.Builder {
	if pipe == "picky" {
		b := v.NewMemoryIndexBuilder(mini{})
		return func(name string) v.Index { return picky{b(name)} }
	}
	if pipe == "parts" {
		return v.NewMemoryIndexBuilder(v.NewTokenizationPipeline(
			withPredicates(v.NewCleanTokenizer, unicode.IsLetter, unicode.IsDigit, func(r rune) bool { return r == '_' || r == utf8.RuneError }),
			v.NewSpanishStemmer(false),
			v.NewLowerCaseTokenizer(),
		))
	}
	if pipe == "spanish" {
		return v.NewMemoryIndexBuilder(v.NewTokenizationPipeline(
			v.NewKeepAlphanumericTokenizer(),
			v.NewLowerCaseTokenizer(),
			v.NewStopWordsFilter(v.SpanishStopWords),
			v.NewSpanishStemmer(true),
		))
	}
	return v.NewMemoryIndexBuilder(mini{})
}

func withPredicates[F ~func(rune) bool](make func(...F) v.CleanTokenizer, fns ...func(rune) bool) v.Tokenizer {
	var l []F
	for _, f := range fns {
		l = append(l, F(f))
	}
	t := make(l...)
	return &t
}

// texts of every kind; document names end in T and the digit.
var texts = func() []string {
	var many strings.Builder
	for i := 0; i < 400; i++ {
		fmt.Fprintf(&many, " %s%c%s", []string{"cas", "niñ", "Cant", "RÁPID", "x"}[i%5], 'a'+rune(i%26), []string{"as", "amente", "ÁBAMOS", "es", "iendo", "o"}[i%6])
	}
	var all []string
	for i, t := range []string{
		strings.Repeat("Internacionalizadamente", 3) + " otorrinolaringólogo DESOXIRRIBONUCLEICOS electroencefalografistas " + strings.Repeat("AB", 40),
		"ÑANDÚES canción CIGÜEÑAS Ωμέγα İstanbul Straße " + strings.Repeat("ÁÉÍÓÚ", 12) + " " + strings.Repeat("ñ", 30) + " 字字 é",
		"3,14 2024-01-01 a1b2c3 x_y --- ¿qué? «casas» 1½ " + strings.Repeat("1234567890", 9),
		"\xff\xfe a\x00b ñ\xc3 \xed\xa0\x80 casa\xff " + strings.Repeat("\xfe", 50) + " Casa" + strings.Repeat("ñ\xff", 20),
		many.String(),
		strings.Repeat("el La LOS de un una para por con está Él ", 10),
		strings.Repeat("x", 3000) + " " + strings.Repeat("ramente", 60) + " " + strings.Repeat("Ñu", 150),
		"cantaríamos dámelo haciéndoselo rápidamente biologías uciones oyéndola comerse vergüenza averigüéis niños pingüinos amabilidad lentísimas quiero construyó",
	} {
		all = append(all, fmt.Sprintf("text%d %s", i, t))
	}
	return all
}()

func textOf(s string) (string, bool) {
	if n := len(s); n >= 2 && s[n-2] == 'T' && s[n-1] >= '0' && int(s[n-1]-'0') < len(texts) {
		return texts[s[n-1]-'0'], true
	}
	return "", false
}

func content(id string) string {
	if t, ok := textOf(id); ok {
		return "wort " + id + " satz " + t
	}
	if strings.HasSuffix(id, "L") {
		return "wort " + id + " satz" + longText
	}
	return "wort " + id + " satz"
}

// many words, some of them twice
var longText = func() string {
	var b strings.Builder
	for i := 0; i < 24; i++ {
		fmt.Fprintf(&b, " w%d", i%20)
	}
	return b.String() + " wort satz"
}()

// queries every document matches.
const query, query2 = "wort", "satz"

func queryOf(engine string) string {
	if strings.HasPrefix(engine, "T") {
		t, _ := textOf(engine[:2])
		return t
	}
	switch engine {
	case "miss":
		return "nothing"
	case "two", "hits":
		return query + " " + query2
	case "long", "longl":
		return strings.Repeat(query+" "+query2+" ", 9)
	}
	return query
}

func engine(name string) v.Engine {
	if strings.HasPrefix(name, "T") {
		name = name[2:]
	}
	switch name {
	case "hits", "long":
		return v.HitsSearch
	case "linear", "miss", "two", "longl":
		return v.LinearSearch
	case "none":
		return v.NoopZeroSearch
	}
	return v.NoopAllSearch
}

type stream interface {
	Next() bool
	Data() v.SearchResult
	Err() error
}

// rawRes is what a call returned, not looked at yet.
type rawRes struct {
	b    bool
	l    []string
	al   v.AliasesResult
	s    stream
	err  error
	text string
}

func do(r *v.IndexRepo, o Op) (x rawRes) {
	switch o.K {
	case "put":
		r.Put(o.A, v.NewDocRequest(idOf(o.D), content(o.D)))
	case "search":
		s, err := r.Search(o.A, queryOf(o.D), engine(o.D))
		x.err = err
		if s != nil {
			x.s = s
		}
	case "alias":
		x.b = r.Alias(o.A, o.B)
	case "unalias":
		x.b = r.UnAlias(o.A, o.B)
	case "rename":
		x.b = r.Rename(o.A, o.B)
	case "drop":
		x.b = r.Drop(o.A)
	case "has":
		x.b = r.Has(o.A)
	case "hasalias":
		x.b = r.HasAlias(o.A)
	case "list":
		x.l = r.List()
	case "listaliases":
		x.al = r.ListAliases()
	case "string":
		x.text = r.String()
	default:
		panic("unknown op " + o.K)
	}
	return
}

// idOf: documents named s#1, s#2 have the same identifier and different contents.
func idOf(name string) string {
	id, _, _ := strings.Cut(name, "#")
	return id
}

func docStr(d v.Doc) string {
	if f := strings.Fields(d.Raw()); len(f) > 1 && idOf(f[1]) == d.ID() && d.Raw() == content(f[1]) {
		return f[1]
	}
	return fmt.Sprintf("%s!%q", d.ID(), d.Raw())
}

// seqOf reads a stream to its end: documents in order, or an error.
func seqOf(s stream) ([]string, string) {
	var l []string
	for s.Next() {
		l = append(l, docStr(s.Data().Doc()))
		if len(l) > 10000000 {
			return nil, "endless"
		}
	}
	if err := s.Err(); err != nil {
		return nil, "streamerror"
	}
	return l, ""
}

// look uses everything a result offers.
func look(s stream) {
	for s.Next() {
		r := s.Data()
		_ = r.Document.Hash()
		_, _ = r.MarshalJSON()
		_ = docStr(r.Doc())
	}
}

func aliasStr(al v.AliasesResult) string {
	rows := make([]string, 0, len(al.Aliases))
	for _, r := range al.Aliases {
		rows = append(rows, fmt.Sprintf("%s=[%s]", r.Alias, model.Sorted(r.Indices)))
	}
	sort.Strings(rows)
	return strings.Join(rows, " ")
}

// render turns a result into the form of the model. For searches, seq is the
// exact sequence.
func render(o Op, x rawRes) (res, seq string) {
	switch o.K {
	case "put":
		return "", ""
	case "search":
		if x.err != nil {
			return "error", "error"
		}
		if x.s == nil {
			return "nil", "nil"
		}
		if *propF == "C04" {
			look(x.s)
			return "looked at", ""
		}
		l, e := seqOf(x.s)
		if e != "" {
			return e, e
		}
		return "[" + model.Sorted(l) + "]", strings.Join(l, " ")
	case "list":
		return "[" + model.Sorted(x.l) + "]", ""
	case "listaliases":
		return aliasStr(x.al), ""
	case "string":
		return "string", ""
	}
	if x.b {
		return "true", ""
	}
	return "false", ""
}

func call(r *v.IndexRepo, o Op) string {
	s, _ := render(o, do(r, o))
	return s
}

// facts observes everything the model's Facts describes.
func facts(r *v.IndexRepo, univ []string) map[string]string {
	f := map[string]string{}
	f["list"] = call(r, Op{K: "list"})
	f["aliases"] = call(r, Op{K: "listaliases"})
	for _, n := range univ {
		f["has:"+n] = call(r, Op{K: "has", A: n})
		f["hasalias:"+n] = call(r, Op{K: "hasalias", A: n})
		all := call(r, Op{K: "search", A: n, D: "all"})
		// every document contains the queried word
		if found := call(r, Op{K: "search", A: n, D: "hits"}); found != all {
			all += ", but searching for a word of all finds " + found
		}
		f["search:"+n] = all
	}
	return f
}

func diffFacts(want, got map[string]string) string {
	var d []string
	for k, w := range want {
		if !model.Match(w, got[k]) {
			d = append(d, fmt.Sprintf("%s: expected %s, observed %s", k, w, got[k]))
		}
	}
	sort.Strings(d)
	return strings.Join(d, "; ")
}

func factStr(f map[string]string) string {
	ks := make([]string, 0, len(f))
	for k := range f {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		b.WriteString(k)
		b.WriteByte('=')
		b.WriteString(f[k])
		b.WriteByte('\n')
	}
	return b.String()
}

// probe leaves no visible trace but needs every lock for writing: it blocks if
// a lock was leaked.
func probe(r *v.IndexRepo) string {
	const ix, al, ix2 = "probeindex", "probealias", "probeindex2"
	r.Put(ix, v.NewDocRequest("probe", content("probe")))
	r.Put(ix, v.NewDocRequest("probe2", content("probe2")))
	ok := r.Alias(al, ix)
	ok = r.HasAlias(al) && ok
	r.Put(al, v.NewDocRequest("probe3", content("probe3")))
	ok = call(r, Op{K: "search", A: al, D: "hits"}) == "[probe probe2 probe3]" && ok
	ok = r.Rename(ix, ix2) && ok
	ok = r.UnAlias(al, ix2) && ok
	ok = r.Alias(al, ix2) && ok
	ok = r.UnAlias(al, "") && ok
	ok = r.Drop(ix2) && ok
	_ = r.String()
	if !ok {
		return "a probe call on fresh names failed"
	}
	return ""
}

// univ collects the names of a history.
func univ(ops ...[]Op) []string {
	m := map[string]bool{}
	for _, l := range ops {
		for _, o := range l {
			if o.A != "" || o.K == "put" {
				m[o.A] = true
			}
			if o.B != "" {
				m[o.B] = true
			}
		}
	}
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
