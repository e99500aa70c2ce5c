// The conformance driver: it executes requests against the real code of
// hangulize and reports what the code did. One JSON request per input line,
// one JSON response per output line, in order. It takes no decision: every
// verdict is made elsewhere, against the TLA+ specification.
//
// It is mapped into /repo by "go build -overlay" and uses exported API only.
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"
	"unicode/utf8"

	kagome "github.com/ikawaha/kagome.ipadic/tokenizer"
	"github.com/mattn/go-runewidth"
	goPinyin "github.com/mozillazg/go-pinyin"
	"golang.org/x/text/unicode/norm"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/pkg/hre"
	"github.com/hangulize/hangulize/pkg/hsl"
	"github.com/hangulize/hangulize/pkg/tracefmt"
	"github.com/hangulize/hangulize/translit"
	"github.com/hangulize/hangulize/translit/cyrillic"
	"github.com/hangulize/hangulize/translit/furigana"
	"github.com/hangulize/hangulize/translit/pinyin"
)

// txt is a text as an array of code points. Invalid bytes are reported as
// negative numbers, so nothing is lost.
type txt string

func (t txt) MarshalJSON() ([]byte, error) {
	var b bytes.Buffer
	b.WriteByte('[')
	s := string(t)
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		v := int(r)
		if r == utf8.RuneError && n == 1 {
			v = -2000 - int(s[i])
		}
		if b.Len() > 1 {
			b.WriteByte(',')
		}
		fmt.Fprintf(&b, "%d", v)
		i += n
	}
	b.WriteByte(']')
	return b.Bytes(), nil
}

func (t *txt) UnmarshalJSON(d []byte) error {
	var a []int
	if err := json.Unmarshal(d, &a); err != nil {
		return err
	}
	var b bytes.Buffer
	for _, v := range a {
		if v <= -2000 {
			b.WriteByte(byte(-v - 2000))
		} else {
			b.WriteRune(rune(v))
		}
	}
	*t = txt(b.String())
	return nil
}

func txts(ss []string) []txt {
	r := make([]txt, len(ss))
	for i, s := range ss {
		r[i] = txt(s)
	}
	return r
}

type M = map[string]interface{}

type trSpec struct {
	Scheme string `json:"scheme"`
	Kind   string `json:"kind"` // app, pre, rev, fail, failif, ident
	Arg    txt    `json:"arg"`
	Tag    string `json:"tag"`
}

type trCall struct {
	scheme, tag, in, out string
	failed               bool
}

type fakeTr struct {
	trSpec
	log  *[]trCall
	mu   *sync.Mutex
	slow bool
}

func (f *fakeTr) Scheme() string {
	if f.slow {
		// user code may take its time
		runtime.Gosched()
	}
	return f.trSpec.Scheme
}
func (f *fakeTr) Transliterate(w string) (string, error) {
	out, err := w, error(nil)
	switch f.Kind {
	case "app":
		out = w + string(f.Arg)
	case "pre":
		out = string(f.Arg) + w
	case "rev":
		rs := []rune(w)
		for i, j := 0, len(rs)-1; i < j; i, j = i+1, j-1 {
			rs[i], rs[j] = rs[j], rs[i]
		}
		out = string(rs)
	case "empty":
		out = ""
	case "fail":
		out, err = string(f.Arg), errors.New("boom")
	case "const":
		out = string(f.Arg)
	case "failmsg":
		out, err = "", errors.New(string(f.Arg))
	case "failif":
		if strings.Contains(w, string(f.Arg)) {
			out, err = "", errors.New("boom")
		}
	}
	if f.log != nil {
		f.mu.Lock()
		*f.log = append(*f.log, trCall{f.trSpec.Scheme, f.Tag, w, out, err != nil})
		f.mu.Unlock()
	}
	return out, err
}

type loggedTr struct {
	hangulize.Translit
	log *[]trCall
}

func (l loggedTr) Transliterate(w string) (string, error) {
	out, err := l.Translit.Transliterate(w)
	*l.log = append(*l.log, trCall{l.Scheme(), "", w, out, err != nil})
	return out, err
}

func errClass(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, hangulize.ErrSpecNotFound):
		return "notfound"
	case errors.Is(err, hangulize.ErrTranslitNotImported):
		return "notimported"
	case errors.Is(err, hangulize.ErrTranslit):
		return "translit"
	}
	return "other"
}

func errMsg(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

type req struct {
	ID       string      `json:"id"`
	Op       string      `json:"op"`
	Src      txt         `json:"src"`
	Lang     string      `json:"lang"`
	Via      string      `json:"via"`
	Words    []txt       `json:"words"`
	Events   bool        `json:"events"`
	Dump     bool        `json:"dump"`
	Std      bool        `json:"std"`
	NoRun    bool        `json:"norun"`
	Translit []trSpec    `json:"translits"`
	FailAt   int         `json:"failat"`
	ErrKind  string      `json:"errkind"`
	Chunk    int         `json:"chunk"`
	Mode     int         `json:"mode"`
	Expr     txt         `json:"expr"`
	RExpr    txt         `json:"rexpr"`
	Macros   [][2]txt    `json:"macros"`
	Vars     []varDef    `json:"vars"`
	N        int         `json:"n"`
	Ops      []histOp    `json:"ops"`
	Chars    []int       `json:"chars"`
	Traces   []traceDef  `json:"traces"`
	Scheme   string      `json:"scheme"`
	Threads  [][]histOp  `json:"threads"`
	Setup    []histOp    `json:"setup"`
	Rounds   int         `json:"rounds"`
	Names    []string    `json:"names"`
	Repeat   int         `json:"repeat"`
	Stir     []txt       `json:"stir"`
	Extra    interface{} `json:"extra"`
	Fmt      bool        `json:"fmt"`
}

type varDef struct {
	Name txt   `json:"name"`
	Vals []txt `json:"vals"`
}

type traceDef struct {
	Step string `json:"step"`
	Word txt    `json:"word"`
	Why  string `json:"why"`
	From txt    `json:"from"`
	To   txt    `json:"to"`
	Rule bool   `json:"rule"`
}

// faulty is a reader which yields chunks and fails at a position.
type faulty struct {
	data   []byte
	pos    int
	failAt int // -1: never
	chunk  int
	mode   int // 1: the end comes with the last bytes, 2: stalls at failAt
	err    error
}

var errReader = errors.New("reader failed")

// what a reader may fail with
var readerErrs = map[string]error{
	"": errReader, "unexpected": io.ErrUnexpectedEOF, "closed": os.ErrClosed, "timeout": os.ErrDeadlineExceeded,
	"pipe": io.ErrClosedPipe, "canceled": context.Canceled, "noprogress": io.ErrNoProgress, "eofish": errors.New("EOF"),
	"notexist": &os.PathError{Op: "read", Path: "x", Err: os.ErrNotExist}, "short": io.ErrShortBuffer,
}

func (f *faulty) Read(p []byte) (int, error) {
	end := len(f.data)
	if f.failAt >= 0 && f.failAt < end {
		end = f.failAt
	}
	if f.pos >= end {
		if f.mode == 2 && f.failAt >= 0 {
			return 0, nil
		}
		if f.failAt >= 0 && f.pos >= f.failAt {
			return 0, f.err
		}
		return 0, io.EOF
	}
	n := len(p)
	if f.chunk > 0 && n > f.chunk {
		n = f.chunk
	}
	if n > end-f.pos {
		n = end - f.pos
	}
	copy(p, f.data[f.pos:f.pos+n])
	f.pos += n
	if f.mode == 1 && f.pos >= end && n > 0 {
		if f.failAt >= 0 {
			return n, f.err
		}
		return n, io.EOF
	}
	return n, nil
}

func (r req) reader() io.Reader {
	if r.FailAt < 0 && r.Chunk == 0 && r.Mode == 0 {
		return strings.NewReader(string(r.Src))
	}
	return &faulty{data: []byte(r.Src), failAt: r.FailAt, chunk: r.Chunk, mode: r.Mode, err: readerErrs[r.ErrKind]}
}

// --- transcription ----------------------------------------------------------

func guard(out M, fn func()) {
	defer func() {
		if e := recover(); e != nil {
			out["panic"] = fmt.Sprint(e)
			out["stack"] = string(debug.Stack())
		}
	}()
	fn()
}

func evJSON(evs []hangulize.Trace) []M {
	r := make([]M, 0, len(evs))
	for _, e := range evs {
		m := M{"step": e.Step, "word": txt(e.Word), "why": e.Why, "rule": 0}
		if e.Rule != nil {
			m["rule"] = e.Rule.ID + 1
			m["from"] = txt(e.Rule.From.String())
			m["to"] = txt(e.Rule.To.String())
		}
		r = append(r, m)
	}
	return r
}

func callsJSON(cs []trCall) []M {
	r := make([]M, 0, len(cs))
	for _, c := range cs {
		r = append(r, M{"scheme": c.scheme, "tag": c.tag, "in": txt(c.in), "out": txt(c.out), "failed": c.failed})
	}
	return r
}

// wantFmt asks for the formatted traces as well.
var wantFmt bool

func runWord(h hangulize.Hangulizer, word string, events bool, log *[]trCall) M {
	out := M{}
	guard(out, func() {
		var evs []hangulize.Trace
		if events {
			h.Trace(func(t hangulize.Trace) { evs = append(evs, t) })
		}
		if log != nil {
			*log = nil
		}
		res, err := h.Hangulize(word)
		out["out"] = txt(res)
		out["err"] = errClass(err)
		out["msg"] = errMsg(err)
		if events {
			out["events"] = evJSON(evs)
			h.Trace(nil)
			if wantFmt {
				var b bytes.Buffer
				tracefmt.FprintTraces(&b, evs)
				out["fmt"] = txt(b.String())
			}
		}
		if log != nil {
			out["calls"] = callsJSON(*log)
		}
	})
	return out
}

func rulesJSON(rs []hangulize.Rule) []M {
	out := []M{}
	for _, r := range rs {
		out = append(out, M{"id": r.ID, "from": txt(r.From.String()), "to": txt(r.To.String())})
	}
	return out
}

func dictJSON(m map[string][]string) []M {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := []M{}
	for _, k := range ks {
		out = append(out, M{"key": txt(k), "vals": txts(m[k])})
	}
	return out
}

func specJSON(s *hangulize.Spec) M {
	mac := map[string][]string{}
	for k, v := range s.Macros {
		mac[k] = []string{v}
	}
	test := []M{}
	for _, t := range s.Test {
		test = append(test, M{"key": txt(t[0]), "vals": []txt{txt(t[1])}})
	}
	return M{
		"id": txt(s.Lang.ID), "code2": txt(s.Lang.Codes[0]), "code3": txt(s.Lang.Codes[1]),
		"english": txt(s.Lang.English), "korean": txt(s.Lang.Korean), "script": txt(s.Lang.Script),
		"translit": txts(s.Lang.Translit), "authors": txts(s.Config.Authors), "stage": txt(s.Config.Stage),
		"macros": dictJSON(mac), "vars": dictJSON(s.Vars), "normalize": dictJSON(s.Normalize),
		"rewrite": rulesJSON(s.Rewrite), "transcribe": rulesJSON(s.Transcribe), "test": test,
		"source": txt(s.Source),
	}
}

func opSpec(r req, out M) {
	spec, err := hangulize.ParseSpec(r.reader())
	out["perr"] = errMsg(err)
	out["rerr"] = errors.Is(err, errReader)
	if err != nil {
		out["nil"] = spec == nil
		return
	}
	if r.Dump {
		out["dump"] = specJSON(spec)
	}
	if r.Repeat > 0 {
		// The source of the spec, loaded again.
		again, err := hangulize.ParseSpec(strings.NewReader(spec.Source))
		if err != nil {
			out["again"] = err.Error()
		} else {
			a, b := []M{}, []M{}
			for _, w := range r.Words {
				a = append(a, runWord(hangulize.New(spec), string(w), true, nil))
				b = append(b, runWord(hangulize.New(again), string(w), true, nil))
			}
			if !reflect.DeepEqual(specJSON(spec), specJSON(again)) {
				out["again"] = "another spec"
			} else if !reflect.DeepEqual(a, b) {
				out["again"] = "another behaviour"
			}
		}
	}
	if r.NoRun {
		return
	}
	h := hangulize.New(spec)
	var log []trCall
	var mu sync.Mutex
	if r.Std {
		for _, t := range translit.Translits() {
			h.UseTranslit(loggedTr{t, &log})
		}
	}
	for _, t := range r.Translit {
		h.UseTranslit(&fakeTr{t, &log, &mu, false})
	}
	res := []M{}
	for _, w := range r.Words {
		res = append(res, runWord(h, string(w), r.Events, &log))
	}
	out["res"] = res
	if r.Dump {
		out["dump2"] = specJSON(spec)
	}
}

func opLang(r req, out M) {
	if r.Via == "pkg" {
		if r.Std {
			translit.Install()
		}
		res := []M{}
		for _, w := range r.Words {
			m := M{}
			guard(m, func() {
				o, err := hangulize.Hangulize(r.Lang, string(w))
				m["out"], m["err"], m["msg"] = txt(o), errClass(err), errMsg(err)
			})
			res = append(res, m)
		}
		out["res"] = res
		return
	}
	spec, err := hangulize.LoadSpec(r.Lang)
	out["perr"] = errClass(err)
	out["perrmsg"] = errMsg(err)
	if err != nil {
		return
	}
	if r.Dump {
		out["dump"] = specJSON(spec)
	}
	h := hangulize.New(spec)
	var log []trCall
	var mu sync.Mutex
	for _, t := range r.Translit {
		h.UseTranslit(&fakeTr{t, &log, &mu, false})
	}
	if r.Std {
		for _, t := range translit.Translits() {
			h.UseTranslit(loggedTr{t, &log})
		}
	}
	res := []M{}
	for _, w := range r.Words {
		res = append(res, runWord(h, string(w), r.Events, &log))
	}
	out["res"] = res
}

// --- HSL ---------------------------------------------------------------------

func opHSL(r req, out M) {
	h, err := hsl.Parse(r.reader())
	out["perr"] = errMsg(err)
	out["rerr"] = errors.Is(err, errReader)
	if err != nil {
		out["nil"] = h == nil
		return
	}
	secs := []M{}
	names := []string{}
	for n := range h {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		s := h[n]
		m := M{"name": txt(n), "line": s.Line()}
		pairs := []M{}
		for _, p := range s.Pairs() {
			pairs = append(pairs, M{"l": txt(p.Left()), "r": txts(p.Right()), "line": p.Line()})
		}
		switch d := s.(type) {
		case *hsl.DictSection:
			m["kind"] = "dict"
			sort.Slice(pairs, func(i, j int) bool { return pairs[i]["l"].(txt) < pairs[j]["l"].(txt) })
			m["map"] = dictJSON(d.Map())
			inj, ierr := d.Injective()
			m["injok"] = ierr == nil
			im := map[string][]string{}
			for k, v := range inj {
				im[k] = []string{v}
			}
			m["inj"] = dictJSON(im)
			acc := []M{}
			keys := append([]string{"", "nosuch"}, names...)
			for k := range d.Map() {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				acc = append(acc, M{"key": txt(k), "one": txt(d.One(k)), "all": txts(d.All(k))})
			}
			m["acc"] = acc
		case *hsl.ListSection:
			m["kind"] = "list"
		default:
			m["kind"] = "?"
		}
		m["pairs"] = pairs
		secs = append(secs, m)
	}
	out["secs"] = secs
}

// --- HRE ---------------------------------------------------------------------

func opHRE(r req, out M) {
	macros := map[string]string{}
	for _, m := range r.Macros {
		macros[string(m[0])] = string(m[1])
	}
	vars := map[string][]string{}
	for _, v := range r.Vars {
		vs := []string{}
		for _, x := range v.Vals {
			vs = append(vs, string(x))
		}
		vars[string(v.Name)] = vs
	}
	p, err := hre.NewPattern(string(r.Expr), macros, vars)
	out["perr"] = errMsg(err)
	if err != nil {
		out["nil"] = p == nil
		return
	}
	rp := hre.NewRPattern(string(r.RExpr), macros, vars)
	out["letters"] = txt(p.Letters())
	out["rletters"] = txt(rp.Letters())
	a, b := p.NegativeLookaroundWidths()
	out["wa"], out["wb"] = a, b
	res := []M{}
	for _, w := range r.Words {
		m := M{}
		guard(m, func() {
			word := string(w)
			ms := [][]int{}
			for _, f := range p.Find(word, r.N) {
				ms = append(ms, []int{utf8.RuneCountInString(word[:f[0]]) + 1, utf8.RuneCountInString(word[:f[1]]) + 1})
			}
			m["find"] = ms
			m["repl"] = txt(p.Replace(word, rp, r.N))
			m["rule"] = txt(hangulize.Rule{ID: 0, From: p, To: rp}.Replace(word))
		})
		res = append(res, m)
	}
	out["res"] = res
}

// --- facts --------------------------------------------------------------------

func opFacts(r req, out M) {
	sets := map[string][]int{}
	for _, k := range []string{"latn", "cyrl", "geor", "grek", "hira", "kata", "mark", "punct", "space", "letter", "digit", "han", "cntrl"} {
		sets[k] = []int{}
	}
	lower := [][2]int{}
	base := [][2]int{}
	for _, c := range r.Chars {
		ch := rune(c)
		add := func(k string, b bool) {
			if b {
				sets[k] = append(sets[k], c)
			}
		}
		add("latn", unicode.Is(unicode.Latin, ch))
		add("cyrl", unicode.Is(unicode.Cyrillic, ch))
		add("geor", unicode.Is(unicode.Georgian, ch))
		add("grek", unicode.Is(unicode.Greek, ch))
		add("hira", unicode.Is(unicode.Hiragana, ch))
		add("kata", unicode.Is(unicode.Katakana, ch))
		add("han", unicode.Is(unicode.Han, ch))
		add("mark", unicode.Is(unicode.Mark, ch))
		add("punct", unicode.IsPunct(ch))
		add("space", unicode.IsSpace(ch))
		add("letter", unicode.IsLetter(ch))
		add("digit", unicode.IsDigit(ch))
		if l := unicode.ToLower(ch); l != ch {
			lower = append(lower, [2]int{c, int(l)})
		}
		d := norm.NFD.PropertiesString(string(ch)).Decomposition()
		if len(d) != 0 {
			b, _ := utf8.DecodeRune(d)
			base = append(base, [2]int{c, int(b)})
		}
	}
	for k, v := range sets {
		out[k] = v
	}
	out["lower"] = lower
	out["base"] = base
}

// --- histories -----------------------------------------------------------------

// histOp is one call on the public, stateful API.
//
//	reg: "" the package-wide set, otherwise the name of an instance
type histOp struct {
	Op     string `json:"op"`
	Reg    string `json:"reg"`
	Scheme string `json:"scheme"`
	Tag    string `json:"tag"`
	Kind   string `json:"kind"`
	Arg    txt    `json:"arg"`
	Lang   string `json:"lang"`
	Word   txt    `json:"word"`
	Src    txt    `json:"src"`
	Snap   string `json:"snap"`
	Fn     string `json:"fn"`
}

type world struct {
	mu     sync.Mutex
	insts  map[string]hangulize.Hangulizer
	snaps  map[string]map[string]hangulize.Translit
	specs  map[*hangulize.Spec]int
	handed map[string]*hangulize.Spec
	parsed map[string]*hangulize.Spec
	evs    map[string][]hangulize.Trace
	log    []trCall
	logMu  sync.Mutex
	conc   bool
	quiet  bool // nothing is recorded
}

func newWorld() *world {
	return &world{insts: map[string]hangulize.Hangulizer{}, snaps: map[string]map[string]hangulize.Translit{},
		specs: map[*hangulize.Spec]int{}, handed: map[string]*hangulize.Spec{}, parsed: map[string]*hangulize.Spec{},
		evs: map[string][]hangulize.Trace{}}
}

func (w *world) specID(s *hangulize.Spec) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	if s == nil {
		return 0
	}
	if _, ok := w.specs[s]; !ok {
		w.specs[s] = len(w.specs) + 1
	}
	return w.specs[s]
}

func (w *world) inst(n string) hangulize.Hangulizer {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.insts[n]
}

var stdTags = func() map[hangulize.Translit]string {
	m := map[hangulize.Translit]string{}
	for _, t := range translit.Translits() {
		m[t] = "std"
	}
	return m
}()

func tagOf(t hangulize.Translit) string {
	if f, ok := t.(*fakeTr); ok {
		return f.Tag
	}
	if s, ok := stdTags[t]; ok {
		return s
	}
	return "?"
}

func setJSON(m map[string]hangulize.Translit) []M {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := []M{}
	for _, k := range ks {
		out = append(out, M{"scheme": k, "tag": tagOf(m[k]), "own": m[k].Scheme()})
	}
	return out
}

func (w *world) do(o histOp) M {
	out := M{}
	guard(out, func() {
		switch o.Op {
		case "new": // instance over a spec given in source or a bundled language
			var spec *hangulize.Spec
			var err error
			if o.Src == "" {
				spec, err = hangulize.LoadSpec(o.Lang)
			} else {
				spec, err = hangulize.ParseSpec(strings.NewReader(string(o.Src)))
			}
			if err != nil {
				out["err"] = errClass(err)
				return
			}
			w.mu.Lock()
			w.insts[o.Reg] = hangulize.New(spec)
			w.mu.Unlock()
			out["err"] = ""
		case "use":
			t := &fakeTr{trSpec{o.Scheme, o.Kind, o.Arg, o.Tag}, &w.log, &w.logMu, w.conc}
			if w.quiet {
				t.log = nil
			}
			if o.Reg == "" {
				out["ok"] = hangulize.UseTranslit(t)
			} else {
				out["ok"] = w.inst(o.Reg).UseTranslit(t)
			}
		case "unuse":
			if o.Reg == "" {
				out["ok"] = hangulize.UnuseTranslit(o.Scheme)
			} else {
				out["ok"] = w.inst(o.Reg).UnuseTranslit(o.Scheme)
			}
		case "install":
			if o.Reg == "" {
				out["ok"] = translit.Install()
			} else {
				out["ok"] = translit.Install(w.inst(o.Reg))
			}
		case "list", "snap":
			var m map[string]hangulize.Translit
			if o.Reg == "" {
				m = hangulize.Translits()
			} else {
				m = w.inst(o.Reg).Translits()
			}
			out["set"] = setJSON(m)
			if o.Op == "snap" {
				w.mu.Lock()
				w.snaps[o.Snap] = m
				w.mu.Unlock()
			}
		case "snapread":
			out["set"] = setJSON(w.snaps[o.Snap])
		case "snapadd":
			w.snaps[o.Snap][o.Scheme] = &fakeTr{trSpec{o.Scheme, o.Kind, o.Arg, o.Tag}, &w.log, &w.logMu, w.conc}
			out["ok"] = true
		case "snapdel":
			_, ok := w.snaps[o.Snap][o.Scheme]
			delete(w.snaps[o.Snap], o.Scheme)
			out["ok"] = ok
		case "run":
			w.logMu.Lock()
			w.log = nil
			w.logMu.Unlock()
			var res string
			var err error
			if o.Reg == "" {
				res, err = hangulize.Hangulize(o.Lang, string(o.Word))
			} else {
				res, err = w.inst(o.Reg).Hangulize(string(o.Word))
			}
			out["out"], out["err"], out["msg"] = txt(res), errClass(err), errMsg(err)
			w.logMu.Lock()
			out["calls"] = callsJSON(w.log)
			w.logMu.Unlock()
		case "load":
			s, err := hangulize.LoadSpec(o.Lang)
			out["err"] = errClass(err)
			out["spec"] = w.specID(s)
			out["lang"] = ""
			if s != nil {
				out["lang"] = s.Lang.ID
				w.mu.Lock()
				w.handed[o.Snap] = s
				w.mu.Unlock()
			}
		case "unload":
			hangulize.UnloadSpec(o.Lang)
			out["err"] = ""
		case "langs":
			out["langs"] = hangulize.ListLangs()
		case "langsmut": // changing the returned list must not matter
			l := hangulize.ListLangs()
			for i := range l {
				l[i] = "zzz"
			}
			out["ok"] = true
		case "runspec": // transcribe with a spec handed out earlier
			s := w.handed[o.Snap]
			if s == nil {
				out["err"] = "none"
				return
			}
			h := hangulize.New(s)
			translit.Install(h)
			res, err := h.Hangulize(string(o.Word))
			out["out"], out["err"] = txt(res), errClass(err)
		case "dumpspec":
			s := w.handed[o.Snap]
			if s == nil {
				out["err"] = "none"
				return
			}
			out["err"] = ""
			out["dump"] = specJSON(s)
		case "parse": // load a user's spec under a name
			s, err := hangulize.ParseSpec(strings.NewReader(string(o.Src)))
			out["err"] = errMsg(err)
			w.mu.Lock()
			w.parsed[o.Snap] = s
			w.mu.Unlock()
		case "inst": // instance over a parsed spec
			w.mu.Lock()
			w.insts[o.Reg] = hangulize.New(w.parsed[o.Snap])
			w.mu.Unlock()
			out["err"] = ""
		case "trace": // register a trace function which records under a name; "" removes
			h := w.inst(o.Reg)
			if o.Fn == "" {
				h.Trace(nil)
			} else {
				fn := o.Fn
				h.Trace(func(t hangulize.Trace) {
					w.mu.Lock()
					w.evs[fn] = append(w.evs[fn], t)
					w.mu.Unlock()
				})
			}
			out["ok"] = true
		case "runtr": // transcribe and report what every trace function saw
			w.mu.Lock()
			w.evs = map[string][]hangulize.Trace{}
			w.mu.Unlock()
			res, err := w.inst(o.Reg).Hangulize(string(o.Word))
			out["out"], out["err"] = txt(res), errClass(err)
			seen := []M{}
			ks := []string{}
			for k := range w.evs {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				seen = append(seen, M{"fn": k, "events": evJSON(w.evs[k])})
			}
			out["seen"] = seen
		case "tr": // a standard transliterator, directly
			t := stdTr(o.Scheme)
			res, err := t.Transliterate(string(o.Word))
			out["out"], out["err"] = txt(res), errMsg(err)
		case "specid":
			out["spec"] = w.specID(w.inst(o.Reg).Spec())
		default:
			out["bad"] = "unknown op " + o.Op
		}
	})
	return out
}

// reset brings the package-level state back to the beginning.
func reset() {
	for s := range hangulize.Translits() {
		hangulize.UnuseTranslit(s)
	}
	for _, l := range hangulize.ListLangs() {
		hangulize.UnloadSpec(l)
	}
}

func opHistory(r req, out M) {
	reset()
	w := newWorld()
	res := []M{}
	for _, o := range r.Ops {
		res = append(res, w.do(o))
	}
	out["res"] = res
	reset()
}

// opConc runs the threads' calls at the same time and reports every call with
// its logical start and end times (a global counter: a call that ended before
// another started has a smaller number).
func opConc(r req, out M) {
	rounds := []interface{}{}
	n := r.Rounds
	if n == 0 {
		n = 1
	}
	for k := 0; k < n; k++ {
		reset()
		w := newWorld()
		w.conc = true
		for _, o := range r.Setup {
			w.do(o)
		}
		var clock int64
		var wg sync.WaitGroup
		start := make(chan struct{})
		recs := make([][]M, len(r.Threads))
		for ti, ops := range r.Threads {
			wg.Add(1)
			go func(ti int, ops []histOp) {
				defer wg.Done()
				<-start
				for _, o := range ops {
					s := atomic.AddInt64(&clock, 1)
					res := w.do(o)
					e := atomic.AddInt64(&clock, 1)
					res["s"], res["e"] = s, e
					recs[ti] = append(recs[ti], res)
					if (ti+k)%3 == 0 {
						runtime.Gosched()
					}
				}
			}(ti, ops)
		}
		close(start)
		wg.Wait()
		rounds = append(rounds, recs)
	}
	out["rounds"] = rounds
	reset()
}

// opFree runs the threads' calls at the same time, each thread its calls over
// and over, without anything of the driver's in between: nothing is recorded
// but the different answers of each call, so nothing but the library itself
// orders the calls.
func opFree(r req, out M) {
	reset()
	w := newWorld()
	w.conc, w.quiet = true, true
	for _, o := range r.Setup {
		w.do(o)
	}
	type answer struct{ out, err string }
	calls := make([][]func() answer, len(r.Threads))
	for ti, ops := range r.Threads {
		for _, o := range ops {
			o := o
			var f func() (string, error)
			switch o.Op {
			case "run":
				if o.Reg == "" {
					f = func() (string, error) { return hangulize.Hangulize(o.Lang, string(o.Word)) }
				} else {
					h := w.insts[o.Reg]
					f = func() (string, error) { return h.Hangulize(string(o.Word)) }
				}
			case "tr":
				t := stdTr(o.Scheme)
				f = func() (string, error) { return t.Transliterate(string(o.Word)) }
			case "load":
				f = func() (string, error) {
					s, err := hangulize.LoadSpec(o.Lang)
					if err != nil {
						return "", err
					}
					return s.Lang.ID, nil
				}
			case "unload":
				f = func() (string, error) { hangulize.UnloadSpec(o.Lang); return "", nil }
			case "langs":
				f = func() (string, error) { return strings.Join(hangulize.ListLangs(), " "), nil }
			case "list":
				f = func() (string, error) { hangulize.Translits(); return "", nil }
			case "use":
				t := &fakeTr{trSpec{o.Scheme, o.Kind, o.Arg, o.Tag}, nil, &w.logMu, true}
				f = func() (string, error) { hangulize.UseTranslit(t); return "", nil }
			case "unuse":
				f = func() (string, error) { hangulize.UnuseTranslit(o.Scheme); return "", nil }
			case "parse":
				f = func() (string, error) {
					s, err := hangulize.ParseSpec(strings.NewReader(string(o.Src)))
					if err != nil {
						return "", err
					}
					return s.Lang.ID, nil
				}
			default:
				out["bad"] = "unknown op " + o.Op
				return
			}
			calls[ti] = append(calls[ti], func() (a answer) {
				defer func() {
					if p := recover(); p != nil {
						a = answer{"", fmt.Sprintf("panic: %v", p)}
					}
				}()
				s, err := f()
				return answer{s, errMsg(err)}
			})
		}
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	seen := make([][]map[answer]bool, len(calls))
	for ti := range calls {
		seen[ti] = make([]map[answer]bool, len(calls[ti]))
		for i := range seen[ti] {
			seen[ti][i] = map[answer]bool{}
		}
		wg.Add(1)
		go func(ti int) {
			defer wg.Done()
			<-start
			for k := 0; k < r.Rounds; k++ {
				for i, f := range calls[ti] {
					seen[ti][i][f()] = true
				}
			}
		}(ti)
	}
	close(start)
	wg.Wait()
	res := [][][][2]interface{}{}
	for ti := range seen {
		th := [][][2]interface{}{}
		for _, m := range seen[ti] {
			as := [][2]interface{}{}
			for a := range m {
				as = append(as, [2]interface{}{txt(a.out), a.err})
			}
			th = append(th, as)
		}
		res = append(res, th)
	}
	out["answers"] = res
	reset()
}

// --- transliterators --------------------------------------------------------------

func stdTr(scheme string) hangulize.Translit {
	for _, t := range translit.Translits() {
		if t.Scheme() == scheme {
			return t
		}
	}
	switch scheme {
	case "@bg":
		return cyrillic.Bulgaria
	case "@mk":
		return cyrillic.Macedonia
	case "@ru":
		return cyrillic.Russia
	case "@ua":
		return cyrillic.Ukraine
	case "@furigana":
		return furigana.T
	case "@pinyin":
		return pinyin.T
	}
	return nil
}

func opTranslit(r req, out M) {
	t := stdTr(r.Scheme)
	if t == nil {
		out["none"] = true
		return
	}
	out["scheme"] = t.Scheme()
	res := []M{}
	for _, w := range r.Words {
		m := M{}
		guard(m, func() {
			o, err := t.Transliterate(string(w))
			m["out"], m["err"] = txt(o), errMsg(err)
		})
		res = append(res, m)
	}
	out["res"] = res
}

// --- the dictionaries of others, asked directly ------------------------------------

// opTokens reports how the analyser cuts the words.
func opTokens(r req, out M) {
	k := kagome.New()
	res := [][]M{}
	for _, w := range r.Words {
		ts := []M{}
		for _, t := range k.Tokenize(string(w)) {
			fs := []txt{}
			for _, f := range t.Features() {
				fs = append(fs, txt(f))
			}
			ts = append(ts, M{"class": t.Class.String(), "surf": txt(t.Surface), "f": fs})
		}
		res = append(res, ts)
	}
	out["res"] = res
}

// opReadings reports the plain reading of each Chinese character.
func opReadings(r req, out M) {
	a := goPinyin.NewArgs()
	a.Style = goPinyin.Normal
	res := [][2]interface{}{}
	for _, c := range r.Chars {
		if p := goPinyin.SinglePinyin(rune(c), a); len(p) != 0 {
			res = append(res, [2]interface{}{c, txt(p[0])})
		}
	}
	out["res"] = res
}

// --- others -------------------------------------------------------------------------

func opTracefmt(r req, out M) {
	var ts []hangulize.Trace
	for _, t := range r.Traces {
		tr := hangulize.Trace{Step: t.Step, Word: string(t.Word), Why: t.Why}
		if t.Rule {
			p, err := hre.NewPattern(string(t.From), nil, nil)
			if err != nil {
				out["perr"] = err.Error()
				return
			}
			tr.Rule = &hangulize.Rule{ID: 0, From: p, To: hre.NewRPattern(string(t.To), nil, nil)}
		}
		ts = append(ts, tr)
	}
	var b bytes.Buffer
	guard(out, func() {
		tracefmt.FprintTraces(&b, ts)
	})
	out["text"] = txt(b.String())
	ws := []int{}
	for _, t := range ts {
		ws = append(ws, runewidth.StringWidth(t.Word))
	}
	out["widths"] = ws
}

func opLangs(r req, out M) {
	out["langs"] = hangulize.ListLangs()
	std := []string{}
	for _, t := range translit.Translits() {
		std = append(std, t.Scheme())
	}
	out["std"] = std
}

// opReload parses the same source several times and runs the words on each.
func opReload(r req, out M) {
	var first []M
	var firstDump M
	diff := []M{}
	for k := 0; k < r.Repeat; k++ {
		s, err := hangulize.ParseSpec(strings.NewReader(string(r.Src)))
		if err != nil {
			out["perr"] = err.Error()
			return
		}
		h := hangulize.New(s)
		for _, t := range r.Translit {
			h.UseTranslit(&fakeTr{t, nil, nil, false})
		}
		if r.Std {
			translit.Install(h)
		}
		d := specJSON(s)
		var cur []M
		// A different order of the words in every copy.
		res := make([]M, len(r.Words))
		// The later copies have other things to do before and meanwhile.
		if k > 0 {
			for i, w := range r.Stir {
				if k%2 == 1 || i%2 == k/2%2 {
					runWord(h, string(w), i%3 == 0, nil)
				}
			}
		}
		for i := range r.Words {
			if n := len(r.Stir); k > 0 && n > 0 && k%2 == 0 {
				runWord(h, string(r.Stir[(i*k+k)%n]), i%3 == 0, nil)
			}
			j := (i*(2*k+1) + k) % len(r.Words)
			if res[j] == nil {
				res[j] = runWord(h, string(r.Words[j]), true, nil)
			}
		}
		for i := range r.Words {
			if res[i] == nil {
				res[i] = runWord(h, string(r.Words[i]), true, nil)
			}
		}
		cur = res
		after := specJSON(s)
		if !reflect.DeepEqual(d, after) {
			diff = append(diff, M{"k": k, "what": "spec changed by running"})
		}
		if k == 0 {
			first, firstDump = cur, d
			continue
		}
		if !reflect.DeepEqual(d, firstDump) {
			diff = append(diff, M{"k": k, "what": "dump"})
		}
		for i := range cur {
			if !reflect.DeepEqual(cur[i], first[i]) {
				diff = append(diff, M{"k": k, "i": i, "a": first[i], "b": cur[i]})
			}
		}
	}
	out["res"] = first
	out["diff"] = diff
}

func handle(r req) M {
	out := M{"id": r.ID}
	wantFmt = r.Fmt
	guard(out, func() {
		switch r.Op {
		case "facts":
			opFacts(r, out)
		case "spec":
			opSpec(r, out)
		case "lang":
			opLang(r, out)
		case "hsl":
			opHSL(r, out)
		case "hre":
			opHRE(r, out)
		case "history":
			opHistory(r, out)
		case "free":
			opFree(r, out)
		case "conc":
			opConc(r, out)
		case "translit":
			opTranslit(r, out)
		case "nfc":
			out["res"] = []txt{}
			for _, w := range r.Words {
				out["res"] = append(out["res"].([]txt), txt(norm.NFC.String(string(w))))
			}
		case "tokens":
			opTokens(r, out)
		case "readings":
			opReadings(r, out)
		case "tracefmt":
			opTracefmt(r, out)
		case "langs":
			opLangs(r, out)
		case "reload":
			opReload(r, out)
		case "sleep": // for testing the harness itself
			time.Sleep(time.Hour)
		default:
			out["bad"] = "unknown op " + r.Op
		}
	})
	return out
}

func main() {
	_ = base64.StdEncoding
	limit := 60 * time.Second
	if s := os.Getenv("DRIVER_LIMIT_S"); s != "" {
		if d, err := time.ParseDuration(s + "s"); err == nil {
			limit = d
		}
	}
	debug.SetMaxStack(256 << 20)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	w := bufio.NewWriterSize(os.Stdout, 1<<20)
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	for {
		line, err := in.ReadBytes('\n')
		if len(bytes.TrimSpace(line)) > 0 {
			var r req
			r.FailAt, r.N = -1, -1
			if e := json.Unmarshal(line, &r); e != nil {
				fmt.Fprintln(os.Stderr, "bad request:", e)
				os.Exit(3)
			}
			done := make(chan M, 1)
			go func() { done <- handle(r) }()
			select {
			case m := <-done:
				if e := enc.Encode(m); e != nil {
					fmt.Fprintln(os.Stderr, "encode:", e)
					os.Exit(3)
				}
				w.Flush()
			case <-time.After(limit):
				_ = enc.Encode(M{"id": r.ID, "hang": true})
				w.Flush()
				os.Exit(4)
			}
		}
		if err != nil {
			return
		}
	}
}
