package furigana

// Mapped into the package by "go test -overlay": replays the cases of a file
// on the functions which the package's own tests pin.

import (
	"encoding/json"
	"fmt"
	"os"
	"testing"

	kagome "github.com/ikawaha/kagome.ipadic/tokenizer"
)

type verifCases struct {
	Kana   [][]int    `json:"kana"`   // texts
	Merges [][]int    `json:"merges"` // offsets for each of them
	Sents  [][]int    `json:"sents"`  // sentences to take tokens from
	Picks  [][][2]int `json:"picks"`  // sequences of (sentence, token)
	Reuse  bool       `json:"reuse"`
}

func verifText(a []int) string {
	r := make([]rune, len(a))
	for i, c := range a {
		r[i] = rune(c)
	}
	return string(r)
}

func verifCodes(s string) []int {
	out := []int{}
	for _, r := range s {
		out = append(out, int(r))
	}
	return out
}

func verifGuard(out map[string]interface{}, fn func()) {
	defer func() {
		if e := recover(); e != nil {
			out["panic"] = fmt.Sprint(e)
		}
	}()
	fn()
}

func TestVerifReplay(t *testing.T) {
	b, err := os.ReadFile(os.Getenv("VERIF_IN"))
	if err != nil {
		t.Fatal(err)
	}
	var cs verifCases
	if err := json.Unmarshal(b, &cs); err != nil {
		t.Fatal(err)
	}
	f, err := os.Create(os.Getenv("VERIF_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	enc := json.NewEncoder(f)

	for i, k := range cs.Kana {
		w := verifText(k)
		out := map[string]interface{}{}
		verifGuard(out, func() {
			out["out"] = verifCodes(repeatKana(w))
			ms := [][]int{}
			for _, n := range cs.Merges[i] {
				ms = append(ms, verifCodes(mergeLongVowels(w, n)))
			}
			out["merges"] = ms
		})
		enc.Encode(out)
	}

	var sents [][]kagome.Token
	if len(cs.Sents) != 0 {
		k := kagome.New()
		for _, s := range cs.Sents {
			sents = append(sents, k.Tokenize(verifText(s)))
		}
	}
	for _, p := range cs.Picks {
		var ts []kagome.Token
		for _, x := range p {
			ts = append(ts, sents[x[0]][x[1]])
		}
		out := map[string]interface{}{}
		verifGuard(out, func() {
			tw := newTypewriter(ts)
			a := tw.Typewrite()
			out["out"] = verifCodes(a)
			out["again"] = tw.Typewrite() == a
		})
		enc.Encode(out)
	}
	enc.Encode(map[string]interface{}{"end": true})
}
