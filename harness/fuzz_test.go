package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"testing"

	"pgregory.net/rapid"
)

// The coverage-guided part of the thorough tier (see fuzz.go): the property's generator and its check, driven by go's
// fuzzing engine instead of rapid's random source.

// found saves a failing case
func found(p *Prop, spec any, err error) {
	js, _ := json.Marshal(spec)
	data, _ := json.Marshal(Violation{js, err.Error()})
	if dir := os.Getenv("VH_FUZZ_OUT"); dir != "" {
		_ = os.WriteFile(filepath.Join(dir, fmt.Sprintf("found-%09d-%016x.json", len(js), hashOf(js))), data, 0o644)
	}
}

func FuzzSpec(f *testing.F) {
	p := props[os.Getenv("VH_PROP")]
	r := rand.New(rand.NewSource(int64(len(os.Getenv("VH_PROP")))))
	for _, n := range []int{0, 64, 256, 1024, 1024, 4096, 4096, 8192, 8192, 16384} {
		b := make([]byte, n)
		_, _ = r.Read(b)
		f.Add(b)
	}
	f.Fuzz(rapid.MakeFuzz(func(t *rapid.T) {
		spec := p.draw(t)
		js, err := json.Marshal(spec)
		if err != nil || costOf(spec)*float64(len(js)+1000) > maxCost/30 {
			t.Skip("costly")
		}
		if err := safely(p, spec, &Rec{classes: map[string]int{}}); err != nil {
			found(p, spec, err)
			t.Fatal(err)
		}
	}))
}

// FuzzCode drives the code generators with documents that are nothing but what the engine comes up with
func FuzzCode(f *testing.F) {
	p := props[os.Getenv("VH_PROP")]
	for _, in := range []string{
		"<!DOCTYPE html><html lang=en><head><title>t</title></head><body><p a=1 a='2' hidden>x &amp; y<br/><script>y</script><!--z--></p></body></html>",
		"<svg viewBox='0'><style>a</style><![CDATA[x]]><path d=\"a&amp;\"/><text>t</text></svg>",
		"<!DOCTYPE html PUBLIC \"-//W3C//DTD XHTML 1.0 Strict//EN\" \"x\"><textarea>&lt;</textarea></p><unknown x-y:z=\"`\\\">",
	} {
		f.Add(in)
	}
	for _, in := range []string{"<!--zzz-->", "<p>x</p>", "<a b='c'>", "</a>", "<!x>", "<br/>", "&amp;", "<script>x</script>"} {
		f.Add(in)
	}
	f.Fuzz(func(t *testing.T, in string) {
		spec := &CodeSpec{SVG: p.ID == "A16", In: Str(in)}
		if err := safely(p, spec, &Rec{classes: map[string]int{}}); err != nil {
			found(p, spec, err)
			t.Fatal(err)
		}
	})
}
