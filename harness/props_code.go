package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/svg"
	xhtml "golang.org/x/net/html"
	"pgregory.net/rapid"
)

// ---- A15, A16

// CodeSpec is a document given to GenerateCode
type CodeSpec struct {
	SVG    bool  `json:"svg,omitempty"`
	In     Str   `json:"in"`
	Chunks []int `json:"chunks,omitempty"` // sizes of what a Read returns, over and over (0: returns nothing)
	Ends   bool  `json:"ends,omitempty"`   // the last Read returns the error along with the data
	RFail  []int `json:"rfail,omitempty"`  // reading fails after this many bytes (modulo)
	WFail  []int `json:"wfail,omitempty"`  // this call of Write (modulo) fails
	WPart  int   `json:"wpart,omitempty"`  // how much of the data a failing Write takes
}

func generate(isSvg bool, r io.Reader, w io.Writer) error {
	if isSvg {
		return svg.GenerateCode(r, w)
	}
	return html.GenerateCode(r, w)
}

var codeVoid = map[string]bool{"area": true, "base": true, "br": true, "col": true, "embed": true, "hr": true, "img": true, "input": true, "link": true, "meta": true, "param": true, "source": true, "track": true, "wbr": true}

var boolNames, svgNames = func() (map[string]bool, [2]map[string]string) {
	b := map[string]bool{}
	s := [2]map[string]string{{}, {}}
	for _, h := range helpers {
		switch {
		case h.Pkg == "html" && h.Kind == "bool":
			b[h.Name] = true
		case h.Pkg == "svg" && (h.Kind == "elem" || h.Kind == "void"):
			s[0][strings.ToLower(h.Name)] = h.Name
		case h.Pkg == "svg" && h.Kind != "style":
			s[1][strings.ToLower(h.Name)] = h.Name
		}
	}
	return b, s
}()

// outline is what a document says: elements (nested as written, with whatever is left open closed), attributes (the
// first of repeated ones), text (adjacent text together), comments and doctype - but not text that's only whitespace
type outline struct {
	lines []string
	text  string
	open  []string
	stats map[string]int
	skip  bool // the document is one whose contents can't be compared
}

func (o *outline) line(kind, f string, a ...any) {
	o.flush()
	o.lines = append(o.lines, strings.Repeat(" ", len(o.open))+kind+" "+fmt.Sprintf(f, a...))
	o.stats[kind]++
}

func (o *outline) flush() {
	t := o.text
	o.text = ""
	if strings.Trim(t, " \n\t") != "" {
		o.line("text", "%q", t)
	}
}

func fullUnescape(s string) string {
	for i := 0; i < 20; i++ {
		u := xhtml.UnescapeString(s)
		if u == s {
			return s
		}
		s = u
	}
	return s
}

// rawNames are the names in a tag as they were written (with their case)
func rawNames(raw string) (name string, attrs []string) {
	const ws = " \n\r\t\f"
	i := 1
	start := i
	for i < len(raw) && !strings.ContainsRune(ws+"/>", rune(raw[i])) {
		i++
	}
	name = raw[start:i]
	for {
		for i < len(raw) && strings.ContainsRune(ws+"/", rune(raw[i])) {
			i++
		}
		if i >= len(raw) || raw[i] == '>' {
			return name, attrs
		}
		start = i
		i++
		for i < len(raw) && !strings.ContainsRune(ws+"/>=", rune(raw[i])) {
			i++
		}
		attrs = append(attrs, raw[start:i])
		for i < len(raw) && strings.ContainsRune(ws, rune(raw[i])) {
			i++
		}
		if i >= len(raw) || raw[i] != '=' {
			continue
		}
		i++
		for i < len(raw) && strings.ContainsRune(ws, rune(raw[i])) {
			i++
		}
		if i >= len(raw) || raw[i] == '>' {
			continue
		}
		if q := raw[i]; q == '"' || q == '\'' {
			i++
			for i < len(raw) && raw[i] != q {
				i++
			}
			i++
		} else {
			for i < len(raw) && !strings.ContainsRune(ws+">", rune(raw[i])) {
				i++
			}
		}
	}
}

// outlineOf reads a document; when it's rendered output the names are as written rather than as documented
func outlineOf(doc string, isSvg, rendered bool) *outline {
	o := &outline{stats: map[string]int{}}
	z := xhtml.NewTokenizer(strings.NewReader(doc))
	z.AllowCDATA(isSvg)
	in := ""
	var last, tt xhtml.TokenType
	for {
		last, tt = tt, z.Next()
		raw := string(z.Raw())
		tk := z.Token()
		was := in
		in = ""
		switch tt {
		case xhtml.ErrorToken:
			if rawText[was] {
				o.skip = true // ends within a raw text element that may be in any state
			}
			for len(o.open) > 0 {
				o.flush()
				o.open = o.open[:len(o.open)-1]
			}
			o.flush()
			return o
		case xhtml.TextToken:
			s := newlines.Replace(tk.Data)
			if rendered && last == xhtml.DoctypeToken {
				s = strings.TrimPrefix(s, "\n") // written after a doctype
			}
			if strings.Trim(s, " \n\t") != "" {
				o.text += strings.ReplaceAll(s, "\x00", "")
				if rawText[was] {
					o.stats["rawtext"]++
				}
			}
			in = was
		case xhtml.CommentToken:
			if isSvg && strings.HasPrefix(tk.Data, "?") {
				o.flush()
				continue
			}
			o.line("comment", "%q", strings.ReplaceAll(fullUnescape(newlines.Replace(tk.Data)), "\x00", "\uFFFD"))
		case xhtml.DoctypeToken:
			if !isSvg {
				o.line("doctype", "%q", strings.TrimSpace(fullUnescape(strings.ReplaceAll(tk.Data, "\x00", ""))))
			}
		case xhtml.EndTagToken:
			for at := len(o.open) - 1; at >= 0; at-- {
				if o.open[at] == tk.Data {
					o.flush()
					if at < len(o.open)-1 {
						o.stats["omitted end tag"]++
					}
					o.open = o.open[:at]
					break
				} else if at == 0 {
					o.stats["stray end tag"]++
				}
			}
		case xhtml.StartTagToken, xhtml.SelfClosingTagToken:
			if tk.Data == "plaintext" {
				o.skip = true
			}
			name := tk.Data
			var keys []string
			if isSvg {
				if rendered {
					name, keys = rawNames(raw)
					if strings.ToLower(name) != tk.Data && isASCII(name) || len(keys) != len(tk.Attr) {
						o.line("broken", "%q", raw)
						continue
					}
				} else if n, ok := svgNames[0][name]; ok {
					name = n
				}
			}
			seen := map[string]bool{}
			var attrs []string
			for i, a := range tk.Attr {
				if seen[a.Key] {
					o.stats["repeated attribute"]++
					if rendered {
						attrs = append(attrs, "repeated "+a.Key)
					}
					continue
				}
				seen[a.Key] = true
				if strings.HasPrefix(a.Key, "=") {
					o.skip = true // whether that's a name depends on what's before it
				}
				k, v := a.Key, strings.ReplaceAll(newlines.Replace(a.Val), "\x00", "")
				if isSvg {
					if rendered {
						k = keys[i]
					} else if n, ok := svgNames[1][k]; ok {
						k = n
					}
				} else if boolNames[k] && strings.EqualFold(k, v) {
					v = ""
				}
				attrs = append(attrs, fmt.Sprintf("%q=%q", k, v))
			}
			o.line("elem", "%q %s", name, strings.Join(attrs, " "))
			if len(attrs) > 0 {
				o.stats["attrs"]++
			}
			selfClosing := tt == xhtml.SelfClosingTagToken
			if selfClosing {
				o.stats["self-closing"]++
			}
			if isSvg {
				z.NextIsNotRawText()
				if selfClosing || codeVoid[tk.Data] {
					continue
				}
			} else {
				unparsed := rawText[tk.Data] || tk.Data == "textarea" || tk.Data == "title"
				if selfClosing && !unparsed || codeVoid[tk.Data] {
					continue
				}
				in = tk.Data
			}
			o.open = append(o.open, tk.Data)
		}
	}
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// readErrs are what reading fails with
var readErrs = []error{errors.New("read failed"), io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer}

type chunkReader struct {
	data   string
	pos    int
	chunks []int
	n      int
	err    error
	ends   bool
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if r.pos >= len(r.data) {
		return 0, r.err
	}
	n := len(p)
	if len(r.chunks) > 0 {
		if c := r.chunks[r.n%len(r.chunks)]; c < n {
			n = c
		}
		r.n++
	}
	n = copy(p[:n], r.data[r.pos:])
	r.pos += n
	if r.ends && r.pos == len(r.data) {
		return n, r.err
	}
	return n, nil
}

type codeWriter struct {
	buf    bytes.Buffer
	calls  int
	failAt int
	err    error
	part   int
	after  int
}

func (w *codeWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.failAt > 0 && w.calls == w.failAt {
		n := w.part
		if n > len(p) {
			n = len(p)
		}
		w.buf.Write(p[:n])
		return n, w.err
	}
	if w.failAt > 0 && w.calls > w.failAt {
		w.after++
	}
	return w.buf.Write(p)
}

func checkCode(s *CodeSpec, r *Rec) error {
	in := string(s.In)
	w := &codeWriter{}
	if err := generate(s.SVG, strings.NewReader(in), w); err != nil {
		return fmt.Errorf("GenerateCode of %q: %v", clip(in), err)
	}
	code := w.buf.String()
	used := map[string]bool{}
	node, err := evalCode(code, used)
	if err != nil {
		return fmt.Errorf("%v\ninput: %q\ncode: %s", err, clip(in), clip(code))
	}
	var out bytes.Buffer
	ctx := context.New(&out, nil, nil)
	if err = node.Render(ctx); err != nil {
		return fmt.Errorf("rendering generated code: %v\ninput: %q\ncode: %s", err, clip(in), clip(code))
	}
	want, got := outlineOf(in, s.SVG, false), outlineOf(out.String(), s.SVG, true)
	if !want.skip {
		for i := 0; i < len(want.lines) || i < len(got.lines); i++ {
			var a, b string
			if i < len(want.lines) {
				a = want.lines[i]
			}
			if i < len(got.lines) {
				b = got.lines[i]
			}
			if a != b {
				return fmt.Errorf("differs at %d\ninput has:  %s\noutput has: %s\ninput: %q\ncode: %s\noutput: %q", i, clip(a), clip(b), clip(in), clip(code), clip(out.String()))
			}
		}
		if got.stats["stray end tag"] > 0 || got.stats["omitted end tag"] > 0 {
			return fmt.Errorf("output is unbalanced\ninput: %q\noutput: %q", clip(in), clip(out.String()))
		}
	} else {
		r.Class("contents not compared")
	}
	r.Classes(want.stats)
	// the result doesn't depend on how the input is read
	r.Evals(1)
	w2 := &codeWriter{}
	if err = generate(s.SVG, &chunkReader{data: in, chunks: s.Chunks, ends: s.Ends, err: io.EOF}, w2); err != nil {
		return fmt.Errorf("GenerateCode of %q read in pieces: %v", clip(in), err)
	}
	if w2.buf.String() != code {
		return fmt.Errorf("reading %q again (in pieces of %v) gives different code:\n%s\n%s", clip(in), s.Chunks, clip(code), clip(w2.buf.String()))
	}
	if len(s.Chunks) > 0 || s.Ends {
		r.Class("read in pieces")
	}
	for _, f := range s.RFail {
		r.Evals(1)
		at, errRead := f%(len(in)+1), readErrs[f%len(readErrs)]
		w2 := &codeWriter{}
		err = generate(s.SVG, &chunkReader{data: in[:at], chunks: s.Chunks, ends: s.Ends, err: errRead}, w2)
		if !isErr(err, errRead) {
			return fmt.Errorf("reading fails (%v) after %d bytes of %q but GenerateCode returns %v", errRead, at, clip(in), err)
		}
		r.Class("read error")
	}
	for _, f := range s.WFail {
		r.Evals(1)
		w2 := &codeWriter{failAt: 1 + f%w.calls, part: s.WPart, err: plannedErr(f/3%errKinds, f, "write failed")}
		err = generate(s.SVG, strings.NewReader(in), w2)
		if !isErr(err, w2.err) {
			return fmt.Errorf("write %d of %d fails but GenerateCode returns %v instead of %v\ninput: %q", w2.failAt, w.calls, err, w2.err, clip(in))
		}
		if w2.after > 0 {
			return fmt.Errorf("%d writes after the write that failed (%d)\ninput: %q", w2.after, w2.failAt, clip(in))
		}
		if !strings.HasPrefix(code, w2.buf.String()) {
			return fmt.Errorf("what was written before write %d failed isn't how the code starts\ninput: %q\n%s", w2.failAt, clip(in), clip(w2.buf.String()))
		}
		r.Class("write error")
	}
	r.Sample(clip(code))
	r.NonTrivial(want.stats["elem"] >= 2 && (want.stats["attrs"] > 0 || want.stats["text"] > 0))
	return nil
}

// ---- generation of documents

type docGen struct {
	*gen
	svg  bool
	b    strings.Builder
	open []string
}

var (
	htmlElemNames, htmlAttrNames, svgElemNames, svgAttrNames = func() (he, ha, se, sa []string) {
		for _, h := range helpers {
			isElem := h.Kind == "elem" || h.Kind == "void"
			switch {
			case h.Pkg == "html" && isElem:
				he = append(he, h.Name)
			case h.Pkg == "html" && h.Kind != "style":
				ha = append(ha, h.Name)
			case h.Pkg == "svg" && isElem:
				se = append(se, h.Name)
			case h.Pkg == "svg" && h.Kind != "style":
				sa = append(sa, h.Name)
			}
		}
		return
	}()
	oddElems  = []string{"my-el", "unknown", "x:y", "a.b", "a_b", "track", "noembed", "noframes", "xmp", "math", "svg", "a\"b", "a'b", "a`b", "a\\n", "a<b", "a=b", "a&b", "a\x00b", "é", "aé", "K", "x\x80", "a%s", "a,b", "a)b", "template", "plaintexty", "image", "frame", "listing"}
	oddAttrs  = []string{"data-x", "aria-zz", "@click", ":bind", "v-on:x.y", "(click)", "[x]", "*ngIf", "#ref", "x\"y", "x'y", "x<y", "x`y", "x\\y", "x\x00y", "é", "xé", "_x", "1x", "=x", "x&y", "xmlns", "xmlns:xlink", "a.b", "x%d", "x,y", "x)y", "K", "x\x80"}
	textBits  = []string{"a", "Hello, World!", "x < y", "a & b", "&amp;", "&lt;b&gt;", "&#34;", "&nbsp;", "&copy", "&#x41;", "&#0;", "&bogus;", "\"quoted\"", "'", "`", "\\", "\\n", "\n", "\r", "\r\n", "\t", "\f", "\v", " ", "  ", "\x00", "\x01", "\x7f", "é", "日本", "\u2028", "\ufeff", "\U0001F600", "\xff", "\xc3", "%s", "%", "{{.}}", "//", "/*", "*/", ")", ",", "),\n", "${x}", "<", ">", "</", "<!", "]]>", "--", "-->", "&", ";", "="}
	rawBits   = []string{"var a = 1 < 2 && b > 3;", "\"</p>\"", "'", "`t ${x}`", "&amp;", "&lt;", "&", "<", "<!--", "-->", "</", "</scr", "<b>x</b>", "a{b:c>d}", "\n", "\\", "\r\n", "é", "\xff", "<![CDATA[", "]]>", "  ", "x", "<script", "//", "\x00", "/*", "*/"}
	quoteVals = []string{"", "a", "x y", "a;b", "a; b;", ";", " ", "  ", "a ", " a", "a,b", "1", "true", "false", "no", "\"", "'", "&quot;", "&lt;", "&amp;amp;", "&#10;", "\n", "\t", "<b>", "é", "\\", "`", "%s", "a\x00b", "\xff", "color:red", "color:red;", "a\r\nb", "&nbsp;", ">", "a  b", "a;;b", "b a b"}
)

func (d *docGen) casing(s string) string {
	switch d.uni(12) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	case 2:
		b := []byte(s)
		for i := range b {
			if d.bool() && b[i] >= 'a' && b[i] <= 'z' {
				b[i] -= 32
			}
		}
		return string(b)
	}
	return s
}

func (d *docGen) ws() string {
	return pick(d.gen, []string{" ", " ", " ", "\n", "\t", "  ", "\f", "\r\n", "/", " / "})
}

func (d *docGen) bits(list []string, max int) string {
	var b strings.Builder
	for i := d.uni(max) + 1; i > 0; i-- {
		b.WriteString(pick(d.gen, list))
	}
	return b.String()
}

func (d *docGen) name() string {
	elems, other := htmlElemNames, svgElemNames
	if d.svg {
		elems, other = other, elems
	}
	switch d.uni(16) {
	case 0, 1:
		return pick(d.gen, oddElems)
	case 2:
		return pick(d.gen, other)
	case 3, 4:
		return pick(d.gen, []string{"script", "style", "title", "textarea", "iframe", "noscript", "div", "p", "br", "img"})
	}
	return pick(d.gen, elems)
}

func (d *docGen) attr() {
	attrs, other := htmlAttrNames, svgAttrNames
	if d.svg {
		attrs, other = other, attrs
	}
	var k string
	switch d.uni(12) {
	case 0, 1:
		k = pick(d.gen, oddAttrs)
	case 2:
		k = pick(d.gen, other)
	case 3:
		k = pick(d.gen, []string{"class", "style", "id", "disabled", "hidden", "spellcheck", "translate", "accept"})
	default:
		k = pick(d.gen, attrs)
	}
	d.b.WriteString(d.casing(k))
	v := ""
	switch d.uni(8) {
	case 0, 1:
		return
	case 2:
		v = d.casing(k)
	case 3:
		v = d.bits(textBits, 3)
	default:
		v = pick(d.gen, quoteVals)
	}
	d.b.WriteString(pick(d.gen, []string{"=", "=", "=", "=", " =", "= ", " = "}))
	switch d.uni(6) {
	case 0:
		d.b.WriteString("'" + strings.ReplaceAll(v, "'", "") + "'")
	case 1:
		d.b.WriteString(v)
	default:
		d.b.WriteString("\"" + strings.ReplaceAll(v, "\"", "&quot;") + "\"")
	}
}

func (d *docGen) tag() {
	name := d.name()
	d.b.WriteString("<" + d.casing(name))
	for i := []int{0, 0, 1, 1, 2, 3, 5, 0}[d.uni(8)]; i > 0; i-- {
		d.b.WriteString(d.ws())
		d.attr()
	}
	switch d.uni(12) {
	case 0, 1, 2:
		d.b.WriteString(pick(d.gen, []string{"/>", " />", "/ >"}))
		return
	case 3:
		d.b.WriteString(d.ws())
	}
	d.b.WriteString(">")
	low := strings.ToLower(name)
	if rawText[low] || low == "textarea" || low == "title" {
		if !d.svg || d.p(8) {
			d.b.WriteString(d.bits(rawBits, 4))
		}
		if d.p(14) {
			d.b.WriteString("</" + d.casing(name) + pick(d.gen, []string{">", ">", ">", " >", " x>", "/>", "", "<"}))
			return
		}
	}
	if !codeVoid[low] || d.p(2) {
		d.open = append(d.open, name)
	}
}

func (d *docGen) step() {
	switch d.uni(20) {
	case 0, 1, 2, 3, 4, 5, 6:
		d.tag()
	case 7, 8, 9, 10:
		d.b.WriteString(d.bits(textBits, 4))
	case 11, 12, 13, 14, 15:
		if n := len(d.open); n > 0 {
			at := n - 1
			if d.p(2) {
				at = d.uni(n)
			}
			d.b.WriteString("</" + d.casing(d.open[at]) + pick(d.gen, []string{">", ">", ">", ">", " >", " a=b>", "/>"}))
			d.open = d.open[:at]
		} else {
			d.tag()
		}
	case 16:
		d.b.WriteString("</" + d.name() + ">")
	case 17:
		d.b.WriteString(pick(d.gen, []string{"<!--", "<!--", "<!--", "<!", "<?", "</ "}) + d.bits(textBits, 3) + pick(d.gen, []string{"-->", "-->", "-->", "--!>", ">", "->"}))
	case 18:
		if d.p(4) || d.svg {
			d.b.WriteString("<![CDATA[" + d.bits(textBits, 3) + pick(d.gen, []string{"]]>", "]]>", "]]", ">"}))
		} else {
			d.b.WriteString(pick(d.gen, []string{"<!DOCTYPE html>", "<!doctype html>", "<!DOCTYPE html PUBLIC \"-//W3C//DTD XHTML 1.0 Strict//EN\" \"http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd\">", "<!DOCTYPE>", "<!DOCTYPE html SYSTEM 'a&b'>", "<!DOCTYPE  \"x\\ny\" >", "<!doctype html a&lt;b&gt;c>"}))
		}
	case 19:
		d.b.WriteString(pick(d.gen, []string{"<?xml version=\"1.0\"?>", "\n  ", "\n\t", " ", "<", "&", "<>", "</>", "<1>", "< a>", "<a", "<a b", "<a b=", "<a b='", strings.Repeat("x", 4095), strings.Repeat("é ", 3000)}))
	}
}

// damage changes the document at random places
func (d *docGen) damage(s string) string {
	b := []byte(s)
	for i := d.uni(4); i > 0 && len(b) > 0; i-- {
		at := rapid.IntRange(0, len(b)-1).Draw(d.t, "at")
		switch d.uni(4) {
		case 0:
			b = b[:at]
		case 1:
			b[at] = pick(d.gen, []byte("<>/=\"'!-&;\x00 \n\\`a\xff?]["))
		case 2:
			n := at + d.uni(8)
			if n > len(b) {
				n = len(b)
			}
			b = append(b[:at:at], b[n:]...)
		case 3:
			b = append(b[:at:at], append([]byte(d.bits(textBits, 1)), b[at:]...)...)
		}
	}
	return string(b)
}

func drawCode(isSvg bool) func(t *rapid.T) *CodeSpec {
	return func(t *rapid.T) *CodeSpec {
		d := &docGen{gen: newGen(t, opt{}), svg: isSvg}
		s := &CodeSpec{SVG: isSvg}
		switch d.uni(26) {
		case 24: // many of the same kind
			n := 1 + d.uni(150)
			for i := 0; i < n; i++ {
				d.tag()
				if d.p(10) && len(d.open) > 0 {
					d.b.WriteString("</" + d.open[len(d.open)-1] + ">")
					d.open = d.open[:len(d.open)-1]
				}
			}
			s.In = Str(d.b.String())
		case 25: // many attributes
			d.b.WriteString("<div")
			for i := 1 + d.uni(80); i > 0; i-- {
				d.b.WriteString(" ")
				d.attr()
			}
			d.b.WriteString(">x</div>")
			s.In = Str(d.b.String())
		case 0:
			s.In = Str(rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "bytes"))
		case 1:
			s.In = Str(rapid.StringMatching(`([<>/=!a-c "'&;?\[\]-]|<a|</a|<!--|-->){0,40}`).Draw(t, "marks"))
		case 2: // deep
			n := pick(d.gen, []string{"div", "g", "b", "unknown"})
			s.In = Str(strings.Repeat("<"+n+">", d.i(1, 400)) + "x" + strings.Repeat("</"+n+">", d.i(0, 300)))
		default:
			if isSvg && d.p(10) {
				d.b.WriteString("<svg xmlns=\"http://www.w3.org/2000/svg\" viewBox=\"0 0 1 1\">")
				d.open = append(d.open, "svg")
			} else if !isSvg && d.p(6) {
				d.b.WriteString("<!DOCTYPE html><html><head><title>t</title></head><body>")
				d.open = append(d.open, "html", "body")
			}
			for i := d.i(1, 12) + d.uni(8); i > 0; i-- {
				d.step()
			}
			if d.p(10) {
				for len(d.open) > 0 {
					d.b.WriteString("</" + d.open[len(d.open)-1] + ">")
					d.open = d.open[:len(d.open)-1]
				}
			}
			s.In = Str(d.b.String())
			if d.p(5) {
				s.In = Str(d.damage(string(s.In)))
			}
		}
		if d.p(6) {
			s.Chunks = rapid.SliceOfN(rapid.IntRange(0, 9), 1, 4).Draw(t, "chunks")
			s.Chunks = append(s.Chunks, 1)
		}
		s.Ends = d.p(4)
		if d.p(5) {
			s.RFail = rapid.SliceOfN(rapid.IntRange(0, 100000), 1, 3).Draw(t, "rfail")
		}
		if d.p(8) {
			s.WFail = rapid.SliceOfN(rapid.IntRange(0, 100000), 1, 4).Draw(t, "wfail")
			s.WPart = pick(d.gen, []int{0, 1, 2, 3, 1 << 30})
		}
		return s
	}
}

// fixedCode uses every known element and attribute once
func fixedCode(isSvg bool) func() []any {
	return func() (r []any) {
		elems, attrs := append(append([]string(nil), htmlElemNames...), oddElems...), append(append([]string(nil), htmlAttrNames...), oddAttrs...)
		if isSvg {
			elems, attrs = append(append([]string(nil), svgElemNames...), oddElems...), append(append([]string(nil), svgAttrNames...), oddAttrs...)
		}
		for _, e := range elems {
			r = append(r, &CodeSpec{SVG: isSvg, In: Str("<p><" + e + " id=\"i\" title=\"t\">x<b>y</b></" + e + "><i>z</i></p>"), WFail: []int{1, 2, 3}, RFail: []int{7}})
			r = append(r, &CodeSpec{SVG: isSvg, In: Str("<p><" + e + "/><" + e + " id=\"i\"/></p>")})
		}
		for _, a := range attrs {
			for _, v := range []string{"", "=\"\"", "=\"v\"", "=\"a b; c,d\"", "=\"" + strings.ReplaceAll(a, "\"", "") + "\"", "=\"&quot;&lt;\\\""} {
				r = append(r, &CodeSpec{SVG: isSvg, In: Str("<div " + a + v + " id=\"i\">x</div><input " + a + v + ">")})
			}
		}
		all := ""
		for _, e := range elems {
			if codeVoid[strings.ToLower(e)] || rawText[strings.ToLower(e)] {
				continue
			}
			all += "<" + e + ">"
		}
		r = append(r, &CodeSpec{SVG: isSvg, In: Str(all)})
		// every character (written as it is, and escaped)
		chars := characters()
		for k := 0; k < len(chars); k += 8 {
			var raw, escaped strings.Builder
			for j := k; j < k+8 && j < len(chars); j++ {
				c := chars[j]
				fmt.Fprintf(&raw, "<p title=\"%s\" data-x='%s'>%s</p><!--%s--><g id=%s>", c, c, c, c, c)
				c = escape(c)
				fmt.Fprintf(&escaped, "<p title=\"%s\" data-x='%s'>%s</p><b x=\"%s\">%s<style>%s</style>", c, c, c, c, c, c)
			}
			r = append(r, &CodeSpec{SVG: isSvg, In: Str(raw.String())}, &CodeSpec{SVG: isSvg, In: Str(escaped.String())})
		}
		// large documents
		rep := strings.Repeat
		el, odd := "div", "unknown"
		if isSvg {
			el = "g"
		}
		many := ""
		for i := 0; i < 600; i++ {
			many += fmt.Sprintf(" a%d=\"%d\"", i, i)
		}
		for _, in := range []string{
			rep("<"+el+">", 1500) + "x" + rep("</"+el+">", 1500),
			rep("<"+el+" id=a>", 700) + rep("<"+odd+">", 700) + "x",
			rep("<"+el+" id=\"a\">x</"+el+">", 4000),
			rep("<"+odd+"/><br>text<!--c-->", 3000),
			"<" + el + many + many + ">x</" + el + ">",
			"<" + el + ">" + rep("text & more ", 12000) + "</" + el + ">",
			"<" + el + " id=\"" + rep("v&amp;&#34;\\", 12000) + "\">x</" + el + ">",
			"<" + el + "><!--" + rep("comment ", 12000) + "--></" + el + ">",
			"<script>" + rep("if (a < b) {}\n", 9000) + "</script>",
			"<" + rep("x", 70000) + " " + rep("y", 70000) + "=1>x</" + rep("x", 70000) + ">",
			"<p>" + rep("&lt;", 30000) + rep("\n", 5000) + "</p>" + rep("</p>", 5000),
		} {
			r = append(r, &CodeSpec{SVG: isSvg, In: Str(in), Chunks: []int{1000, 1, 4096}, WFail: []int{0, 1 << 12, 1<<31 - 1}, RFail: []int{len(in) - 1, 66000}})
		}
		// closed over many others
		for n := 1; n < 1200; n += 1 + n/8 {
			other := []string{"b", "a", odd, el}[n%3]
			r = append(r, &CodeSpec{SVG: isSvg, In: Str("<section><" + el + " id=i>" + rep("<"+other+">", n) + "x</" + el + ">y</section>z")})
			r = append(r, &CodeSpec{SVG: isSvg, In: Str(rep("<"+el+">", n) + "<" + other + ">x" + rep("</"+el+">y", n+1))})
		}
		// really large
		r = append(r, &CodeSpec{SVG: isSvg, In: Str("<" + el + ">" + rep(rep("text & more ", 5000)+"<br/>", 50) + "</" + el + "><i>end</i>")})
		r = append(r, &CodeSpec{SVG: isSvg, In: Str("<" + el + " id=\"" + rep("0123456789", 250000) + "\">x</" + el + "><i>end</i>")})
		r = append(r, &CodeSpec{SVG: isSvg, In: Str(rep("<"+el+" id=\"a\">x</"+el+">", 50000) + "<i>end</i>")})
		return r
	}
}

func init() {
	const rule = "documents made of known, unknown and malformed tags, attributes, text, comments, %s, raw text, end tags that match, are omitted or stray, damaged or cut off at random, random bytes and very deep ones, read in pieces of random sizes, with reading failing at random places and Write failing at random calls; the code is parsed, evaluated (knowing only functions that exist), rendered and read back; every element and attribute once as fixed cases; non-trivial: at least two elements, and attributes or text"
	p := register("A15", fmt.Sprintf(rule, "doctypes"), 22500, 150000, drawCode(false), checkCode)
	p.fixed = fixedCode(false)
	p = register("A16", fmt.Sprintf(rule, "CDATA"), 22500, 150000, drawCode(true), checkCode)
	p.fixed = fixedCode(true)
}
