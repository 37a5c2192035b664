// C23: the command-line tokenizer prints one well-formed block per input line.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"

	"pgregory.net/rapid"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/data"

	"verifharness/pbt"
	"verifharness/world"
)

// piece is a line with its ending.
type piece struct {
	Text pbt.Str
	End  pbt.Str
	// when not 0, the text is padded so that it ends at
	// Align bytes after a multiple of 4096 of the stream
	Align int `json:",omitempty"`
	Times int `json:",omitempty"` // so many more multiples of 4096
	Rep   int `json:",omitempty"`
}

// stream is the contents of one file or of standard input.
type stream []piece

func (s stream) bytes() string {
	var b strings.Builder
	for _, p := range s {
		t := string(p.Text)
		if p.Rep > 0 {
			t = strings.Repeat(t, p.Rep)
		}
		if p.Align != 0 {
			end := (b.Len()+len(t)+4096)/4096*4096 + p.Times*4096 + p.Align
			// long characters: the analysis takes time quadratic in their number
			t += strings.Repeat("𠮷", (end-b.Len()-len(t))/4)
			for b.Len()+len(t) < end {
				t += "x"
			}
		}
		b.WriteString(t)
		b.WriteString(string(p.End))
	}
	return b.String()
}

// lines is the reference reading: LF, CR LF and CR end a line.
func lines(s string) []string {
	var out []string
	at := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\r':
			out = append(out, s[at:i])
			if i+1 < len(s) && s[i+1] == '\n' {
				i++
			}
			at = i + 1
		case '\n':
			out = append(out, s[at:i])
			at = i + 1
		}
	}
	if at < len(s) {
		out = append(out, s[at:])
	}
	return out
}

type run struct {
	Streams []stream
	Files   bool  // as files (else the first one on standard input)
	Chunks  []int `json:",omitempty"` // how standard input is written, as packets
	Missing int   // 1 + index of the file that does not exist; negative: is a directory
	Mode    string
	All     bool
	Ignore  bool
	Debug   bool
	Out     string // output file: "", "rel", "abs", "old" (with contents), "nodir", "full"
	Full    bool   // standard output cannot be written
	Style   string // how the settings are given
	Order   int    // order of the options
	FlagJ   bool   // UTF-16 by option
	Names   []int  `json:",omitempty"` // how the plugins are named
	Bad     string `json:",omitempty"` // an entry that must be refused
	BadList string `json:",omitempty"` // the list that it is in
	BadAt   int    `json:",omitempty"`
}

var pluginLists = []string{"inputTextPlugin", "oovProviderPlugin", "pathRewritePlugin", "editConnectionCostPlugin"}

// a plugin of each list
var pluginOf = []string{"DefaultInputTextPlugin", "SimpleOovProviderPlugin", "JoinNumericPlugin", "InhibitConnectionPlugin"}

// name gives the plugins of the settings the names of the run and adds its bad entry.
func (r *run) name(s map[string]any) {
	k := 0
	for _, l := range pluginLists {
		list, ok := s[l].([]any)
		if !ok {
			list = []any{}
		}
		for _, e := range list {
			if len(r.Names) == 0 {
				break
			}
			o := e.(map[string]any)
			n, _ := o["class"].(string)
			if m, ok := o["name"].(string); ok {
				n = m
			}
			n = n[strings.LastIndex(n, ".")+1:]
			delete(o, "class")
			delete(o, "name")
			d := r.Names[k%len(r.Names)]
			k++
			full := []string{"", "com.worksap.nlp.sudachi.", "github.com/msnoigrs/gosudachi."}[d%3] + n
			switch d / 3 % 3 {
			case 0:
				o["class"] = full
			case 1:
				o["name"] = full
			default:
				o["name"], o["class"] = full, "other"
			}
		}
		if r.Bad != "" && r.BadList == l {
			at := r.BadAt % (len(list) + 1)
			list = append(append(append([]any{}, list[:at]...), json.RawMessage(r.Bad)), list[at:]...)
			s[l] = list
		}
	}
}

type caseT struct {
	W        *world.World
	DefInput bool // the input plugins of the embedded settings
	Runs     []run
}

func drawStream(t *rapid.T, w *world.World, alpha []rune, long bool) stream {
	var s stream
	aligned := 0
	for i := rapid.IntRange(0, 5).Draw(t, "npieces"); i > 0; i-- {
		p := piece{End: world.Pick(t, "end", []pbt.Str{"\n", "\r\n", "\r\n", "\r", "\n\r", "\r\r\n"})}
		if !world.Chance(t, "empty", 25) {
			p.Text = pbt.Str(world.DrawText(t, w, alpha, 5))
		}
		if long && aligned < 3 && rapid.Bool().Draw(t, "align") {
			aligned++
			p.Align = rapid.IntRange(-3, 4).Draw(t, "at")
			if aligned == 1 {
				p.Times = world.Pick(t, "times", []int{0, 0, 0, 0, 0, 1, 2})
				if world.Chance(t, "very long", 2) && world.Chance(t, "very very long", 25) {
					p.Times = 16
				}
			}
		} else if long {
			p.Rep = rapid.IntRange(0, 8).Draw(t, "rep")
		}
		s = append(s, p)
	}
	if len(s) > 0 && rapid.Bool().Draw(t, "open") {
		s[len(s)-1].End = ""
	}
	return s
}

func gen(long bool) func(t *rapid.T) caseT {
	return func(t *rapid.T) caseT {
		w, alpha := world.Draw(t, world.Opt{MaxRows: 8, MaxUsers: 2, Input: true, Path: true, Inhibit: true, NoFail: world.Chance(t, "nofail", 80)})
		c := caseT{W: w}
		if world.Chance(t, "defin", 20) {
			c.DefInput = true
			w.Input = []string{"default", "prolonged"}
			w.Rewrite = nil
			w.Prolonged = &world.Prolonged{Marks: []pbt.Str{"ー", "-", "⁓", "〜", "〰"}, Replacement: "ー"}
		}
		nruns := 1
		if !long {
			nruns = rapid.IntRange(1, 3).Draw(t, "nruns")
		}
		for ; nruns > 0; nruns-- {
			r := run{Mode: world.Pick(t, "mode", []string{"", "A", "B", "C"}), All: rapid.Bool().Draw(t, "all"), Ignore: world.Chance(t, "ign", 40), Debug: !long && world.Chance(t, "debug", 10)}
			r.Style = world.Pick(t, "style", []string{"-s", "-s", "-s", "-r", "-r", "-r rel", "path", "-s path", "-r -s"})
			if c.DefInput {
				r.Style = world.Pick(t, "style2", []string{"-s", "-s path"})
			}
			if world.Chance(t, "exe", 4) {
				r.Style = "exe"
			}
			r.FlagJ = rapid.Bool().Draw(t, "flagj")
			r.Order = rapid.IntRange(0, 5).Draw(t, "order")
			if rapid.Bool().Draw(t, "names") {
				r.Names = rapid.SliceOfN(rapid.IntRange(0, 8), 1, 6).Draw(t, "naming")
			}
			if !long && world.Chance(t, "bad", 6) {
				k := rapid.IntRange(0, 3).Draw(t, "badlist")
				other := pluginOf[(k+1+rapid.IntRange(0, 2).Draw(t, "other"))%4]
				r.BadList, r.BadAt = pluginLists[k], rapid.IntRange(0, 3).Draw(t, "badat")
				r.Bad = world.Pick(t, "badentry", []string{`{}`, `5`, `null`, `[]`, `"` + pluginOf[k] + `"`, `{"class":"NoSuchPlugin"}`, `{"class":"` + other + `"}`, `{"name":"com.worksap.nlp.sudachi.` + other + `"}`,
					`{"class":"github.com/msnoigrs/gosudachi.` + other + `"}`, `{"class":5}`, `{"class":"` + pluginOf[k] + ` "}`, `{"name":"` + strings.ToLower(pluginOf[k]) + `"}`,
					map[int]string{0: `{"class":"DefaultInputTextPlugin","rewriteDef":5}`, 1: `{"class":"SimpleOovProviderPlugin","cost":70000}`, 2: `{"class":"JoinNumericPlugin","enableNormalize":"yes"}`, 3: `{"class":"InhibitConnectionPlugin","inhibitedPair":[[1,"2"]]}`}[k]})
			}
			r.Files = rapid.Bool().Draw(t, "files")
			n := 1
			if r.Files {
				n = rapid.IntRange(1, 3).Draw(t, "nfiles")
			}
			for ; n > 0; n-- {
				r.Streams = append(r.Streams, drawStream(t, w, alpha, long))
			}
			if r.Files && world.Chance(t, "missing", 8) {
				r.Missing = rapid.IntRange(1, len(r.Streams)).Draw(t, "which")
				if rapid.Bool().Draw(t, "dir") {
					r.Missing = -r.Missing
				}
			}
			if !r.Files && !long && rapid.Bool().Draw(t, "packets") {
				if s := r.Streams[0]; len(s.bytes()) < 480 {
					r.Chunks = rapid.SliceOfN(rapid.IntRange(1, 7), 1, 12).Draw(t, "chunks")
				}
			}
			if world.Chance(t, "out", 30) {
				r.Out = world.Pick(t, "outkind", []string{"rel", "abs", "old", "nodir", "full"})
			} else if world.Chance(t, "full", 4) {
				r.Full = true
			}
			c.Runs = append(c.Runs, r)
		}
		return c
	}
}

func block(ms *gosudachi.MorphemeList, all bool) string {
	var b strings.Builder
	for i := 0; i < ms.Length(); i++ {
		m := ms.Get(i)
		f := []string{m.Surface(), strings.Join(m.PartOfSpeech(), ","), m.NormalizedForm()}
		if all {
			f = append(f, m.DictionaryForm(), m.ReadingForm(), fmt.Sprint(m.GetDictionaryId()))
			if m.IsOOV() {
				f = append(f, "(OOV)")
			}
		}
		b.WriteString(strings.Join(f, "\t"))
		b.WriteByte('\n')
	}
	return b.String() + "EOS\n"
}

// expect is what a run must do.
type expect struct {
	Out    string
	Alt    string // with EOS for lines that failed
	Fails  int    // lines that failed
	Code   int
	Lines  int
	Blocks int
}

func (r *run) expect(tok *gosudachi.JapaneseTokenizer) expect {
	var e expect
	if r.Out == "nodir" {
		e.Code = 1
		return e
	}
	mode := r.Mode
	if mode == "" {
		mode = "C"
	}
	var out, alt bytes.Buffer
	for i, s := range r.Streams {
		if r.Missing == i+1 || r.Missing == -i-1 {
			e.Code = 1
			break
		}
		for _, l := range lines(s.bytes()) {
			e.Lines++
			var dump bytes.Buffer
			if r.Debug {
				tok.DumpOutput = &dump
			} else {
				tok.DumpOutput = nil
			}
			ms, err := tok.Tokenize(mode, l)
			var b string
			if err != nil {
				e.Fails++
			} else {
				b = block(ms, r.All)
				e.Blocks++
			}
			for _, w := range []*bytes.Buffer{&out, &alt} {
				w.Write(dump.Bytes())
				w.WriteString(b)
			}
			if err != nil {
				if !r.Ignore {
					e.Code = 1
					e.Out, e.Alt = out.String(), out.String()
					return e
				}
				alt.WriteString("EOS\n")
			}
		}
	}
	e.Out, e.Alt = out.String(), alt.String()
	return e
}

func quote(v any) string {
	b, err := json.Marshal(v)
	pbt.Must(err)
	return string(b)
}

// args are the arguments of a run but for the files.
func (c *caseT) args(r *run, f *world.Files) (exe string, args []string) {
	exe = "gosudachicli"
	s := c.W.Settings(f)
	if c.DefInput {
		delete(s, "inputTextPlugin")
	}
	r.name(s)
	var opts [][]string
	if c.W.Utf16 && r.FlagJ {
		delete(s, "utf16String")
		opts = append(opts, []string{"-j"})
	}
	dir := f.Dir
	if strings.HasSuffix(r.Style, "path") {
		s["path"] = f.Dir
		dir = "/nonexistent"
	}
	file := filepath.Join(f.Dir, "settings.json")
	switch r.Style {
	case "-s", "-s path":
		opts = append(opts, []string{"-s", quote(s)})
	case "exe":
		exe = filepath.Join(f.Dir, "gosudachicli")
		if os.Link(filepath.Join(pbt.CLIDir, "gosudachicli"), exe) != nil {
			if _, err := os.Stat(exe); err != nil {
				b, err := os.ReadFile(filepath.Join(pbt.CLIDir, "gosudachicli"))
				pbt.Must(err)
				pbt.Must(os.WriteFile(exe, b, 0755))
			}
		}
		opts = append(opts, []string{"-s", quote(s)})
		dir = ""
	default:
		world.Write(file, quote(s))
		if r.Style == "-r rel" {
			file = "settings.json"
		}
		opts = append(opts, []string{"-r", file})
		if r.Style == "-r -s" {
			opts = append(opts, []string{"-s", `{"systemDict":"/nonexistent/other.dic","oovProviderPlugin":[]}`})
		}
	}
	if dir != "" {
		opts = append(opts, []string{"-p", dir})
	}
	if r.Mode != "" {
		opts = append(opts, []string{"-m", r.Mode})
	}
	if r.All {
		opts = append(opts, []string{"-a"})
	}
	if r.Ignore {
		opts = append(opts, []string{"-f"})
	}
	if r.Debug {
		opts = append(opts, []string{"-d"})
	}
	switch r.Out {
	case "rel", "old":
		opts = append(opts, []string{"-o", "out.txt"})
	case "abs":
		opts = append(opts, []string{"-o", filepath.Join(f.Dir, "out.txt")})
	case "nodir":
		opts = append(opts, []string{"-o", filepath.Join(f.Dir, "none", "out.txt")})
	case "full":
		opts = append(opts, []string{"-o", "/dev/full"})
	}
	for i := range opts {
		args = append(args, opts[(i+r.Order)%len(opts)]...)
	}
	return exe, args
}

// packets gives the text so that each read gets one chunk.
func packets(s string, chunks []int) (*os.File, func()) {
	var p [2]int
	pbt.Must(syscall.Pipe2(p[:], syscall.O_DIRECT|syscall.O_CLOEXEC))
	r, w := os.NewFile(uintptr(p[0]), "in"), os.NewFile(uintptr(p[1]), "out")
	done := make(chan bool)
	go func() {
		for i := 0; len(s) > 0; i++ {
			n := min(chunks[i%len(chunks)], len(s))
			if _, err := w.WriteString(s[:n]); err != nil {
				break
			}
			s = s[n:]
		}
		w.Close()
		close(done)
	}()
	return r, func() { r.Close(); <-done }
}

func (c *caseT) try(r *run, e *world.Env, st *pbt.Stats) error {
	want := r.expect(e.Tok)
	if r.Bad != "" {
		want = expect{Code: 1}
	}
	exe, args := c.args(r, e.Files)
	dir := e.Files.Dir
	var stdin io.Reader
	shown := fmt.Sprintf("%s %q", exe, args)
	if r.Files {
		for i, s := range r.Streams {
			name := fmt.Sprintf("in%d.txt", i)
			path := filepath.Join(dir, name)
			os.RemoveAll(path)
			switch r.Missing {
			case i + 1:
			case -i - 1:
				pbt.Must(os.Mkdir(path, 0755))
			default:
				world.Write(path, s.bytes())
			}
			args = append(args, name)
			shown += fmt.Sprintf(", file %q", cut(s.bytes()))
		}
	} else {
		s := r.Streams[0].bytes()
		shown += fmt.Sprintf(", standard input %q", cut(s))
		if r.Chunks != nil {
			in, done := packets(s, r.Chunks)
			defer done()
			stdin = in
		} else {
			stdin = strings.NewReader(s)
		}
	}
	outFile := filepath.Join(dir, "out.txt")
	os.RemoveAll(outFile)
	if r.Out == "old" {
		world.Write(outFile, strings.Repeat("old\n", 3000))
	}
	var full *os.File
	if r.Full {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		pbt.Must(err)
		defer f.Close()
		full = f
	}
	res := pbt.RunTo(full, dir, stdin, exe, args...)
	if res.Crashed() {
		return fmt.Errorf("%s: %v", shown, res)
	}
	if (r.Full || r.Out == "full") && !(want.Code == 0 && want.Lines > 0) {
		return nil
	}
	if (r.Full || r.Out == "full") && want.Blocks > 0 {
		st.Class("output that cannot be written")
		if res.Code == 0 && !r.Ignore {
			return fmt.Errorf("%s: the output cannot be written: %v", shown, res)
		}
		return nil
	}
	if (res.Code != 0) != (want.Code != 0) {
		return fmt.Errorf("%s: %v; want failure: %v (%d lines cannot be analysed)", shown, res, want.Code != 0, want.Fails)
	}
	if (want.Code != 0 || want.Fails > 0) && len(res.Err) == 0 {
		return fmt.Errorf("%s: no message: %v", shown, res)
	}
	got := string(res.Out)
	if r.Out != "" && r.Out != "full" {
		if got != "" {
			return fmt.Errorf("%s: with an output file: %v", shown, res)
		}
		b, err := os.ReadFile(outFile)
		if r.Out == "nodir" {
			return nil
		}
		if err != nil {
			return fmt.Errorf("%s: %v", shown, err)
		}
		got = string(b)
	}
	if got != want.Out && got != want.Alt && !(r.Debug && want.Fails > 0) {
		i := 0
		for i < len(got) && i < len(want.Out) && got[i] == want.Out[i] {
			i++
		}
		return fmt.Errorf("%s: output\n%s\nwant\n%s\ndifferent at byte %d: got %q, want %q", shown, cut(got), cut(want.Out), i, cut(got[i:]), cut(want.Out[i:]))
	}
	st.Add("lines", want.Lines)
	if want.Blocks > 1 {
		st.NonTrivial()
	}
	st.Class("settings by " + r.Style)
	for _, x := range r.Streams {
		for _, p := range x {
			st.ClassIf(p.Times == 16, "a line of more than 65536 bytes")
		}
	}
	st.ClassIf(r.Chunks != nil, "standard input in packets")
	st.ClassIf(r.Files && len(r.Streams) > 1, "several files")
	st.ClassIf(want.Fails > 0 && r.Ignore, "failing lines ignored")
	st.ClassIf(want.Fails > 0 && !r.Ignore && want.Blocks > 0, "failing line after others")
	st.ClassIf(want.Fails > 0 && !r.Ignore && want.Blocks > 0 && r.Out != "", "failing line after others, output file")
	st.ClassIf(r.Bad != "", "a plugin entry that must be refused")
	st.ClassIf(r.Missing != 0, "unreadable file")
	st.ClassIf(r.Out != "", "output file: "+r.Out)
	st.ClassIf(r.Debug, "debug")
	st.ClassIf(c.W.Utf16 && r.FlagJ, "UTF-16 by option")
	st.ClassIf(c.DefInput, "input plugins of the embedded settings")
	return nil
}

func cut(s string) string {
	if len(s) > 1200 {
		return s[:600] + " ... " + s[len(s)-600:]
	}
	return s
}

func check(c caseT, st *pbt.Stats) error {
	e, err := c.W.Setup(world.OpenOpt{})
	if err != nil {
		return err
	}
	defer e.Close()
	for i := range c.Runs {
		r := &c.Runs[i]
		if err := c.try(r, e, st); err != nil {
			return err
		}
	}
	return nil
}

// The embedded settings with a dictionary large enough for their ids.
type defaultT struct {
	Streams []stream
	Mode    string
	All     bool
	Exe     bool
	Changes pbt.Str // of the settings
}

var words = []string{"東京", "都", "東京都", "に", "行く", "行っ", "た", "は", "すもも", "もも", "も", "の", "うち", "カレー", "ライス", "スーパー", "一", "二", "三", "十", "百", "千", "万", "1", "2", "0", ",", ".", "円", "株式", "会社", "株式会社", "テスト", "go", "Sudachi", "。", "、", "「", "」", " "}

var bigPos = []world.Pos6{
	{"名詞", "普通名詞", "一般", "*", "*", "*"}, {"名詞", "数詞", "*", "*", "*", "*"}, {"補助記号", "一般", "*", "*", "*", "*"},
	{"名詞", "固有名詞", "一般", "*", "*", "*"}, {"名詞", "固有名詞", "人名", "一般", "*", "*"}, {"名詞", "固有名詞", "地名", "一般", "*", "*"},
	{"名詞", "普通名詞", "サ変可能", "*", "*", "*"}, {"感動詞", "一般", "*", "*", "*", "*"}, {"空白", "*", "*", "*", "*", "*"},
	{"助詞", "格助詞", "*", "*", "*", "*"},
}

const bigIds = 5970

// big is the default configuration, built once.
var big = sync.OnceValue(func() (b struct {
	dir  string
	dict *gosudachi.JapaneseDictionary
}) {
	b.dir, _ = world.Dir()
	w := &world.World{POS: bigPos, Matrix: world.Matrix{L: bigIds, R: bigIds}}
	for i := 0; i < 3000; i++ {
		w.Matrix.Lines = append(w.Matrix.Lines, [3]int{i * 7919 % bigIds, i * 104729 % bigIds, i*37%5000 - 2000})
	}
	for i, s := range words {
		pos := []int{0, 9, 5, 6, 3}[i%5]
		switch {
		case strings.Contains("一二三十百千万120", s):
			pos = 1
		case strings.Contains(",.。、「」", s):
			pos = 2
		case s == " ":
			pos = 8
		}
		r := world.Row{Head: pbt.Str(s), Surface: pbt.Str(s), Left: i * 149 % bigIds, Right: i * 151 % bigIds, Cost: 3000 + i*631%4000, Pos: pos, DicForm: -1, Unit: "A", Reading: "ヨミ"}
		switch s {
		case "東京都":
			r.Unit, r.A = "C", []world.Ref{{Kind: "id", Own: true, Row: 0}, {Kind: "id", Own: true, Row: 1}}
		case "株式会社":
			r.Unit, r.A = "B", []world.Ref{{Kind: "id", Own: true, Row: 29}, {Kind: "id", Own: true, Row: 30}}
		}
		w.Sys.Rows = append(w.Sys.Rows, r)
	}
	for p := range bigPos { // every part of speech that the definitions use
		w.Sys.Rows = append(w.Sys.Rows, world.Row{Head: pbt.Str(fmt.Sprintf("品詞%d", p)), NoIndex: true, Surface: pbt.Str(fmt.Sprintf("品詞%d", p)), Pos: p, DicForm: -1, Unit: "A"})
	}
	sys := filepath.Join(b.dir, "system_core.dic")
	pbt.Must(world.BuildSystem(sys, "big", 0, w.Matrix.Source(), w.Sources(&w.Sys, false), false))
	file := func(name string) string {
		f, err := data.Assets.Open(name)
		pbt.Must(err)
		x, err := io.ReadAll(f)
		pbt.Must(err)
		f.Close()
		return world.Write(filepath.Join(b.dir, "copy-"+name), string(x))
	}
	// the documented default settings
	charDef, unkDef := file("char.def"), file("unk.def")
	marks, rep := []string{"ー", "-", "⁓", "〜", "〰"}, "ー"
	pos, katakana := bigPos[2].List(), bigPos[0].List()
	id, cost, min, normalize := int16(5968), int16(3857), 3, true
	var err error
	b.dict, err = gosudachi.NewJapaneseDictionary(&gosudachi.BaseConfig{SystemDict: sys, CharacterDefinitionFile: charDef},
		[]gosudachi.InputTextPlugin{
			gosudachi.NewDefaultInputTextPlugin(&gosudachi.DefaultInputTextPluginConfig{RewriteDef: file("rewrite.def")}),
			gosudachi.NewProlongedSoundMarkInputTextPlugin(&gosudachi.ProlongedSoundMarkInputTextPluginConfig{ProlongedSoundMarks: &marks, ReplacementSymbol: &rep}),
		},
		[]gosudachi.OovProviderPlugin{
			gosudachi.NewMeCabOovProviderPlugin(&gosudachi.MeCabOovProviderPluginConfig{CharDef: &charDef, UnkDef: &unkDef}),
			gosudachi.NewSimpleOovProviderPlugin(&gosudachi.SimpleOovProviderPluginConfig{OovPos: &pos, LeftId: &id, RightId: &id, Cost: &cost}),
		},
		[]gosudachi.PathRewritePlugin{
			gosudachi.NewJoinNumericPlugin(&gosudachi.JoinNumericPluginConfig{EnableNormalize: &normalize}),
			gosudachi.NewJoinKatakanaOovPlugin(&gosudachi.JoinKatakanaOovPluginConfig{OovPOS: &katakana, MinLength: &min}),
		}, nil)
	pbt.Must(err)
	exe, err := os.ReadFile(filepath.Join(pbt.CLIDir, "gosudachicli"))
	pbt.Must(err)
	pbt.Must(os.WriteFile(filepath.Join(b.dir, "gosudachicli"), exe, 0755))
	return b
})

var defaultAlpha = []rune("東京都行一二三百万円カレーァスあいうんＡＢｶﾞABCabcéαβЖж0123456789,.。、-〜〰㍿①…「」　 \t😀𠮷ﾊﾟㅏ한")

func genDefault(t *rapid.T) defaultT {
	c := defaultT{Mode: world.Pick(t, "mode", []string{"", "A", "B", "C"}), All: rapid.Bool().Draw(t, "all"), Exe: rapid.Bool().Draw(t, "exe")}
	for i := rapid.IntRange(1, 3).Draw(t, "nstreams"); i > 0; i-- {
		var s stream
		for j := rapid.IntRange(1, 8).Draw(t, "npieces"); j > 0; j-- {
			p := piece{End: world.Pick(t, "end", []pbt.Str{"\n", "\n", "\r\n", "\r"})}
			var b strings.Builder
			for k := rapid.IntRange(0, 12).Draw(t, "n"); k > 0; k-- {
				if rapid.Bool().Draw(t, "word") {
					b.WriteString(world.Pick(t, "w", words))
				} else {
					b.WriteRune(world.Pick(t, "c", defaultAlpha))
				}
			}
			p.Text = pbt.Str(b.String())
			s = append(s, p)
		}
		c.Streams = append(c.Streams, s)
	}
	c.Changes = world.Pick(t, "changes", []pbt.Str{"", "", "", "{}", `{"systemDict":"./system_core.dic"}`, `{"utf16String":false}`})
	return c
}

func checkDefault(c defaultT, st *pbt.Stats) error {
	b := big()
	r := run{Streams: c.Streams, Mode: c.Mode, All: c.All}
	tok := b.dict.Create()
	want := r.expect(tok)
	exe, args := "gosudachicli", []string(nil)
	if c.Exe {
		exe = filepath.Join(b.dir, exe)
	} else {
		args = append(args, "-p", b.dir)
	}
	if c.Changes != "" {
		args = append(args, "-s", string(c.Changes))
	}
	if c.All {
		args = append(args, "-a")
	}
	if c.Mode != "" {
		args = append(args, "-m", c.Mode)
	}
	dir, rm := world.Dir()
	defer rm()
	shown := fmt.Sprintf("%s %q", exe, args)
	for i, s := range c.Streams {
		args = append(args, world.Write(filepath.Join(dir, fmt.Sprintf("in%d", i)), s.bytes()))
		shown += fmt.Sprintf(", file %q", s.bytes())
	}
	res := pbt.Run(dir, nil, exe, args...)
	if res.Code != 0 || want.Code != 0 || string(res.Out) != want.Out {
		return fmt.Errorf("%s: %v; want success: %v and output\n%s", shown, res, want.Code == 0, want.Out)
	}
	st.Add("lines", want.Lines)
	if want.Blocks > 1 {
		st.NonTrivial()
	}
	st.ClassIf(c.Exe, "dictionary beside the executable")
	st.ClassIf(strings.Contains(want.Out, "(OOV)"), "unknown words")
	return nil
}

// rawT is a short stream read in parts of chosen sizes.
type rawT struct {
	Parts []pbt.Str
	All   bool
}

// tiny is a configuration that finds each character unknown.
var tiny = sync.OnceValue(func() (b struct {
	e *world.Env
}) {
	w := &world.World{POS: bigPos, Matrix: world.Matrix{L: 1, R: 1}, Oov: []string{"simple"}, Simple: world.Simple{Cost: 10}}
	for i := range world.CatNames {
		w.Chars.Props = append(w.Chars.Props, world.CatProp{Cat: 1 << i, Len: 1})
	}
	w.Sys.Rows = []world.Row{{Head: "ab", Surface: "ab", DicForm: -1, Unit: "A", Norm: "N"}}
	e, err := w.Setup(world.OpenOpt{})
	pbt.Must(err)
	world.Write(filepath.Join(e.Files.Dir, "settings.json"), quote(w.Settings(e.Files)))
	b.e = e
	return b
})

func genRaw(t *rapid.T) rawT {
	c := rawT{All: world.Chance(t, "all", 20)}
	n := 0
	for i := rapid.IntRange(1, 14).Draw(t, "nparts"); i > 0 && n < 400; i-- {
		var b strings.Builder
		for j := rapid.IntRange(1, 6).Draw(t, "n"); j > 0; j-- {
			b.WriteString(world.Pick(t, "item", []string{"a", "b", "あ", "\n", "\r", "\r\n", "\r\n", "\n"}))
		}
		if rapid.Bool().Draw(t, "ending") {
			b.WriteString("\r\n")
		}
		x := b.String()
		if world.Chance(t, "odd", 20) { // in the middle of a character
			x = x[:len(x)-1]
		}
		n += len(x)
		c.Parts = append(c.Parts, pbt.Str(x))
	}
	return c
}

func checkRaw(c rawT, st *pbt.Stats) error {
	b := tiny()
	var all string
	var sizes []int
	for _, p := range c.Parts {
		if p != "" {
			all += string(p)
			sizes = append(sizes, len(p))
		}
	}
	r := run{Streams: []stream{{{Text: pbt.Str(all)}}}, All: c.All}
	want := r.expect(b.e.Dict.Create())
	args := []string{"-r", filepath.Join(b.e.Files.Dir, "settings.json"), "-p", b.e.Files.Dir}
	if c.All {
		args = append(args, "-a")
	}
	in, done := packets(all, append(sizes, 1))
	res := pbt.Run(b.e.Files.Dir, in, "gosudachicli", args...)
	done()
	if res.Code != want.Code || string(res.Out) != want.Out {
		return fmt.Errorf("standard input read in the parts %q: %v; want\n%q", c.Parts, res, want.Out)
	}
	st.Add("lines", want.Lines)
	if want.Lines > 2 && len(sizes) > 1 {
		st.NonTrivial()
	}
	for i := 1; i < len(c.Parts); i++ {
		st.ClassIf(strings.HasSuffix(string(c.Parts[i-1]), "\r") && strings.HasPrefix(string(c.Parts[i]), "\n"), "CR LF across parts")
		st.ClassIf(strings.HasSuffix(string(c.Parts[i-1]), "\r\n") && strings.HasPrefix(string(c.Parts[i]), "\n"), "line feed in the next part")
	}
	return nil
}

func main() {
	pbt.Main("C23",
		pbt.S("streams", 5000, 200000, "a run prints at least two blocks", gen(false), check),
		pbt.S("long", 900, 40000, "a run prints at least two blocks", gen(true), check),
		pbt.S("parts", 10000, 400000, "more than two lines in more than one part", genRaw, checkRaw),
		pbt.S("defaults", 700, 30000, "at least two blocks are printed", genDefault, checkDefault),
	)
}
