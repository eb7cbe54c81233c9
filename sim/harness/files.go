package main

import (
	"bytes"
	"fmt"
	"regexp"
	"strings"

	"github.com/rveen/ogdl"
	gpath "github.com/rveen/ogdl/cmd/gpath"
	gtemplate "github.com/rveen/ogdl/cmd/gtemplate"
	json2ogdl "github.com/rveen/ogdl/cmd/json2ogdl"
	xml2ogdl "github.com/rveen/ogdl/cmd/xml2ogdl"
	"github.com/rveen/ogdl/io/gxml"

	"verif.local/sim/rt"
	"verif.local/sim/shim/flag"
	"verif.local/sim/shim/os"
	"verif.local/sim/simfs"
)

// ---- C10 ----

type fileSpec struct {
	Bin  bool   `json:"bin,omitempty"`
	Doc  *Doc   `json:"doc,omitempty"`
	Pre  int    `json:"pre,omitempty"`
	Obj  *bobj  `json:"obj,omitempty"`
	Cut  int    `json:"cut"`            // binary: cut off after this many thousandths, -1 not
	Kind string `json:"kind"`           // "", missing, empty, dir
	Doc2 *Doc   `json:"doc2,omitempty"` // what other versions are replaced by
	Wild []wild `json:"wild,omitempty"` // text: edits, after which what it denotes is left to FromBytes
}

type filePlan struct {
	Common
	Files   []*fileSpec `json:"files"`
	Loads   []int       `json:"loads"`
	PRead   float64     `json:"pread"`
	POpen   float64     `json:"popen"`
	ShortRd float64     `json:"short"`
	Swaps   int         `json:"swaps,omitempty"` // a task that replaces files this many times
	Par     int         `json:"par,omitempty"`   // concurrent loaders
}

func genC10(r *rt.Rand, run int) Plan {
	p := &filePlan{}
	p.MeanGap = []int{0, 0, 30, 300}[r.Intn(4)]
	p.ShortRd = []float64{0, 0.3, 1}[r.Intn(3)]
	if r.Intn(2) == 0 {
		p.PRead = []float64{0.05, 0.3, 0.7}[r.Intn(3)]
	}
	if r.Intn(4) == 0 {
		p.POpen = 0.3
	}
	n := 1 + r.Intn(4)
	few := false
	for i := 0; i < n; i++ {
		s := &fileSpec{Bin: r.Intn(2) == 0, Cut: -1}
		target := r.Intn(300)
		if r.Intn(3) == 0 {
			target = r.Intn(9000)
		}
		if s.Bin {
			b := genBin(r, 1)
			for len(b.Objs) == 0 {
				b = genBin(r, 1)
			}
			s.Obj = b.Objs[0]
			s.Obj.Gap = 0
			if r.Intn(4) == 0 {
				s.Cut = r.Intn(1000)
			}
		} else {
			s.Doc = genDoc(r, target+1)
			if r.Intn(3) == 0 {
				s.Doc2 = genDoc(r, r.Intn(3000)+1)
			}
			if r.Intn(3) == 0 {
				s.Pre = 1 + r.Intn(4100)
			}
			if r.Intn(400) == 0 && i == 0 {
				s.Pre = []int{9000, 65530, 70000, 1 << 20, 2500000, 17 << 20}[r.Intn(6)] + r.Intn(300)
				p.MeanGap = 0
				p.PRead /= 50
				few = true
				if p.ShortRd > 0 && s.Pre > 3000000 {
					s.Pre = 3000000
				}
			}
			if r.Intn(4) == 0 {
				s.Wild = genWild(r)
			}
		}
		s.Kind = []string{"", "", "", "", "", "", "missing", "empty", "dir"}[r.Intn(9)]
		p.Files = append(p.Files, s)
	}
	for k := 1 + r.Intn(6); k > 0; k-- {
		p.Loads = append(p.Loads, r.Intn(n))
	}
	if few {
		p.Loads = []int{0}
	}
	if r.Intn(3) == 0 {
		p.Swaps = 1 + r.Intn(4)
	}
	if p.Par = r.Intn(3); few {
		p.Par = 0
	}
	return p
}

// dataText is the text of a data graph, or "" if the library has none for it.
func dataText(v *V) string {
	s := ""
	guard(func() string { s = v.build().Text(); return "" })
	return s
}

func (s *fileSpec) doc(d *Doc) ([]byte, *ogdl.Graph) {
	t, g := d.render(false)
	if s.Pre > 0 {
		t = "# " + pad(s.Pre) + "\n" + t
	}
	if len(s.Wild) > 0 {
		for _, x := range s.Wild {
			t = x.apply(t)
		}
		g = nil
		guard(func() string { g = ogdl.FromBytes([]byte(t)); return "" })
		if g == nil {
			return nil, nil
		}
	}
	return []byte(t), g
}

func (p *filePlan) Run(w *rt.World, e *Env) {
	fs := simfs.Of(w)
	type version struct {
		b []byte
		g *ogdl.Graph
		m []*M
	}
	type file struct {
		s    *fileSpec
		name string
		v    []version
		all  bool  // nil is legal
		log  []int // the versions that were there, from the second one on
	}
	var files []*file
	for i, s := range p.Files {
		f := &file{s: s, name: fmt.Sprintf("/data/f%d.g", i)}
		files = append(files, f)
		switch {
		case s.Kind == "missing":
			f.name = "/data/none"
		case s.Kind == "empty":
			fs.Put(f.name, nil)
		case s.Kind == "dir":
			fs.Mkdir(f.name)
		case s.Bin && s.Obj != nil:
			b, m := s.Obj.encode()
			if s.Cut >= 0 {
				b = b[:len(b)*min(s.Cut, 999)/1000]
				m = nil
			}
			f.v = append(f.v, version{b: b, m: m})
			if m == nil && s.Cut < 0 {
				f.v[0].m = []*M{}
			}
			fs.Put(f.name, b)
			w.Room(20 * len(b))
		case s.Doc != nil:
			w.Room(20 * (s.Pre + 100000)) // for reading what may have been edited
			b, g := s.doc(s.Doc)
			if len(b) == 0 {
				continue
			}
			f.v = append(f.v, version{b: b, g: g})
			fs.Put(f.name, b)
			w.Room(20 * len(b))
			if s.Doc2 != nil {
				w.Room(20 * (s.Pre + 100000))
				if b, g := s.doc(s.Doc2); len(b) > 0 {
					f.v = append(f.v, version{b: b, g: g})
					w.Room(20 * len(b))
				}
			}
		}
	}
	fs.PRead, fs.POpen, fs.ShortRd = p.PRead, p.POpen, p.ShortRd
	faults := func() int64 { return w.Stats.Get("fault.disk.read_eio") + w.Stats.Get("fault.disk.open_error") }
	load := func(i int, alone bool) {
		if i >= len(files) {
			return
		}
		f := files[i]
		e.Ops++
		n0 := faults()
		was := len(f.log)
		var g *ogdl.Graph
		if f.s.Bin {
			g = ogdl.FromBinaryFile(f.name)
		} else {
			g = ogdl.FromFile(f.name)
		}
		if len(f.v) == 0 {
			if g != nil && f.s.Kind != "" {
				w.Fail("not-nil", "loading a file that is %s gives a graph %s", f.s.Kind, kidsG(g))
			}
			return
		}
		if f.s.Cut >= 0 && f.s.Bin {
			if g != nil {
				w.Fail("partial", "loading a binary file cut off after %d bytes gives a graph %s", len(f.v[0].b), kidsG(g))
			}
			return
		}
		if g == nil {
			if faults() == n0 {
				w.Fail("nil", "loading an intact file of %d bytes gives nil although no operation failed", len(f.v[0].b))
			}
			if alone {
				e.Hit("nil after a fault")
			}
			return
		}
		why := ""
		for i, v := range f.v {
			d := ""
			there := i == 0 && was == 0
			for k, n := range f.log {
				there = there || n == i && k >= was-1
			}
			if !there {
				// replaced before the loading began, or not there yet
				continue
			}
			if f.s.Bin {
				d = diff(g, v.m)
			} else {
				d = sameGraph(g, v.g)
			}
			if d == "" {
				if faults() > n0 && alone {
					e.Hit("whole in spite of a fault")
				}
				spoil(g)
				return
			}
			if why == "" {
				why = d
			}
		}
		w.Fail("content", "loading a file of %d bytes: %s", len(f.v[0].b), why)
	}
	var ts []*rt.Task
	if p.Swaps > 0 {
		ts = append(ts, w.Spawn(w.Local(), "replacer", func() {
			for k := 0; k < p.Swaps; k++ {
				w.Pause()
				f := files[w.Uniform("swap.file", len(files))]
				if len(f.v) > 1 {
					fs.Put("/data/tmp", f.v[(k+1)%len(f.v)].b)
					f.log = append(f.log, (k+1)%len(f.v))
					fs.Rename("/data/tmp", f.name)
					w.Count("fault.file_replaced")
				}
			}
		}))
	}
	for k := 0; k < p.Par; k++ {
		k := k
		ts = append(ts, w.Spawn(w.Local(), "loader", func() {
			for j := range p.Loads {
				load(p.Loads[(j+k)%len(p.Loads)], false)
			}
		}))
	}
	for _, i := range p.Loads {
		load(i, p.Par == 0)
		if p.Par == 0 && fs.Open != 0 {
			w.Fail("left-open", "%d files are open after loading", fs.Open)
		}
	}
	for _, t := range ts {
		w.Join(t, -1)
	}
	if fs.Open != 0 {
		w.Fail("left-open", "%d files are open after loading", fs.Open)
	}
}

// ---- C11 ----

type cliPlan struct {
	Common
	Tool    string  `json:"tool"`
	Path    []*E    `json:"path,omitempty"`
	Dot     bool    `json:"dot,omitempty"`
	Doc     *Doc    `json:"doc,omitempty"`
	Doc2    *Doc    `json:"doc2,omitempty"`
	More    []*Doc  `json:"more,omitempty"` // further data files
	NoData  bool    `json:"nodata,omitempty"`
	Rich    Str     `json:"rich,omitempty"` // the template or path, for the data that follow
	Data    []*V    `json:"data,omitempty"`
	Tpl     []*E    `json:"tpl,omitempty"`
	J       *J      `json:"json,omitempty"`
	X       *X      `json:"xml,omitempty"`
	File    bool    `json:"file,omitempty"`
	ID      bool    `json:"id,omitempty"`
	ShortRd float64 `json:"short"`
	Times   int     `json:"times"`
	// Edits of the input, which may then be malformed: what it denotes is left to the library.
	Wild  []wild `json:"wild,omitempty"`
	Twice int    `json:"twice,omitempty"` // the input again behind itself, after this separator
}

var seps = []string{"", "", "\n", " ", "\n\n", "\x00", ",", "]", "}", "\x1a", "\r\n"}

// edit makes the input that the tool gets.
func (p *cliPlan) edit(s string) string {
	for _, x := range p.Wild {
		s = x.apply(s)
	}
	if p.Twice > 0 {
		s += seps[p.Twice%len(seps)] + s
	}
	return s
}

func genC11(r *rt.Rand, run int) Plan {
	p := &cliPlan{ShortRd: []float64{0, 0.3, 0.7, 1}[r.Intn(4)], File: r.Intn(2) == 0, Times: 1 + r.Intn(2)}
	p.MeanGap = []int{0, 0, 100}[r.Intn(3)]
	p.Maps = r.Intn(2) == 0
	target := r.Intn(300)
	if r.Intn(2) == 0 {
		target = r.Intn(14000)
	}
	if r.Intn(5) == 0 {
		p.Wild = genWild(r)
	}
	if r.Intn(20) == 0 {
		p.Twice = 1 + r.Intn(len(seps))
	}
	switch r.Intn(4) {
	case 0:
		p.Tool = "gpath"
		p.Doc = genDoc(r, target+1)
		p.Dot = r.Intn(3) == 0
		if r.Intn(3) == 0 {
			t := &tgen{r: r}
			p.Rich, p.Data = Str(t.path(2)), []*V{genData(r)}
		}
	case 1:
		p.Tool = "gtemplate"
		p.Doc = genDoc(r, r.Intn(300)+1)
		if r.Intn(2) == 0 {
			p.Doc2 = genDoc(r, r.Intn(6000)+1)
			for r.Intn(3) == 0 && len(p.More) < 6 {
				p.More = append(p.More, genDoc(r, r.Intn(600)+1))
			}
		}
		p.NoData = r.Intn(12) == 0
		if r.Intn(2) == 0 {
			t := &tgen{r: r, assign: true}
			p.Rich = Str(t.tmpl(3, 2+r.Intn(8), false))
			for n := 1 + r.Intn(3)*r.Intn(2); n > 0; n-- {
				p.Data = append(p.Data, genData(r))
			}
		}
		for _, t := range genTemplate(r, target) {
			if t.K != "expr" {
				p.Tpl = append(p.Tpl, t)
			}
		}
	case 2:
		p.Tool = "json2ogdl"
		p.J = genJ(r, target)
	default:
		p.Tool = "xml2ogdl"
		p.X = genX(r, target)
		p.Dot = r.Intn(2) == 0
		p.ID = r.Intn(3) == 0
		if p.ID {
			noField(p.X)
		}
	}
	return p
}

// genData is a tree with the names that templates and paths use.
func genData(r *rt.Rand) *V {
	v := &V{S: "_"}
	for n := 2 + r.Intn(6); n > 0; n-- {
		k := genV(r, 3, 4)
		if len(k.K) == 0 {
			k = &V{S: Str(shName(r)), K: []*V{k}}
		}
		v.K = append(v.K, k)
	}
	l := &V{S: "list"}
	for n := r.Intn(5); n > 0; n-- {
		l.K = append(l.K, genV(r, 1+r.Intn(2), 3))
	}
	v.K = append(v.K, l)
	return v
}

func (p *cliPlan) Run(w *rt.World, e *Env) {
	fs := simfs.Of(w)
	var in []byte
	args := []string{p.Tool}
	var want string
	lookup := func(g *ogdl.Graph) string {
		// the path of some node that is there
		if p.Dot || g.Len() == 0 {
			return "."
		}
		g = g.Out[len(g.Out)/2]
		s := g.ThisString()
		for g.Len() > 0 && len(s) < 60 {
			g = g.Out[g.Len()-1]
			s += "." + g.ThisString()
		}
		for _, c := range s {
			if !isTok(c) && c != '.' {
				return "."
			}
		}
		return s
	}
	w.ExitOK = true
	main := gpath.Main
	sp, st := w.SlowP, w.Local().StallP
	w.SlowP, w.Local().StallP = 0, 0 // while the outcome is determined
	if len(p.Wild) > 0 {
		e.Hit("edited input")
	}
	switch p.Tool {
	case "gpath":
		s, _ := p.Doc.render(false)
		if p.Rich != "" && len(p.Data) > 0 && p.Data[0] != nil {
			s = dataText(p.Data[0])
		}
		in = []byte(p.edit(s))
		var g *ogdl.Graph
		path := "."
		guard(func() string {
			g = ogdl.FromBytes(in)
			path = lookup(g)
			return ""
		})
		if p.Rich != "" {
			path = string(p.Rich)
		}
		panics := true
		guard(func() string {
			if path != "." {
				g = g.Get(path)
			}
			want = g.Text()
			panics = false
			return ""
		})
		if panics {
			return // what Get and Text do with such graphs is not what is checked here
		}
		if path != "." {
			e.Hit("gpath with a path")
			if p.Rich != "" && g != nil {
				e.Hit("gpath with a path of many parts")
			}
		}
		args = append(args, path)
		if want != "" && want[len(want)-1] != '\n' && want[len(want)-1] != '\r' {
			want += "\n"
		}
	case "gtemplate":
		main = gtemplate.Main
		var b strings.Builder
		template(p.Tpl, &b, ogdl.New("_"))
		tpl := b.String()
		var files []string
		for i, d := range append([]*Doc{p.Doc, p.Doc2}, p.More...) {
			if p.NoData || d == nil || len(d.K) == 0 {
				break
			}
			s, _ := d.render(false)
			if i == 0 {
				s = "v0 of the first file\nv1\n  x y\n" + s
			} else {
				s += fmt.Sprintf("\nv0 of_file_%d\n\"a\" of_file_%d", i, i)
			}
			files = append(files, s)
		}
		if p.Rich != "" {
			tpl, files = string(p.Rich), nil
			for _, d := range p.Data {
				if d == nil {
					return
				}
				if s := dataText(d); s != "" && !p.NoData {
					files = append(files, s)
				}
			}
		}
		tpl = p.edit(tpl)
		fs.Put("/data/t", []byte(tpl))
		args = append(args, "/data/t")
		var data *ogdl.Graph
		for i, s := range files {
			f := fmt.Sprintf("/data/d%d", i)
			fs.Put(f, []byte(s))
			args = append(args, f)
			g := ogdl.FromBytes([]byte(s))
			if i == 0 {
				data = g
			} else {
				data.AddNodes(g)
			}
		}
		if data == nil && !p.NoData {
			return
		}
		if len(args) > 3 {
			e.Hit("gtemplate with several data files")
		}
		if p.NoData {
			e.Hit("gtemplate without data")
		}
		panics := true
		guard(func() string {
			want = string(ogdl.NewTemplate(tpl).Process(data)) + "\n"
			panics = false
			return ""
		})
		if tpl == "" {
			return
		}
		if panics {
			return // what templates do with such data is not what is checked here
		}
		if p.Rich != "" {
			e.Hit("gtemplate with loops, conditions and assignments")
		}
	case "json2ogdl":
		main = json2ogdl.Main
		if p.J == nil {
			return
		}
		in = []byte(p.edit(p.J.text()))
		panics := true
		guard(func() string {
			g, _ := ogdl.FromJSON(in)
			want = g.Text() + "\n"
			panics = false
			return ""
		})
		if panics {
			return
		}
	case "xml2ogdl":
		main = xml2ogdl.Main
		if p.X == nil {
			return
		}
		in = []byte(p.edit(p.X.text()))
		var g *ogdl.Graph
		panics := true
		guard(func() string { g = gxml.FromXML(in); panics = false; return "" })
		if panics || g == nil {
			return
		}
		if p.ID {
			args = append(args, "-id")
		}
		panics = true
		guard(func() string {
			path := lookup(g)
			args = append(args, path)
			if path != "." {
				g = g.Get(path)
			}
			if p.ID && g != nil {
				gxml.Simplify(g)
			}
			if g != nil {
				want = g.Text() + "\n"
			}
			panics = false
			return ""
		})
		if panics || g == nil {
			return // what the library does with such graphs is not what is checked here
		}
		p.File = true
	}
	if p.Tool != "gtemplate" && p.File {
		fs.Put("/data/in", in)
		args = append(args, "/data/in")
	}
	w.SlowP, w.Local().StallP = sp, st
	e.Hit(p.Tool)
	w.Room(4 * len(in) * max(1, p.Times))
	if len(in) > 65536 {
		e.Hit("input of more than 65536 bytes")
	}
	if len(in) > 4096 {
		e.Hit("input of more than 4096 bytes")
	}
	fs.ShortRd = p.ShortRd
	for k := 0; k < max(1, p.Times); k++ {
		os.Args = args
		os.Reopen()
		flag.Reset()
		fs.ResetStd(nil)
		if !p.File && p.Tool != "gtemplate" {
			fs.ResetStd(in)
		}
		e.Ops++
		rt.PrintHook = func(s string) { fs.Stderr = append(fs.Stderr, s...) }
		t := w.Spawn(w.Local(), p.Tool, main)
		w.Join(t, -1)
		rt.PrintHook = nil
		if !bytes.Equal(fs.Stdout, []byte(want)) {
			i := 0
			for i < len(want) && i < len(fs.Stdout) && want[i] == fs.Stdout[i] {
				i++
			}
			w.Fail("output-"+p.Tool, "%s %v: %d bytes of input give %d bytes of output instead of %d; from byte %d on it is %s instead of %s (stderr %q)", p.Tool, args[1:], len(in), len(fs.Stdout), len(want), i, show(string(fs.Stdout[i:])), show(want[i:]), short(string(fs.Stderr)))
		}
	}
}

// ---- C21 ----

// J is a JSON value.
type J struct {
	T string `json:"t"` // o a s n b z
	S Str    `json:"s,omitempty"`
	K []*J   `json:"k,omitempty"`
	N Str    `json:"n,omitempty"` // name within an object
}

func genJ(r *rt.Rand, target int) *J {
	root := &J{T: "o"}
	wide := r.Intn(5) == 0
	all := []*J{root}
	for i, size := 0, 0; size < target || i < 2; i++ {
		p := all[len(all)-1-r.Intn(min(len(all), 5))]
		if wide {
			p = all[r.Intn(min(len(all), 2))]
		}
		j := &J{T: []string{"o", "o", "a", "a", "s", "s", "n", "b", "z"}[r.Intn(9)], N: Str(fmt.Sprintf("k%d", i))}
		if r.Intn(4) == 0 {
			j.N = Str([]string{"a", "b", "B", "é", "x y", "z" + string(j.N), "0", "_"}[r.Intn(8)])
		}
		switch j.T {
		case "s":
			j.S = Str([]string{"v", "text ", "é", "日本", "", "1", "true"}[r.Intn(7)] + fmt.Sprintf("#%d#", i))
			if r.Intn(12) == 0 {
				j.S += Str(pad(r.Intn(3000)))
			} else if target > 500 && r.Intn(400) == 0 {
				j.S += Str(pad(hugeLen(r)))
			}
		case "n":
			j.S = Str([]string{"0", "-1", "3.5", "1e3", "12345678", "-0", "9223372036854775807", "9223372036854775808", "-1e999", "1E-400", "0.1e+2", "123456789012345678901234567890", fmt.Sprint(i)}[r.Intn(13)])
		case "b":
			j.S = Str([]string{"true", "false"}[r.Intn(2)])
		default:
			if j.T != "z" {
				all = append(all, j)
			}
		}
		p.K = append(p.K, j)
		size += len(j.S) + len(j.N) + 6
	}
	return root
}

func (j *J) text() string {
	var b strings.Builder
	j.write(&b)
	return b.String()
}

func (j *J) write(b *strings.Builder) {
	switch j.T {
	case "o":
		b.WriteString("{")
		seen := map[string]bool{}
		for i, k := range j.K {
			n := string(k.N)
			for seen[n] {
				n += "'"
			}
			seen[n] = true
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(quoteJSON(n) + ": ")
			k.write(b)
		}
		b.WriteString("}")
	case "a":
		b.WriteString("[")
		for i, k := range j.K {
			if i > 0 {
				b.WriteString(",\n ")
			}
			k.write(b)
		}
		b.WriteString("]")
	case "s":
		b.WriteString(quoteJSON(string(j.S)))
	case "n", "b":
		if j.S == "" {
			b.WriteString("0")
		} else if j.S[0] == 'a' {
			b.WriteString("1")
		} else {
			b.WriteString(string(j.S))
		}
	default:
		b.WriteString("null")
	}
}

func quoteJSON(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		if c == '"' || c == '\\' {
			b.WriteByte('\\')
		}
		if c < 32 {
			c = '_'
		}
		b.WriteRune(c)
	}
	b.WriteByte('"')
	return b.String()
}

// X is an XML element or text.
type X struct {
	N  string   `json:"n"` // "" = text
	ID string   `json:"id"`
	S  Str      `json:"s,omitempty"`
	A  []string `json:"a,omitempty"`
	K  []*X     `json:"k,omitempty"`
}

func genX(r *rt.Rand, target int) *X {
	root := &X{N: "root"}
	wide := r.Intn(5) == 0
	all := []*X{root}
	for i, size := 0, 0; size < target || i < 2; i++ {
		p := all[len(all)-1-r.Intn(min(len(all), 5))]
		if wide {
			p = all[r.Intn(min(len(all), 2))]
		}
		x := &X{ID: fmt.Sprint(i)}
		if r.Intn(3) == 0 {
			x.S = Str([]string{"v", "text ", "é", "日本", "a\nb", "&"}[r.Intn(6)] + fmt.Sprintf("#%d#", i))
			if r.Intn(12) == 0 {
				x.S += Str(pad(r.Intn(3000)))
			} else if target > 500 && r.Intn(400) == 0 {
				x.S += Str(pad(hugeLen(r)))
			}
		} else {
			x.N = []string{"a", "b", "item", "p", "é", "x-y", "field", fmt.Sprintf("e%d", i)}[r.Intn(8)]
			for k := r.Intn(4); k > 0; k-- {
				x.A = append(x.A, []string{"id", "name", "z", "A", "k-l", "ü"}[r.Intn(6)])
			}
			if r.Intn(40) == 0 {
				for k := 5 + r.Intn(40); k > 0; k-- {
					x.A = append(x.A, fmt.Sprintf("a%d", r.Intn(100)))
				}
			}
			all = append(all, x)
		}
		p.K = append(p.K, x)
		size += len(x.S) + 2*len(x.N) + 8*len(x.A) + 5
	}
	return root
}

// noField renames elements that only gxml.Simplify treats in a special way.
func noField(x *X) {
	if x.N == "field" {
		x.N = "item"
	}
	for _, k := range x.K {
		noField(k)
	}
}

func escapeXML(s string) string {
	s = strings.ReplaceAll(s, "&", "&amp;")
	s = strings.ReplaceAll(s, "<", "&lt;")
	return strings.ReplaceAll(s, "\"", "&quot;")
}

func (x *X) text() string {
	var b strings.Builder
	b.WriteString("<?xml version=\"1.0\"?>\n")
	x.write(&b)
	return b.String()
}

func (x *X) write(b *strings.Builder) {
	if x.N == "" {
		b.WriteString(escapeXML(string(x.S)))
		return
	}
	b.WriteString("<" + x.N)
	seen := map[string]bool{}
	for i, a := range x.A {
		if !seen[a] {
			fmt.Fprintf(b, " %s=\"v#%s.%d#\"", a, x.ID, i)
		}
		seen[a] = true
	}
	if len(x.K) == 0 {
		b.WriteString("/>")
		return
	}
	b.WriteString(">")
	for i, k := range x.K {
		if i > 0 && k.N == "" && x.K[i-1].N == "" {
			b.WriteString("<br/>")
		}
		k.write(b)
	}
	b.WriteString("</" + x.N + ">\n")
}

// marks numbers the marks #n# in a graph in the order they are met.
func marks(g *ogdl.Graph, at map[string]int) {
	for _, n := range g.Out {
		s, _ := asBytes(n.This)
		if i := strings.IndexByte(s, '#'); i >= 0 {
			if j := strings.IndexByte(s[i+1:], '#'); j > 0 {
				m := s[i : i+j+2]
				if _, ok := at[m]; !ok {
					at[m] = len(at)
				}
			}
		}
		marks(n, at)
	}
}

var markRE = regexp.MustCompile("#[0-9.]+#")

// distinct tells if no mark is there twice, which minimisation may bring about.
func distinct(s string) bool {
	seen := map[string]bool{}
	for _, m := range markRE.FindAllString(s, -1) {
		if seen[m] {
			return false
		}
		seen[m] = true
	}
	return true
}

// span gives the first and last position of the marks of a value.
func (j *J) span(at map[string]int) (lo, hi int, missing string) {
	lo, hi = 1<<30, -1
	if j.T == "s" {
		i := strings.IndexByte(string(j.S), '#')
		k := strings.LastIndexByte(string(j.S), '#')
		if i < 0 || k <= i {
			return
		}
		p, ok := at[string(j.S)[i:k+1]]
		if !ok {
			return lo, hi, string(j.S)[i : k+1]
		}
		return p, p, ""
	}
	if j.T == "o" || j.T == "a" {
		for _, c := range j.K {
			l, h, m := c.span(at)
			if m != "" {
				return lo, hi, m
			}
			lo, hi = min(lo, l), max(hi, h)
		}
	}
	return
}

// order checks that list elements are in the order of the document.
func (j *J) order(at map[string]int) string {
	last := -1
	for i, c := range j.K {
		if j.T == "a" {
			lo, hi, m := c.span(at)
			if m != "" {
				return fmt.Sprintf("the string %s in a list is not there", m)
			}
			if hi >= 0 {
				if lo < last {
					return fmt.Sprintf("element %d of a list of %d is before an earlier one", i, len(j.K))
				}
				last = hi
			}
		}
		if j.T == "o" || j.T == "a" {
			if d := c.order(at); d != "" {
				return d
			}
		}
	}
	return ""
}

// marks lists the marks of an XML document in its order.
func (x *X) marks(ms *[]string) {
	if x.N == "" {
		i := strings.IndexByte(string(x.S), '#')
		k := strings.LastIndexByte(string(x.S), '#')
		if i >= 0 && k > i {
			*ms = append(*ms, string(x.S)[i:k+1])
		}
		return
	}
	seen := map[string]bool{}
	for i, a := range x.A {
		if !seen[a] {
			*ms = append(*ms, fmt.Sprintf("#%s.%d#", x.ID, i))
		}
		seen[a] = true
	}
	for _, k := range x.K {
		k.marks(ms)
	}
}

func (x *X) order(at map[string]int) string {
	var ms []string
	x.marks(&ms)
	for i, m := range ms {
		p, ok := at[m]
		if !ok {
			return fmt.Sprintf("the text %s of the document is not there", m)
		}
		if i > 0 && p < at[ms[i-1]] {
			return fmt.Sprintf("the text %s is before %s, which comes first in the document", m, ms[i-1])
		}
	}
	return ""
}

type importPlan struct {
	Common
	Docs  []*J  `json:"json,omitempty"`
	Xs    []*X  `json:"xml,omitempty"`
	Order []int `json:"order"`
	Par   bool  `json:"par,omitempty"`
	// Edits of the documents, which may then be malformed; what they give must still be the same every time.
	Wild []wild `json:"wild,omitempty"`
}

func (p *importPlan) edit(s string) []byte {
	for _, x := range p.Wild {
		s = x.apply(s)
	}
	return []byte(s)
}

func genC21(r *rt.Rand, run int) Plan {
	p := &importPlan{}
	p.Maps = true
	p.MeanGap = []int{0, 0, 50}[r.Intn(3)]
	for k := 1 + r.Intn(2); k > 0; k-- {
		t := r.Intn(400)
		if r.Intn(12) == 0 {
			t = 500 + r.Intn(4000)
		}
		p.Docs = append(p.Docs, genJ(r, t))
		p.Xs = append(p.Xs, genX(r, t))
	}
	for k := 4 + r.Intn(6); k > 0; k-- {
		p.Order = append(p.Order, r.Intn(4))
	}
	p.Par = r.Intn(3) == 0
	if r.Intn(4) == 0 {
		p.Wild = genWild(r)
		if r.Intn(2) == 0 {
			p.Wild = p.Wild[:1]
		}
	}
	return p
}

func (p *importPlan) Run(w *rt.World, e *Env) {
	first := map[int]*ogdl.Graph{}
	ended := map[int]string{}
	one := func(o int, what string) {
		e.Ops++
		var g *ogdl.Graph
		var d, why string
		if o%2 == 0 {
			if len(p.Docs) == 0 {
				return
			}
			j := p.Docs[o/2%len(p.Docs)]
			o = o / 2 % len(p.Docs) * 2
			var err error
			doc := p.edit(j.text())
			w.Room(len(doc))
			if len(p.Wild) > 0 {
				why = guard(func() string {
					g, err = ogdl.FromJSON(doc)
					return fmt.Sprint(err)
				})
			} else {
				g, err = ogdl.FromJSON(doc)
			}
			scribble(doc)
			if len(p.Wild) > 0 {
				e.Hit("edited_document")
			} else if err != nil || g == nil {
				w.Fail("json-error", "FromJSON of a valid document fails: %v\n%s", err, short(j.text()))
			}
			at := map[string]int{}
			if g != nil {
				marks(g, at)
			}
			if len(p.Wild) == 0 && distinct(j.text()) {
				d = j.order(at)
			}
		} else {
			if len(p.Xs) == 0 {
				return
			}
			x := p.Xs[o/2%len(p.Xs)]
			o = o/2%len(p.Xs)*2 + 1
			doc := p.edit(x.text())
			w.Room(len(doc))
			if len(p.Wild) > 0 {
				why = guard(func() string { g = gxml.FromXML(doc); return "" })
			} else {
				g = gxml.FromXML(doc)
			}
			scribble(doc)
			if g == nil && len(p.Wild) == 0 {
				w.Fail("xml-nil", "FromXML of a valid document gives nil\n%s", short(x.text()))
			}
			at := map[string]int{}
			if g != nil {
				marks(g, at)
			}
			if len(p.Wild) == 0 && distinct(x.text()) {
				d = x.order(at)
			}
		}
		kind := []string{"json", "xml"}[o%2]
		if d != "" {
			w.Fail(kind+"-order", "%s%s: %s", kind, what, d)
		}
		if f, ok := first[o]; !ok {
			first[o], ended[o] = deepCopy(g), why
		} else if why != ended[o] {
			w.Fail(kind+"-end", "%s%s: the same document ended with %q before and ends with %q now", kind, what, ended[o], why)
		} else {
			e.Hit("converted again")
			if d := sameGraph(g, f); d != "" {
				w.Fail(kind+"-differs", "%s%s: the same document gives another graph than before: %s", kind, what, d)
			}
		}
		spoil(g)
	}
	var ts []*rt.Task
	if p.Par {
		ts = append(ts, w.Spawn(w.Local(), "other", func() {
			for i := range p.Order {
				one(p.Order[len(p.Order)-1-i], " (other task)")
			}
		}))
	}
	for _, o := range p.Order {
		one(o, "")
	}
	for _, t := range ts {
		w.Join(t, -1)
	}
}

func init() {
	register(&Prop{ID: "C10", Quick: 120000, Thor: 1200000, New: func() Plan { return &filePlan{} }, Gen: genC10,
		Real: []string{"parser.go (FromFile)", "binary.go (FromBinaryFile)", "lexer.go", "block.go", "event.go"},
		Stub: []string{"os and ioutil: simulated files, with short reads, failing opens and reads, and replacement of files during loading"},
		Rule: "One run loads up to 4 files (text or binary, intact, cut off, empty, missing or a directory) up to 6 times, also from several tasks at once, while opens and reads fail and files are replaced; every result is the graph of one whole version or nil, and nil only if something failed; no file is left open.",
		Note: []string{"a binary file holds one object"}})
	register(&Prop{ID: "C11", Quick: 80000, Thor: 800000, New: func() Plan { return &cliPlan{} }, Gen: genC11,
		Real: []string{"cmd/gpath", "cmd/gtemplate", "cmd/json2ogdl", "cmd/xml2ogdl", "the library functions they call", "encoding/json, encoding/xml, golang.org/x/text"},
		Stub: []string{"os, flag, fmt output and ioutil: simulated standard input and files delivering pieces, output captured"},
		Rule: "One run executes the main function of one tool on a generated input from standard input or files (gtemplate: none to eight data files), up to megabytes, some edited (also malformed) or repeated, with reads returning pieces; the output must be what the library functions give for the whole input.",
		Note: []string{"read errors are not injected: the property is about delivery in pieces", "xml2ogdl -id is compared with gxml.Simplify on documents without <field name=...>"}})
	register(&Prop{ID: "C21", Quick: 160000, Thor: 1600000, New: func() Plan { return &importPlan{} }, Gen: genC21,
		Real: []string{"encoding.go (FromJSON)", "io/gxml/xml.go", "graph.go", "encoding/json, encoding/xml, golang.org/x/text"},
		Stub: []string{"the order in which the instrumented code iterates over maps (chosen by the simulator at every iteration)"},
		Rule: "One run converts up to 4 documents several times in random order, also in two tasks at once, with a fresh map order every time; results for the same document must be equal, and lists and elements in the order of the document.",
		Note: []string{"the order of map iterations inside encoding/json is not controlled (it sorts nothing it returns by map order; results are values)"}})
}
