package hscan

import (
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/yields/ant"
	"github.com/yields/ant/zverif/mc"
)

// fill is the reference scan of n into v.
func fill(v reflect.Value, n *node, sel, attr string) {
	first := func() *node {
		if n == nil || sel == "" {
			return n
		}
		if r := find(n, sel); len(r) > 0 {
			return r[0]
		}
		return nil
	}
	value := func() string {
		e := first()
		if attr != "" {
			s, _ := e.attr(attr)
			return s
		}
		return e.innerText()
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString(value())
	case reflect.Int:
		i, err := strconv.ParseInt(value(), 10, 64)
		if err != nil && !errors.Is(err, strconv.ErrRange) {
			i = 0
		}
		v.SetInt(i)
	case reflect.Uint:
		i, err := strconv.ParseUint(value(), 10, 64)
		if err != nil && !errors.Is(err, strconv.ErrRange) {
			i = 0
		}
		v.SetUint(i)
	case reflect.Float32, reflect.Float64:
		f, err := strconv.ParseFloat(value(), 64)
		if err != nil && !errors.Is(err, strconv.ErrRange) {
			f = 0
		}
		v.SetFloat(f)
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			v.SetBytes([]byte(value()))
			return
		}
		v.Set(reflect.Zero(v.Type()))
		if n == nil {
			return
		}
		for _, e := range find(n, sel) {
			el := reflect.New(v.Type().Elem()).Elem()
			fill(el, e, "", attr)
			v.Set(reflect.Append(v, el))
		}
	case reflect.Struct:
		e := first()
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			tag := f.Tag.Get("css")
			if !f.IsExported() || tag == "" || tag == "-" {
				continue
			}
			s, a, _ := strings.Cut(tag, "@")
			fill(v.Field(i), e, s, a)
		}
	default:
		panic(v.Kind())
	}
}

// The types: new returns a pointer to a zero value, dirty to one whose fields
// are all set.
type target struct {
	name  string
	new   func() any
	dirty func() any
}

func targetOf[T any](name string, dirty T) target {
	return target{name, func() any { return new(T) }, func() any { v := dirty; return &v }}
}

type inner struct {
	Y string `css:"y"`
	K string `css:"x@k"`
}

type deep struct {
	X    string `css:"x"`
	Keep string
}

// Deep is embedded.
type Deep deep

type middle struct {
	M    deep `css:"y"`
	Keep int
}

type withSlice struct {
	Ys []uint `css:"y@k"`
	T  string `css:"y"`
}

func targets() []target {
	return []target{
		targetOf("scalars", struct {
			X string  `css:"x"`
			Y int     `css:"y"`
			U uint    `css:"y"`
			F float64 `css:"x"`
		}{"old", 77, 78, 7.5}),
		targetOf("attributes", struct {
			X string  `css:"x@k"`
			Y int     `css:"y@k"`
			U uint    `css:"x@k"`
			F float32 `css:"y@k"`
			N string  `css:"x@none"`
		}{"old", 77, 78, 7.5, "old"}),
		targetOf("slices", struct {
			Xs []string  `css:"x"`
			Is []int     `css:"y"`
			Ks []string  `css:"x@k"`
			Us []uint    `css:"y@k"`
			Fs []float64 `css:"x,y"`
			Bs [][]byte  `css:"y"`
		}{[]string{"old"}, []int{7, 7, 7, 7, 7}, []string{"old"}, []uint{7}, nil, [][]byte{{7}}}),
		targetOf("bytes", struct {
			B []byte `css:"x"`
			K []byte `css:"y@k"`
		}{[]byte("old old old"), []byte("k")}),
		targetOf("nested", struct {
			N    inner `css:"x"`
			Keep string
		}{inner{"old", "old"}, "keep"}),
		targetOf("nested y", struct {
			A string `css:"x"`
			N inner  `css:"y"`
			Z string `css:"y"`
		}{"old", inner{"old", "old"}, "old"}),
		targetOf("nested twice", struct {
			N    middle `css:"x"`
			Keep float64
		}{middle{deep{"old", "keep"}, 3}, 1.5}),
		targetOf("slice of structs", struct {
			Ns []inner `css:"x"`
		}{[]inner{{"old", "old"}}}),
		targetOf("slice of structs in struct", struct {
			N struct {
				Ns []inner `css:"y"`
				X  string  `css:"x"`
			} `css:"x"`
		}{}),
		targetOf("struct with slice", struct {
			N withSlice `css:"x"`
		}{withSlice{[]uint{7}, "old"}}),
		targetOf("slice of structs with slices", struct {
			Ns []withSlice `css:"x"`
		}{[]withSlice{{[]uint{7}, "old"}, {}}}),
		targetOf("slice of structs with structs", struct {
			Ns []struct {
				M deep   `css:"y"`
				Z string `css:"y@k"`
			} `css:"x"`
		}{}),
		targetOf("untagged", struct {
			X string `css:"x"`
			U string
			I int    `json:"i"`
			D string `css:"-"`
			E string `css:""`
			S []string
			M map[string]int
			N deep
			p int
		}{"old", "keep", 3, "dash", "empty", []string{"keep"}, map[string]int{"keep": 1}, deep{"keep", "keep"}, 9}),
		targetOf("combinators", struct {
			D string   `css:"x y"`
			C string   `css:"x > y"`
			O string   `css:"y, x"`
			A string   `css:"y[k]"`
			L []string `css:"x > x, y"`
		}{}),
		targetOf("unexported", struct {
			x     string `css:"x"`
			N     inner  `css:"x"`
			y     int    `css:"y"`
			inner `css:"x"`
			Deep  `css:"y"`
			q     bool   `css:"--"`
			Z     string `css:"y"`
		}{"old", inner{"old", "old"}, 3, inner{"old", "old"}, Deep{"old", "keep"}, true, "old"}),
		targetOf("string", "old"),
		targetOf("int", 77),
		targetOf("float", 7.5),
		targetOf("bytes alone", []byte("old")),
	}
}

var kinds = []kind{
	{name: "x"}, {name: "y"},
	{name: "x", text: "3"}, {name: "y", text: "4", tail: "5"},
	{name: "x", text: "w", attrs: [][2]string{{"k", "6"}}}, {name: "y", attrs: [][2]string{{"k", "-8"}}, tail: "1.5"},
	{name: "x", text: "-2", com: true, attrs: [][2]string{{"k", ""}}},
	{name: "y", text: "2.25", attrs: [][2]string{{"k", "v"}}},
}

type turnA struct {
	X string  `css:"x"`
	B []turnB `css:"y"`
}

type turnB struct {
	X string  `css:"x"`
	A []turnA `css:"y"`
}

func init() {
	scan := func(max int) func(x *mc.X) {
		return func(x *mc.X) {
			ts := targets()
			t := ts[x.Choose(len(ts), "type")]
			dirty := x.Flag("dirty")
			mode := x.Choose(2, "from")
			doc, html := forest(x, max, kinds)
			got, want := t.new(), t.new()
			if dirty {
				got, want = t.dirty(), t.dirty()
			}
			p := page(x, "http://h.test/", html)
			var err error
			switch mode {
			case 0:
				err = p.Scan(got)
				fill(reflect.ValueOf(want).Elem(), doc.node, "", "")
			case 1:
				// Scanning a list uses its first element.
				var l ant.List = p.Query("y")
				err = l.Scan(got)
				if r := find(doc.node, "y"); len(r) > 0 {
					fill(reflect.ValueOf(want).Elem(), r[0], "", "")
				}
			}
			x.Check(err == nil, "error", "%s: %s: %v", t.name, html, err)
			g, w := fmt.Sprintf("%+v", reflect.ValueOf(got).Elem()), fmt.Sprintf("%+v", reflect.ValueOf(want).Elem())
			x.State(html)
			x.Step(1)
			x.Obs("%s %s", t.name, g)
			if len(doc.all()) > 4 {
				x.NonTrivial()
			}
			x.Check(same(reflect.ValueOf(got).Elem(), reflect.ValueOf(want).Elem()), "wrong value", "%s scanned from %s is %s, want %s", t.name, html, g, w)
		}
	}
	add(&mc.Scenario{Name: "scan/2", Prop: "C30", Tree: true, Run: scan(2)})
	add(&mc.Scenario{Name: "scan/3", Prop: "C30", Tree: true, Run: scan(3)})
	add(&mc.Scenario{Name: "scan/4", Prop: "C30", Tree: true, Quick: mc.Bound{Skip: true}, Thorough: mc.Bound{Dev: 1}, Run: scan(4)})

	// Every value in every type, from the text and from the attribute.
	add(&mc.Scenario{Name: "scan/values", Prop: "C30", Tree: true, Run: func(x *mc.X) {
		type values struct {
			S  string    `css:"x"`
			I  int       `css:"x"`
			U  uint      `css:"x"`
			F  float64   `css:"x"`
			G  float32   `css:"x"`
			B  []byte    `css:"x"`
			As string    `css:"x@k"`
			Ai int       `css:"x@k"`
			Au uint      `css:"x@k"`
			Af float64   `css:"x@k"`
			Ag float32   `css:"x@k"`
			Ab []byte    `css:"x@k"`
			Is []int     `css:"x"`
			Us []uint    `css:"x"`
			Fs []float64 `css:"x"`
			Gs []float32 `css:"x@k"`
			Bs [][]byte  `css:"x@k"`
		}
		vs := []string{"", "0", "-0", "7", "+7", "-7", "007", "0x1F", "0b1", "1_000", " 7", "7 ", "\t7\n", "7a", "a7", "1.5", "-1.5", ".5", "5.", "1e3", "1E-3", "1e", "inf", "-Inf", "nan", "0x1p4",
			"127", "128", "255", "256", "-128", "-129", "32768", "65536", "2147483647", "2147483648", "-2147483649", "4294967295", "4294967296",
			"4611686018427387904", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
			"99999999999999999999999", "-99999999999999999999999", "16777217", "9007199254740993", "0.1", "3.4e38", "1e39", "1e308", "1e309", "-1e309", "1e-50", "1e-400", "\u0663", "\uff17", "true", "null", "--7", "7-", "7,5", "$7", "%37", "a b", "\u00e9", "\u65e5\u672c", "a\u00a0b"}
		a, b := vs[x.Choose(len(vs), "text")], vs[x.Choose(len(vs), "attribute")]
		html := "<x k=\"" + b + "\">" + a + "</x>"
		doc := &node{kids: []*node{{name: "x", attrs: [][2]string{{"k", b}}, text: a}}}
		got, want := values{}, values{}
		if x.Flag("dirty") {
			got = values{"old", 77, 77, 77, 77, []byte("old"), "old", 77, 77, 77, 77, []byte("old"), []int{7}, []uint{7}, nil, []float32{7, 7}, [][]byte{{7}}}
		}
		p := page(x, "http://h.test/", html)
		err := p.Scan(&got)
		fill(reflect.ValueOf(&want).Elem(), doc, "", "")
		x.Check(err == nil, "error", "%s: %v", html, err)
		x.Obs("%.12q %.12q", a, b)
		x.NonTrivial()
		x.Step(1)
		g, w := fmt.Sprintf("%+v", got), fmt.Sprintf("%+v", want)
		x.Check(g == w, "wrong value", "scanned from %s is %s, want %s", html, g, w)
	}})

	// What a scan filled stays as it is when the same destination is filled
	// again, and new elements have nothing of the old ones.
	add(&mc.Scenario{Name: "scan/kept", Prop: "C30", Tree: true, Run: func(x *mc.X) {
		type elem struct {
			S    string   `css:"y"`
			Ks   []string `css:"y@k"`
			Keep string
		}
		type all struct {
			Ss []string  `css:"y"`
			Is []int     `css:"y@k"`
			Us []uint    `css:"y@k"`
			Fs []float64 `css:"y@k"`
			Es []elem    `css:"x"`
			Bs [][]byte  `css:"y"`
			B  []byte    `css:"x"`
			N  struct {
				Ss []string `css:"y"`
			} `css:"x"`
		}
		docs := []string{"", "<x><y k=1>a</y></x>", "<x><y k=2>b</y><y k=3>c</y></x><x><y k=4>d</y></x>", "<x>long text of x<y k=5>e</y><y k=6>f</y><y k=7>g</y></x><x></x><x><y k=8>h</y></x>", "<y k=9>i</y>"}
		var v all
		var kept []all
		var was []string
		show := func(a all) string { return fmt.Sprintf("%+v", a) }
		var seq []int
		for i := 0; i < 3; i++ {
			k := x.Choose(len(docs), "document")
			seq = append(seq, k)
			p := page(x, "http://h.test/", docs[k])
			if err := p.Scan(&v); !x.Check(err == nil, "error", "%v", err) {
				return
			}
			var fresh all
			if err := page(x, "http://h.test/", docs[k]).Scan(&fresh); !x.Check(err == nil, "error", "%v", err) {
				return
			}
			x.Check(show(v) == show(fresh), "wrong value", "documents %v scanned one after the other give %s, alone the last gives %s", seq, show(v), show(fresh))
			for j, o := range kept {
				x.Check(show(o) == was[j], "changed", "the result of document %d of %v was %s and changed to %s", j, seq, was[j], show(o))
			}
			kept = append(kept, v)
			was = append(was, show(v))
			for j := range v.Es {
				v.Es[j].Keep = "set by the caller"
			}
			was[i] = show(v)
			x.State(was[i])
		}
		x.Step(3)
		x.NonTrivial()
		x.Obs("%v", seq)
	}})

	// What cannot be scanned is an error, before and after it was tried once,
	// and harmless to others.
	type recursive struct {
		X    string      `css:"x"`
		Subs []recursive `css:"y"`
	}
	type mutualA struct {
		B []struct {
			A []recursive `css:"x"`
		} `css:"y"`
	}
	// Types of one name.
	sameName := func(k int) any {
		switch k {
		case 0:
			type item struct {
				X string `css:"x"`
			}
			return &item{}
		case 1:
			type item struct {
				Y string `css:"y"`
				X string `css:"x"`
			}
			return &item{}
		}
		type item struct {
			X string `css:"y"`
		}
		return &item{}
	}
	add(&mc.Scenario{Name: "scan/names", Prop: "C30", Tree: true, Doc: "types of one name, in all orders", Run: func(x *mc.X) {
		p := page(x, "http://h.test/", "<x>1</x><y>2</y>")
		for i := 0; i < 4; i++ {
			k := x.Choose(3, "type")
			v := sameName(k)
			err := p.Scan(v)
			want := []string{"&{1}", "&{2 1}", "&{2}"}[k]
			x.Check(err == nil && fmt.Sprint(v) == want, "wrong value", "type %d: %v %v, want %s", k, v, err, want)
		}
		x.NonTrivial()
	}})
	type good struct {
		X string `css:"x"`
	}
	bad := []struct {
		name string
		dst  func() any
	}{
		{"bool", func() any {
			return &struct {
				B bool `css:"x"`
			}{}
		}},
		{"map", func() any {
			return &struct {
				B map[string]string `css:"x"`
			}{}
		}},
		{"channel", func() any {
			return &struct {
				B chan int `css:"x"`
			}{}
		}},
		{"function", func() any {
			return &struct {
				B func() `css:"x"`
			}{}
		}},
		{"interface", func() any {
			return &struct {
				B any `css:"x"`
			}{}
		}},
		{"slice of bools", func() any {
			return &struct {
				B []bool `css:"x"`
			}{}
		}},
		{"complex", func() any {
			return &struct {
				G string     `css:"x"`
				B complex128 `css:"x"`
			}{}
		}},
		{"bad selector", func() any {
			return &struct {
				G string `css:"x"`
				B string `css:"--"`
			}{}
		}},
		{"bad selector in slice", func() any {
			return &struct {
				B []string `css:"["`
			}{}
		}},
		{"bad selector in nested struct", func() any {
			return &struct {
				B []struct {
					C string `css:"x >"`
				} `css:"x"`
			}{}
		}},
		{"no tags", func() any { return &struct{ B string }{} }},
		{"slice of slices", func() any {
			return &struct {
				B [][]string `css:"x"`
			}{}
		}},
		{"slice without selector", func() any { return &[]string{} }},
		{"slice of structs without selector", func() any { return &[]good{} }},
		{"recursive", func() any { return &recursive{} }},
		{"recursive in slice", func() any { return &mutualA{} }},
		{"recursive in turns", func() any { return &turnA{} }},
		{"bool alone", func() any { b := false; return &b }},
		{"map alone", func() any { return &map[string]string{} }},
		{"not a pointer: string", func() any { return "" }},
		{"not a pointer: struct", func() any { return good{} }},
		{"not a pointer: map", func() any { return map[string]string{} }},
		{"nil", func() any { return nil }},
		{"nil pointer", func() any { return (*good)(nil) }},
	}
	add(&mc.Scenario{Name: "scan/refused", Prop: "C30", Tree: true, Run: func(x *mc.X) {
		b := bad[x.Choose(len(bad), "type")]
		doc := mc.Pick(x, "document", "", "<x>1</x>", "<y><x>1</x><y><x>2</x></y></y>", "<x k=1><x>2</x></x>")
		list := x.Flag("list")
		p := page(x, "http://h.test/", doc)
		x.NonTrivial()
		var l ant.List = p.Query("html")
		for i := 0; i < 2; i++ {
			var err error
			if list {
				err = l.Scan(b.dst())
			} else {
				err = p.Scan(b.dst())
			}
			x.Obs("%s", b.name)
			x.Check(err != nil, "accepted", "scanning %s from %q is no error", b.name, doc)
		}
		var g good
		err := p.Scan(&g)
		want := ""
		if s, ok := strings.CutPrefix(doc, "<x>"); ok {
			want = s[:1]
		}
		x.Check(err == nil && (want == "" || g.X == want), "affects others", "%s: then %+v %v", b.name, g, err)
	}})
}

// same compares values; empty and nil byte slices are the same.
func same(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() || a.Type().Elem().Kind() != reflect.Uint8 && a.IsNil() != b.IsNil() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		return a.Len() == b.Len() && fmt.Sprint(a) == fmt.Sprint(b)
	}
	return a.Equal(b)
}
