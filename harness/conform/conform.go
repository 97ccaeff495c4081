// Package conform drives compiled generated parsers and compares what they do
// with the reference meaning. It is linked into a program together with the
// generated packages.
package conform

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strings"

	"github.com/mmcloughlin/trunnel/verif/interp"
	"github.com/mmcloughlin/trunnel/verif/model"
	"github.com/mmcloughlin/trunnel/verif/report"
	"github.com/mmcloughlin/trunnel/verif/specgen"
)

// Spec is a specification handed over from the generating stage.
type Spec struct {
	Files []*model.File
	Texts []string
}

// Plan is the hand-over file.
type Plan struct {
	ID    string
	Specs []Spec
	// Counters measured by the generating stage.
	Counters map[string]int64
}

type typ struct {
	ptr  reflect.Type  // *T
	ctor reflect.Value // ParseT
}

type entry struct {
	types map[string]typ
	ctxs  map[string]reflect.Type
	funcs map[string]interface{}
}

var registry = map[int]*entry{}

func get(spec int) *entry {
	e := registry[spec]
	if e == nil {
		e = &entry{types: map[string]typ{}, ctxs: map[string]reflect.Type{}, funcs: map[string]interface{}{}}
		registry[spec] = e
	}
	return e
}

// Struct registers a generated type and its constructor.
func Struct(spec int, name string, ptr, ctor interface{}) {
	get(spec).types[name] = typ{reflect.TypeOf(ptr), reflect.ValueOf(ctor)}
}

// Context registers a generated context type.
func Context(spec int, name string, v interface{}) {
	get(spec).ctxs[name] = reflect.TypeOf(v)
}

// Func registers some other generated function.
func Func(spec int, name string, f interface{}) {
	get(spec).funcs[name] = f
}

// target is a struct of a specification with its generated parser.
type target struct {
	spec int
	src  *Spec
	env  *interp.Env
	s    *model.Struct
	t    typ
	e    *entry
}

func (t *target) String() string {
	return fmt.Sprintf("struct %s of\n%s", t.s.Name, strings.Join(t.src.Texts, "\n--- next file\n"))
}

func loadPlan() *Plan {
	b, err := os.ReadFile(os.Getenv("VERIF_PLAN"))
	if err != nil {
		report.Fatal("%v", err)
	}
	p := &Plan{}
	if err := json.Unmarshal(b, p); err != nil {
		report.Fatal("%v", err)
	}
	return p
}

func targets(p *Plan) []*target {
	var ts []*target
	for i := range p.Specs {
		e := registry[i]
		if e == nil {
			continue
		}
		env := interp.NewEnv(p.Specs[i].Files...)
		for _, s := range env.Order {
			ts = append(ts, &target{spec: i, src: &p.Specs[i], env: env, s: s, t: e.types[s.Name], e: e})
		}
	}
	return ts
}

// guard is an input buffer with canaries on both sides; the slice handed out
// has capacity beyond its length.
type guard struct {
	full, copy []byte
	data       []byte
}

const margin = 24

func newGuard(in []byte) *guard {
	g := &guard{full: make([]byte, margin+len(in)+margin)}
	for i := range g.full {
		g.full[i] = byte(0xA5 ^ i*7)
	}
	copy(g.full[margin:], in)
	g.copy = append([]byte{}, g.full...)
	g.data = g.full[margin : margin+len(in) : len(g.full)]
	return g
}

func (g *guard) intact() bool { return string(g.full) == string(g.copy) }

// run is what a generated parser did.
type run struct {
	obj  reflect.Value // *T after the method
	rest []byte
	err  error
	ctor reflect.Value // result of the constructor
	cerr error
	data []byte
}

func (t *target) args(data []byte, ctx interp.Ctx) []reflect.Value {
	args := []reflect.Value{reflect.ValueOf(data)}
	for _, c := range t.s.Ctxs {
		v := reflect.New(t.e.ctxs[c]).Elem()
		for f, x := range ctx[c] {
			v.FieldByName(specgen.GoName(f)).SetUint(x)
		}
		args = append(args, v)
	}
	return args
}

func (t *target) parseInto(obj reflect.Value, data []byte, ctx interp.Ctx) (rest []byte, err error) {
	out := obj.MethodByName("Parse").Call(t.args(data, ctx))
	rest, _ = out[0].Interface().([]byte)
	err, _ = out[1].Interface().(error)
	return
}

func (t *target) construct(data []byte, ctx interp.Ctx) (reflect.Value, error) {
	out := t.t.ctor.Call(t.args(data, ctx))
	err, _ := out[1].Interface().(error)
	return out[0], err
}

func (t *target) fresh() reflect.Value { return reflect.New(t.t.ptr.Elem()) }

// compare checks a generated object against the reference one. With zero,
// members the input does not define have to be zero.
func compare(env *interp.Env, obj reflect.Value, o *interp.Object, zero bool) string {
	if obj.Kind() != reflect.Ptr || obj.IsNil() {
		return "nested struct " + o.Type + " is nil"
	}
	v := obj.Elem()
	var walk func(ms []*model.Member) string
	walk = func(ms []*model.Member) string {
		for _, m := range ms {
			switch m.Kind {
			case model.Union:
				for _, c := range m.Cases {
					if s := walk(c.Members); s != "" {
						return s
					}
				}
				continue
			case model.EOS, model.Fail, model.Ignore:
				continue
			}
			f := v.FieldByName(specgen.GoName(m.Name))
			if !f.IsValid() {
				return "no field for " + m.Name
			}
			want, ok := o.Fields[m.Name]
			if !ok {
				if zero && !f.IsZero() {
					return fmt.Sprintf("%s.%s (%s) is not part of the parsed case but was set to %v", o.Type, m.Name, m.Kind, f)
				}
				continue
			}
			if s := compareValue(env, f, want, zero); s != "" {
				return fmt.Sprintf("%s.%s (%s %s): %s", o.Type, m.Name, m.Kind, m.Base, s)
			}
		}
		return ""
	}
	return walk(env.Structs[o.Type].Members)
}

func compareValue(env *interp.Env, f reflect.Value, want interface{}, zero bool) string {
	switch w := want.(type) {
	case uint64:
		if f.Kind() < reflect.Uint || f.Kind() > reflect.Uint64 {
			return "kind " + f.Kind().String()
		}
		if f.Uint() != w {
			return fmt.Sprintf("is %d (%#x), want %d (%#x)", f.Uint(), f.Uint(), w, w)
		}
	case string:
		if f.Kind() != reflect.String || f.String() != w {
			return fmt.Sprintf("is %q, want %q", f, w)
		}
	case interp.Pos:
		if f.Kind() != reflect.Int || f.Int() != int64(w) {
			return fmt.Sprintf("is %v, want %d", f, w)
		}
	case *interp.Object:
		return compare(env, f, w, zero)
	case []interface{}:
		if k := f.Kind(); k != reflect.Slice && k != reflect.Array {
			return "kind " + k.String()
		}
		if f.Len() != len(w) {
			return fmt.Sprintf("has %d elements, want %d", f.Len(), len(w))
		}
		for i := range w {
			if s := compareValue(env, f.Index(i), w[i], zero); s != "" {
				return fmt.Sprintf("element %d %s", i, s)
			}
		}
	default:
		return fmt.Sprintf("unknown reference value %T", want)
	}
	return ""
}

// snapshot renders a generated object completely.
func snapshot(v reflect.Value) string {
	var b strings.Builder
	snap(&b, v)
	return b.String()
}

func snap(b *strings.Builder, v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		snap(b, v.Elem())
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			snap(b, v.Field(i))
			b.WriteString(";")
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		fmt.Fprintf(b, "%d[", v.Len())
		for i := 0; i < v.Len(); i++ {
			snap(b, v.Index(i))
			b.WriteString(",")
		}
		b.WriteString("]")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	default:
		fmt.Fprint(b, v)
	}
}
