package lib

import (
	"encoding/json"
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"

	schema "github.com/lestrrat-go/jsschema"
	jsval "github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/builder"
)

type schemaCase struct {
	ID     int               `json:"id"`
	Sh     int               `json:"sh"`
	Text   string            `json:"text"`
	Path   []interface{}     `json:"path"` // tokens (text) and indices of the part that is built
	NilCtx bool              `json:"nilctx"`
	Ev     []json.RawMessage `json:"ev"`
}

// Dump is a deterministic picture of everything exported in v.
func Dump(v reflect.Value, b *strings.Builder) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if v.CanInterface() {
		if rx, ok := v.Interface().(*regexp.Regexp); ok {
			if rx == nil {
				b.WriteString("norx")
			} else {
				fmt.Fprintf(b, "rx%q", rx.String())
			}
			return
		}
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		Dump(v.Elem(), b)
	case reflect.Struct:
		b.WriteString(v.Type().Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" {
				continue
			}
			b.WriteString(v.Type().Field(i).Name + ":")
			Dump(v.Field(i), b)
			b.WriteString(",")
		}
		b.WriteString("}")
	case reflect.Slice:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			Dump(v.Index(i), b)
			b.WriteString(",")
		}
		b.WriteString("]")
	case reflect.Map:
		l := []string{}
		for _, k := range v.MapKeys() {
			var e strings.Builder
			Dump(k, &e)
			e.WriteString("=")
			Dump(v.MapIndex(k), &e)
			l = append(l, e.String())
		}
		sort.Strings(l)
		b.WriteString("map{" + strings.Join(l, ",") + "}")
	case reflect.Func, reflect.Chan:
		b.WriteString("?")
	default:
		fmt.Fprintf(b, "%q", fmt.Sprint(v.Interface()))
	}
}

func dump(x interface{}) string {
	var b strings.Builder
	Dump(reflect.ValueOf(x), &b)
	return b.String()
}

// ReadDoc decodes a document both ways.
func ReadDoc(text string) (*schema.Schema, map[string]interface{}, error) {
	s, err := schema.Read(strings.NewReader(text))
	if err != nil {
		return nil, nil, err
	}
	var m map[string]interface{}
	if err := json.Unmarshal([]byte(text), &m); err != nil {
		return nil, nil, err
	}
	return s, m, nil
}

// SubDoc finds a part of a decoded document.
func SubDoc(x interface{}, path []interface{}) (interface{}, bool) {
	for _, t := range path {
		switch k := t.(type) {
		case string:
			m, ok := x.(map[string]interface{})
			if !ok {
				return nil, false
			}
			if x, ok = m[k]; !ok {
				return nil, false
			}
		case float64:
			l, ok := x.([]interface{})
			if !ok || int(k) >= len(l) {
				return nil, false
			}
			x = l[int(k)]
		}
	}
	return x, true
}

// RunSchema executes one schema case.
func RunSchema(raw []byte) ([]byte, error) {
	var c schemaCase
	if err := json.Unmarshal(raw, &c); err != nil {
		return nil, err
	}
	var whole map[string]json.RawMessage
	json.Unmarshal(raw, &whole)
	w := &World{Ctx: Ctx{Sh: c.Sh}}
	s, doc, err := ReadDoc(c.Text)
	if err != nil {
		return nil, fmt.Errorf("case %d: %s in %s", c.ID, err, c.Text)
	}
	if len(c.Path) > 0 {
		sub, ok := SubDoc(doc, c.Path)
		m, ok2 := sub.(map[string]interface{})
		if !ok || !ok2 {
			return nil, fmt.Errorf("case %d: no %v in %s", c.ID, c.Path, c.Text)
		}
		s = schema.New()
		if err := s.Extract(m); err != nil {
			return nil, fmt.Errorf("case %d: %s", c.ID, err)
		}
	}
	before := dump(s) + dump(doc)
	b := builder.New()
	var v *jsval.JSVal
	out := []M{}
	for _, re := range c.Ev {
		var e Event
		res := M{}
		if err := json.Unmarshal(re, &e); err != nil {
			return nil, err
		}
		json.Unmarshal(re, &res)
		skip := false
		o, d := Guard(func() {
			switch e.E {
			case "build":
				if e.Via == "new" {
					b = builder.New()
				}
				var err error
				if c.NilCtx {
					v, err = b.Build(s)
				} else {
					v, err = b.BuildWithCtx(s, doc)
				}
				res["ok"] = err == nil
				if err != nil {
					v = nil
				} else if v == nil {
					res["e"] = "nothing"
				}
			case "val":
				if skip = v == nil; !skip {
					w.RecordVal(v.Validate, *e.V, res, "")
				}
			case "intact":
				res["ok"] = dump(s)+dump(doc) == before
			default:
				panic("driver: unknown event " + e.E)
			}
		})
		if o == "driver" {
			return nil, fmt.Errorf("case %d: %s", c.ID, d)
		}
		if o != "" {
			out = append(out, M{"e": o, "detail": d, "was": res})
			break
		}
		if !skip {
			out = append(out, res)
		}
	}
	whole["ev"], _ = json.Marshal(out)
	return json.Marshal(whole)
}
