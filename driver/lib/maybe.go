package lib

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	jsval "github.com/lestrrat-go/jsval"
)

// MX is an argument of Set: numbers as decimal texts.
type MX struct {
	T  string `json:"t"`
	B  bool   `json:"b"`
	G  string `json:"g"`
	D  []rune `json:"d"`
	S  []rune `json:"s"`
	Nm bool   `json:"nm"`
}

// MOp is one operation on a Maybe.
type MOp struct {
	O    string `json:"o"`
	X    *MX    `json:"x"`
	Text []rune `json:"text"`
	Via  string `json:"via"`
}

type maybeCase struct {
	ID int    `json:"id"`
	Mk string `json:"mk"`
	Ev []MOp  `json:"ev"`
}

type (
	nBool   bool
	nString string
	nInt    int
	nUint   uint
	nFloat  float64
	nTime   time.Time
)

func plainFloat(f float64) string {
	if f == math.Trunc(f) && math.Abs(f) < 1<<70 { // exactly
		return strconv.FormatFloat(f, 'f', 0, 64)
	}
	return strconv.FormatFloat(f, 'f', -1, 64)
}

func (x *MX) build() interface{} {
	d := string(x.D)
	switch x.T {
	case "bool":
		if x.Nm {
			return nBool(x.B)
		}
		return x.B
	case "str":
		if x.Nm {
			return nString(x.S)
		}
		return string(x.S)
	case "time":
		t, err := time.Parse(time.RFC3339Nano, string(x.S))
		if err != nil {
			panic("driver: " + err.Error())
		}
		if x.Nm {
			return nTime(t)
		}
		return t
	case "nil":
		return nil
	case "bytes":
		return []byte(string(x.S))
	case "strp":
		s := string(x.S)
		return &s
	case "list":
		return []interface{}{"a"}
	case "map":
		return map[string]interface{}{}
	case "number":
		return json.Number(d)
	case "num":
		switch x.G[0] {
		case 'f':
			f, err := strconv.ParseFloat(d, 64)
			if err != nil {
				panic("driver: " + err.Error())
			}
			if x.G == "f32" {
				return float32(f)
			}
			if x.Nm {
				return nFloat(f)
			}
			return f
		case 'i':
			n, err := strconv.ParseInt(d, 10, 64)
			if err != nil {
				panic("driver: " + err.Error())
			}
			switch x.G {
			case "i8":
				return int8(n)
			case "i16":
				return int16(n)
			case "i32":
				return int32(n)
			case "i64":
				return n
			}
			if x.Nm {
				return nInt(n)
			}
			return int(n)
		default:
			n, err := strconv.ParseUint(d, 10, 64)
			if err != nil {
				panic("driver: " + err.Error())
			}
			switch x.G {
			case "u8":
				return uint8(n)
			case "u16":
				return uint16(n)
			case "u32":
				return uint32(n)
			case "u64":
				return n
			}
			if x.Nm {
				return nUint(n)
			}
			return uint(n)
		}
	}
	panic("driver: maybe argument " + x.T)
}

// canonical form of the argument as the specification sees it
func (x *MX) canon() M {
	m := M{"t": x.T, "nm": x.Nm}
	switch x.T {
	case "bool":
		m["b"] = x.B
	case "str", "time":
		m["s"] = cps(string(x.S))
	case "num":
		m["g"] = x.G
		m["d"] = cps(string(x.D))
		switch f := x.build().(type) {
		case float32:
			m["d"] = cps(plainFloat(float64(f)))
		case float64:
			m["d"] = cps(plainFloat(f))
		case nFloat:
			m["d"] = cps(plainFloat(float64(f)))
		}
	}
	return m
}

func maybeValue(x interface{}) interface{} {
	switch v := x.(type) {
	case bool:
		return M{"t": "bool", "b": v}
	case string:
		return M{"t": "str", "s": cps(v)}
	case float64:
		return M{"t": "num", "g": "f64", "d": cps(plainFloat(v))}
	case int64:
		return M{"t": "num", "g": "i64", "d": cps(strconv.FormatInt(v, 10))}
	case uint64:
		return M{"t": "num", "g": "u64", "d": cps(strconv.FormatUint(v, 10))}
	case time.Time:
		return M{"t": "time", "s": cps(v.Format(time.RFC3339Nano))}
	}
	return M{"t": fmt.Sprintf("%T", x)}
}

// floatText is the value of a JSON number text, canonical; empty if none
func floatText(s string) []int {
	s = strings.Trim(s, " \t\r\n")
	if s == "" || s[0] != '-' && (s[0] < '0' || s[0] > '9') {
		return []int{}
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil || math.IsInf(f, 0) || math.IsNaN(f) {
		return []int{}
	}
	return cps(plainFloat(f))
}

func newMaybe(mk string) reflect.Value { return reflect.New(maybeTypes[mk]) }

// RunMaybe executes one history.
func RunMaybe(raw []byte) ([]byte, error) {
	var c maybeCase
	if err := json.Unmarshal(raw, &c); err != nil {
		return nil, err
	}
	h := newMaybe(c.Mk)
	out := []M{}
	for _, op := range c.Ev {
		op := op
		res := M{"o": op.O}
		o, d := Guard(func() { maybeStep(h, c.Mk, &op, res) })
		if o == "driver" {
			return nil, fmt.Errorf("case %d: %s", c.ID, d)
		}
		if o != "" {
			out = append(out, M{"o": o, "detail": d})
			break
		}
		out = append(out, res)
	}
	return json.Marshal(M{"id": c.ID, "mk": c.Mk, "ev": out})
}

func decodeInto(p reflect.Value, mk, text, via string) error {
	switch via {
	case "json":
		return json.Unmarshal([]byte(text), p.Interface())
	case "field":
		st := reflect.StructOf([]reflect.StructField{{Name: "A", Type: maybeTypes[mk], Tag: `json:"a"`}})
		x := reflect.New(st)
		x.Elem().Field(0).Set(p.Elem())
		err := json.Unmarshal([]byte(`{"a":`+text+`}`), x.Interface())
		p.Elem().Set(x.Elem().Field(0))
		return err
	}
	return p.Interface().(json.Unmarshaler).UnmarshalJSON([]byte(text))
}

func maybeStep(h reflect.Value, mk string, op *MOp, res M) {
	m := h.Interface().(jsval.Maybe)
	var err error
	switch op.O {
	case "set":
		res["x"] = op.X.canon()
		err = m.Set(op.X.build())
	case "dec":
		res["text"] = cps(string(op.Text))
		res["fl"] = floatText(string(op.Text))
		err = decodeInto(h, mk, string(op.Text), op.Via)
	case "reset":
		m.Reset()
	default:
		panic("driver: unknown operation " + op.O)
	}
	res["err"] = err != nil
	res["valid"] = m.Valid()
	if !m.Valid() {
		return
	}
	res["v"] = maybeValue(m.Value())
	var b []byte
	if op.Via == "ptr" {
		b, err = json.Marshal(h.Interface())
	} else {
		b, err = json.Marshal(h.Elem().Interface())
	}
	res["encok"] = err == nil
	res["enc"] = cps(string(b))
	res["encfl"] = floatText(string(b))
	p := newMaybe(mk)
	err = json.Unmarshal(b, p.Interface())
	res["rtok"] = err == nil
	pm := p.Interface().(jsval.Maybe)
	res["rtvalid"] = pm.Valid()
	res["rtv"] = maybeValue(pm.Value())
}
