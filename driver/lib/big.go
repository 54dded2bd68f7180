package lib

import (
	"encoding/json"
	"reflect"
	"strconv"

	jsval "github.com/lestrrat-go/jsval"
)

type bigNum struct {
	G   string `json:"g"`
	Lit string `json:"lit"`
	Ptr bool   `json:"ptr"`
}

func (n bigNum) float() float64 {
	f, err := strconv.ParseFloat(n.Lit, 64)
	if err != nil {
		panic("driver: " + err.Error())
	}
	return f
}

func (n bigNum) make() interface{} {
	var v reflect.Value
	t := numKinds[n.G]
	switch n.G[0] {
	case 'f':
		v = reflect.ValueOf(n.float()).Convert(t)
		if v.Float() != n.float() {
			panic("driver: does not fit: " + n.Lit)
		}
	case 'i':
		i, err := strconv.ParseInt(n.Lit, 10, t.Bits())
		if err != nil {
			panic("driver: " + err.Error())
		}
		v = reflect.ValueOf(i).Convert(t)
	default:
		i, err := strconv.ParseUint(n.Lit, 10, t.Bits())
		if err != nil {
			panic("driver: " + err.Error())
		}
		v = reflect.ValueOf(i).Convert(t)
	}
	if n.Ptr {
		p := reflect.New(t)
		p.Elem().Set(v)
		v = p
	}
	return v.Interface()
}

// RunBig validates numbers of any size.
func RunBig(raw []byte) ([]byte, error) {
	var b struct {
		K  string `json:"k"`
		Ev []struct {
			E  string   `json:"e"`
			M  string   `json:"m"`
			V  bigNum   `json:"v"`
			Vs []bigNum `json:"vs"`
			On bool     `json:"on"`
		} `json:"ev"`
	}
	if err := json.Unmarshal(raw, &b); err != nil {
		return nil, err
	}
	var out map[string]interface{}
	if err := json.Unmarshal(raw, &out); err != nil {
		return nil, err
	}
	ni, ic := jsval.Number(), jsval.Integer()
	whole := b.K == "integer"
	var evs []interface{}
	for i, x := range b.Ev {
		x := x
		res := out["ev"].([]interface{})[i].(map[string]interface{})
		o, detail := Guard(func() {
			if x.E == "val" {
				var err error
				if v := x.V.make(); whole {
					err = ic.Validate(v)
				} else {
					err = ni.Validate(v)
				}
				res["ok"] = err == nil
				return
			}
			l := make([]interface{}, len(x.Vs))
			for i, v := range x.Vs {
				l[i] = v.make()
			}
			switch x.M {
			case "Minimum":
				ni.Minimum(x.V.float())
				ic.Minimum(x.V.float())
			case "Maximum":
				ni.Maximum(x.V.float())
				ic.Maximum(x.V.float())
			case "MultipleOf":
				ni.MultipleOf(x.V.float())
				ic.MultipleOf(x.V.float())
			case "ExclusiveMinimum":
				ni.ExclusiveMinimum(x.On)
				ic.ExclusiveMinimum(x.On)
			case "ExclusiveMaximum":
				ni.ExclusiveMaximum(x.On)
				ic.ExclusiveMaximum(x.On)
			case "Enum":
				ni.Enum(l...)
				ic.Enum(l...)
			default:
				panic("driver: unknown call " + x.M)
			}
		})
		if o != "" {
			if o == "driver" {
				panic(detail)
			}
			res["e"], res["detail"] = o, detail
		}
		evs = append(evs, res)
		if o != "" {
			break
		}
	}
	out["ev"] = evs
	return json.Marshal(out)
}
