package lib

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"net/url"
	"reflect"
	"regexp"
	"strings"
	"sync"
	"time"

	jsval "github.com/lestrrat-go/jsval"
)

type (
	wInner struct {
		A string `json:"a"`
		M jsval.MaybeString
		N *jsval.MaybeInt `json:"n"`
	}
	wInnerPtr struct {
		*wInner
		B int `json:"b"`
	}
	WOuter struct {
		*WOuter
		A interface{} `json:"a"`
	}
	wInt      int
	wEmbInt   struct{ wInt }
	WEmbIface struct {
		fmt.Stringer
		A string `json:"a"`
	}
	wDup struct {
		A string `json:"a"`
		B int    `json:"a"`
	}
	wTags struct {
		A string `json:",,,"`
		B string `json:" a"`
		C string `json:"a b,omitempty"`
		D string `json:"-,"`
		E string `json:"日本"`
		F string `xml:"a" json`
	}
	wMaybes struct {
		A jsval.MaybeString  `json:"a"`
		B *jsval.MaybeString `json:"b"`
		C jsval.Maybe        `json:"c"`
		D interface{}        `json:"d"`
		E []jsval.MaybeInt   `json:"e"`
		F **jsval.MaybeInt   `json:"f"`
		G jsval.MaybeTime    `json:"g"`
		H jsval.MaybeUint    `json:"h"`
	}
	wHostile struct {
		A chan int                       `json:"a"`
		B func()                         `json:"b"`
		C map[int]string                 `json:"c"`
		D [3]interface{}                 `json:"d"`
		E error                          `json:"e"`
		F *wHostile                      `json:"f"`
		G unexportedIface                `json:"g"`
		H map[string]map[string]chan int `json:"h"`
	}
	unexportedIface interface{ hidden() }
	wList           struct {
		V    interface{} `json:"a"`
		Next *wList      `json:"b"`
	}
	wNames  struct{ L []string }
	wNamesE struct{ A string }
	wVal    struct{ M map[string]interface{} }
	wSet    struct{ M map[string]interface{} }
	wKey    string
	WPub    struct {
		A jsval.MaybeString `json:"a"`
		B jsval.MaybeInt    `json:"b"`
	}
	wEmbPub    struct{ WPub }
	wEmbPubPtr struct{ *WPub }
	wEmbMaybe  struct {
		jsval.MaybeString
		A int
	}
)

func (w wNames) GetPropNames() ([]string, error)  { return w.L, nil }
func (w wNamesE) GetPropNames() ([]string, error) { return nil, errors.New("no") }
func (w wVal) GetPropNames() ([]string, error) {
	l := []string{}
	for k := range w.M {
		l = append(l, k)
	}
	return l, nil
}
func (w wVal) GetPropValue(n string) (interface{}, error) {
	if v, ok := w.M[n]; ok {
		return v, nil
	}
	return nil, errors.New("no such property")
}
func (w wSet) GetPropNames() ([]string, error)            { return wVal(w).GetPropNames() }
func (w wSet) GetPropValue(n string) (interface{}, error) { return wVal(w).GetPropValue(n) }
func (w wSet) SetPropValue(n string, v interface{}) error {
	if w.M == nil {
		return errors.New("nil")
	}
	w.M[n] = v
	return nil
}

func deepArr(n int, leaf interface{}) interface{} {
	for i := 0; i < n; i++ {
		leaf = []interface{}{leaf}
	}
	return leaf
}
func deepMap(n int, leaf interface{}) interface{} {
	for i := 0; i < n; i++ {
		leaf = map[string]interface{}{"a": leaf}
	}
	return leaf
}

// Wild are values of every other kind a program may come up with.
var Wild = []func() interface{}{
	func() interface{} { return math.NaN() },
	func() interface{} { return math.Inf(1) },
	func() interface{} { return math.Inf(-1) },
	func() interface{} { return float32(math.NaN()) },
	func() interface{} { return []float64{math.NaN(), math.NaN(), 1} },
	func() interface{} { return math.MaxFloat64 },
	func() interface{} { return uint64(math.MaxUint64) },
	func() interface{} { return int64(math.MinInt64) },
	func() interface{} { return math.Copysign(0, -1) },
	func() interface{} { return json.Number("1.5") },
	func() interface{} { return json.Number("x") },
	func() interface{} { return []byte("abc") },
	func() interface{} { return json.RawMessage(`{"a":1}`) },
	func() interface{} { return map[string]chan int{"a": nil} },
	func() interface{} { return map[string]func(){"a": nil, "b": func() {}} },
	func() interface{} { return map[string]map[int]int{"a": {1: 2}} },
	func() interface{} { return map[string]*string{"a": nil} },
	func() interface{} { return map[wKey]wKey{"a": "b"} },
	func() interface{} { return map[string]struct{}{"a": {}} },
	func() interface{} { return map[string]json.Number{"a": "1"} },
	func() interface{} { return map[string]interface{}{"": nil, "\x00": 1, "\xff": 2} },
	func() interface{} { return &map[string]interface{}{} },
	func() interface{} { m := &map[string]interface{}{}; return &m },
	func() interface{} { return struct{}{} },
	func() interface{} { return &struct{}{} },
	func() interface{} { return struct{ a, b int }{1, 2} },
	func() interface{} { return wInner{} },
	func() interface{} { return &wInner{} },
	func() interface{} { p := &wInner{}; return &p },
	func() interface{} { return wInnerPtr{} },
	func() interface{} { return &wInnerPtr{} },
	func() interface{} { return &wInnerPtr{wInner: &wInner{}} },
	func() interface{} { return WOuter{} },
	func() interface{} { return &WOuter{WOuter: &WOuter{A: 1}} },
	func() interface{} { return wEmbInt{1} },
	func() interface{} { return WEmbIface{} },
	func() interface{} { return &WEmbIface{Stringer: time.Second} },
	func() interface{} { return wDup{"x", 1} },
	func() interface{} { return wTags{} },
	func() interface{} { return &wTags{A: "a"} },
	func() interface{} { return wMaybes{} },
	func() interface{} { return &wMaybes{} },
	func() interface{} {
		x := &wMaybes{C: &jsval.MaybeInt{}, D: &jsval.MaybeString{}, E: make([]jsval.MaybeInt, 2)}
		x.A.Set("x")
		return x
	},
	func() interface{} {
		return wMaybes{C: jsval.Maybe(nil), D: jsval.MaybeString{}, B: &jsval.MaybeString{}}
	},
	func() interface{} { return wHostile{} },
	func() interface{} {
		return &wHostile{A: make(chan int), B: func() {}, C: map[int]string{1: "a"}, E: errors.New("x"), F: &wHostile{}}
	},
	func() interface{} { return &wList{V: 1, Next: &wList{V: "a", Next: &wList{}}} },
	func() interface{} { return wNames{[]string{"a", "b", "a"}} },
	func() interface{} { return wNames{nil} },
	func() interface{} { return wNamesE{"x"} },
	func() interface{} { return wVal{map[string]interface{}{"a": "x", "b": nil}} },
	func() interface{} { return &wVal{} },
	func() interface{} { return wSet{map[string]interface{}{"b": 1}} },
	func() interface{} { return &wSet{map[string]interface{}{}} },
	func() interface{} { return wSet{} },
	func() interface{} { return wEmbPub{} },
	func() interface{} { return &wEmbPub{} },
	func() interface{} { return &wEmbPubPtr{} },
	func() interface{} { return &wEmbPubPtr{&WPub{}} },
	func() interface{} { return wEmbMaybe{} },
	func() interface{} { return &wEmbMaybe{} },
	func() interface{} { return jsval.MaybeString{} },
	func() interface{} { return &jsval.MaybeInt{} },
	func() interface{} { return (*jsval.MaybeInt)(nil) },
	func() interface{} { return []jsval.MaybeString{{}, {}} },
	func() interface{} { return reflect.ValueOf(1) },
	func() interface{} { return reflect.TypeOf(1) },
	func() interface{} { return errors.New("x") },
	func() interface{} { return big.NewInt(5) },
	func() interface{} { return &url.URL{Path: "a"} },
	func() interface{} { return regexp.MustCompile("a") },
	func() interface{} { return &sync.Mutex{} },
	func() interface{} { return &bytes.Buffer{} },
	func() interface{} { return time.Now },
	func() interface{} { return time.Unix(0, 0) },
	func() interface{} { t := time.Unix(0, 0); return &t },
	func() interface{} { return time.Second },
	func() interface{} { return [][]int{{1}, {1}, nil} },
	func() interface{} { return []chan int{nil, make(chan int), nil} },
	func() interface{} { return []func(){nil, nil} },
	func() interface{} { return []map[int]int{{1: 1}, {1: 1}} },
	func() interface{} {
		return []interface{}{map[interface{}]interface{}{"a": 1}, map[interface{}]interface{}{"a": 1}, []int{1}, []int{1}}
	},
	func() interface{} { return []interface{}{complex(1, 0), complex(1, 0), 1} },
	func() interface{} { return []interface{}{(*int)(nil), nil, (*string)(nil), (*int)(nil)} },
	func() interface{} { return []interface{}{wInner{}, wInner{}, &wInner{}, &wInner{}} },
	func() interface{} { return []interface{}{struct{ F func() }{}, struct{ F func() }{}} },
	func() interface{} { return []struct{ A interface{} }{{[]int{1}}, {[]int{1}}} },
	func() interface{} { return []error{nil, errors.New("a"), errors.New("a")} },
	func() interface{} { return [2][]int{{1}, {2}} },
	func() interface{} { return [1]map[string]string{{"a": "b"}} },
	func() interface{} { return [0]interface{}{} },
	func() interface{} { return "\xff\xfe" },
	func() interface{} { return "\x00" },
	func() interface{} { return strings.Repeat("ab", 20000) },
	func() interface{} { return strings.Repeat("a.", 5000) + "@x" },
	func() interface{} { return "%zz%" },
	func() interface{} { return "::::::::" },
	func() interface{} { return deepArr(3000, "x") },
	func() interface{} { return deepMap(3000, "x") },
	func() interface{} { return []interface{}{deepArr(500, 1), deepArr(500, 1)} },
	func() interface{} {
		m := map[string]interface{}{}
		for i := 0; i < 3000; i++ {
			m[fmt.Sprintf("k%d", i)] = i
		}
		return m
	},
	func() interface{} {
		l := []interface{}{}
		for i := 0; i < 1500; i++ {
			l = append(l, i, fmt.Sprint(i))
		}
		return l
	},
	func() interface{} { var x interface{}; return &x },
	func() interface{} { var x interface{} = map[string]interface{}{"a": 1}; return &x },
	func() interface{} { var x interface{} = &wMaybes{}; return &x },
	func() interface{} { return uintptr(7) },
	func() interface{} { return complex64(0) },
	func() interface{} { return (**int)(nil) },
	func() interface{} { var e error; return &e },
	func() interface{} { return (error)(nil) },
	func() interface{} { return jsval.String() },
	func() interface{} { return map[string]jsval.MaybeString{"a": {}} },
	func() interface{} { return map[string]*jsval.MaybeString{"a": nil, "b": {}} },
	func() interface{} { return map[string]jsval.Maybe{"a": nil} },
}
