package lib

import (
	"bytes"
	"encoding/json"
	"fmt"

	schema "github.com/lestrrat-go/jsschema"
	jsval "github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/builder"
)

// LibGen is what the library generates for parts of a document (all of it if
// there are no paths), or an error.
func LibGen(text string, paths [][]interface{}, names []string) (code string, err error) {
	whole, doc, err := ReadDoc(text)
	if err != nil {
		return "", err
	}
	schemas := []*schema.Schema{}
	if len(paths) == 0 {
		schemas = append(schemas, whole)
	}
	for _, p := range paths {
		if p == nil {
			return "", fmt.Errorf("no such part")
		}
		sub, _ := SubDoc(doc, p)
		m, ok := sub.(map[string]interface{})
		if !ok {
			return "", fmt.Errorf("not an object")
		}
		s := schema.New()
		if err := s.Extract(m); err != nil {
			return "", err
		}
		schemas = append(schemas, s)
	}
	var l []*jsval.JSVal
	for i, s := range schemas {
		v, err := builder.New().BuildWithCtx(s, doc)
		if err != nil {
			return "", err
		}
		if i < len(names) && names[i] != "" {
			v.SetName(names[i])
		}
		l = append(l, v)
	}
	var buf bytes.Buffer
	if err := jsval.NewGenerator().Process(&buf, l...); err != nil {
		return "", err
	}
	return buf.String(), nil
}

// RunLibGen generates the code of one case.
func RunLibGen(raw []byte) ([]byte, error) {
	var c struct {
		ID    int             `json:"id"`
		Text  string          `json:"text"`
		Paths [][]interface{} `json:"paths"`
		Names [][]rune        `json:"vnames"`
	}
	if err := json.Unmarshal(raw, &c); err != nil {
		return nil, err
	}
	res := M{"id": c.ID}
	names := []string{}
	for _, n := range c.Names {
		names = append(names, string(n))
	}
	Guard(func() {
		if code, err := LibGen(c.Text, c.Paths, names); err == nil {
			res["code"] = code
		}
	})
	return json.Marshal(res)
}
