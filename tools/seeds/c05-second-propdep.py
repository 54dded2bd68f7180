ID = "c05-propdep-replaced"
PROPERTY = "C05"
NEEDS = "two PropDependency calls for the same property, and an object that lacks only what the first call asked for"
BREAKS = "an object that violates the first property dependency of a name is accepted once a second one is declared for the same name"
EDITS = [("object.go", """	l := o.propdeps[from]
	l = append(l, to...)
	o.propdeps[from] = l
""", """	l := make([]string, 0, len(to))
	l = append(l, to...)
	o.propdeps[from] = l
""")]
DEMO = '''package main

import (
	"fmt"
	"os"

	"github.com/lestrrat-go/jsval"
)

func main() {
	o := jsval.Object().AdditionalProperties(jsval.EmptyConstraint).PropDependency("a", "b").PropDependency("a", "c")
	if o.Validate(map[string]interface{}{"a": 1, "c": 1}) == nil {
		fmt.Println("accepted although b is missing")
		os.Exit(1)
	}
	if o.Validate(map[string]interface{}{"a": 1, "b": 1, "c": 1}) != nil {
		os.Exit(1)
	}
}
'''
