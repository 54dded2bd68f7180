ID = "c09-failed-lookup-remembered"
PROPERTY = "C09"
NEEDS = "a reference used before its name is registered, then registration, then another use"
BREAKS = "a reference that was used too early keeps rejecting after its name has been registered"
EDITS = [("reference.go", """	c, err = r.resolver.GetReference(r.reference)
	if err != nil {
		return nil, err
	}
""", """	c, err = r.resolver.GetReference(r.reference)
	if err != nil {
		r.resolved = Not(EmptyConstraint)
		return nil, err
	}
""")]
DEMO = '''package main

import (
	"fmt"
	"os"

	"github.com/lestrrat-go/jsval"
)

func main() {
	m := &jsval.ConstraintMap{}
	r := jsval.Reference(m).RefersTo("a")
	if r.Validate("x") == nil {
		os.Exit(1)
	}
	m.SetReference("a", jsval.String())
	if err := r.Validate("x"); err != nil {
		fmt.Println("still rejected:", err)
		os.Exit(1)
	}
}
'''
