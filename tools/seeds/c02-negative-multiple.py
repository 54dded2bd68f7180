ID = "c02-negative-multiple"
PROPERTY = "C02"
NEEDS = "a multipleOf facet and a negative value that is not a multiple (the remainder of a negative number is negative)"
BREAKS = "number and integer constraints accept negative values that are not divisible by multipleOf"
EDITS = [("number.go", "math.Mod(f, nc.multipleOf) != 0", "math.Mod(f, nc.multipleOf) > 0")]
DEMO = '''package main

import (
	"fmt"
	"os"

	"github.com/lestrrat-go/jsval"
)

func main() {
	c := jsval.Integer().MultipleOf(3)
	if c.Validate(-9) != nil || c.Validate(-8) == nil || c.Validate(8) == nil {
		fmt.Println("-8 is a multiple of 3?", c.Validate(-8))
		os.Exit(1)
	}
}
'''
