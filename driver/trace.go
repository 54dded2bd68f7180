//go:build debug0

package main

import (
	"io"

	"github.com/lestrrat-go/pdebug"
)

// a build that traces what it does; nobody reads the trace
func init() { pdebug.DefaultCtx.Writer = io.Discard }
