// Command vdrv executes cases on the real library: vdrv MODE < cases > trace
package main

import (
	"bufio"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"time"

	"vdrv/lib"
)

func main() {
	debug.SetMaxStack(256 << 20)
	if s := os.Getenv("VDRV_TIMEOUT"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			lib.Timeout = time.Duration(n) * time.Second
		}
	}
	mode := os.Args[1]
	f, ok := lib.Modes[mode]
	if !ok {
		fmt.Fprintln(os.Stderr, "vdrv: unknown mode", mode)
		os.Exit(3)
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	progress := os.NewFile(3, "progress")
	for n := 0; ; n++ {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			if progress != nil {
				progress.WriteAt([]byte(fmt.Sprintf("%-12d", n)), 0)
			}
			res, err := f(line)
			if err != nil {
				fmt.Fprintln(os.Stderr, "vdrv:", err)
				os.Exit(3)
			}
			out.Write(res)
			out.WriteByte('\n')
			if lib.Hung() { // what hangs keeps a core busy
				out.Flush()
				os.Exit(4)
			}
		}
		if err != nil {
			break
		}
	}
	if err := out.Flush(); err != nil {
		os.Exit(3)
	}
}
