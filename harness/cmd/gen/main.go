package main

import (
	"fmt"
	"os"

	"verifharness/pipe"
)

func main() {
	out, err := pipe.Generate(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	if err := out.Write(os.Args[2]); err != nil {
		panic(err)
	}
	for _, n := range out.Names() {
		fmt.Println(n, len(out[n]))
	}
}
