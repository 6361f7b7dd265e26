// Command vfengine decides the properties of /verif/properties.jsonl by
// symbolic execution of the code in /repo.
package main

import (
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vfengine check <property> [quick|thorough] | replay <file> | selftest")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(checkMain(os.Args[2:]))
	case "replay":
		os.Exit(replayMain(os.Args[2:]))
	case "selftest":
		os.Exit(selftest())
	}
	fmt.Fprintln(os.Stderr, "unknown command")
	os.Exit(2)
}
